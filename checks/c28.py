"""C28: fextent's sets of leads are mutually true."""
import random, re
from vt import ring as R, meth as M

def run(ctx):
    ctx.need("fextent")
    ctx.rule = ("random methods and principles on 4 to 8 bells, in leads or whole courses, with part ends, required rows, in-course and tenors-together restrictions, linkage, weights, several seeds and loops; "
                "the printed leads are rung out in every part and every row counted. Non-trivial: distinct runs that print a set of more than one lead")
    def one(k):
        rng = random.Random("%s/%d" % (ctx.seed, k))
        n = rng.choice([4, 5, 5, 6, 6, 6, 7, 7, 8]); courses = rng.random() < (.4 if n < 8 else 1) 
        for _ in range(300):
            m = M.regular_method(rng, n) if rng.random() < .7 else M.random_method(rng, n, 12)
            if not m or len(m) > 40: continue
            lh = R.leadhead(m, n)
            fixed = lh[0] == 0
            rows = R.ring_rows(m, R.rounds(n))[:-1] if False else None
            base = [R.rounds(n)] + R.ring_rows(m, R.rounds(n))[1:] if False else R.ring_rows(m[:-1], R.rounds(n))
            assert len(base) == len(m)
            true = len(set(base)) == len(base)
            if true or rng.random() < .05: break
        else: return
        principle = (not fixed and n < 7) or rng.random() < .08 and n < 6
        if principle: courses = courses and rng.random() < .1
        H = [R.power(lh, i) for i in range(R.order(lh))]
        args = ["-b", str(n)]; tt = inc = False
        if courses: args.append(rng.choice(["-c", "--whole-courses"]))
        if courses and rng.random() < (.75 if n == 8 else .3): tt = True; args.append(rng.choice(["-t", "--tenors-together"]))
        if n == 8 and not tt and rng.random() < .7: tt = True; args.append("-t")
        if rng.random() < .45: inc = True; args.append(rng.choice(["-i", "--in-course"]))
        if principle: args.append(rng.choice(["-p", "--principle"]))
        unit_rows = [R.mul(h, b) for h in (H if courses else H[:1]) for b in base]
        nw = (min(5, n - 2) if tt else n - 2) if courses else n - (0 if principle else 1)
        nh = 0 if principle else 1
        def in_table(r): return all(r[i] == i for i in range(n) if i < nh or i >= nh + nw) and (not inc or R.sign(r) == 1)
        gens = []
        if rng.random() < .4:
            for _ in range(rng.choice([1, 1, 1, 2])):
                for _ in range(30):
                    w = list(R.rand_row(rng, nw)); g = tuple(range(nh)) + tuple(x + nh for x in w) + tuple(range(nh + nw, n))
                    if inc and R.sign(g) < 0 and rng.random() < .95: continue
                    if R.order(g) <= 6: break
                if rng.random() < .08: g = R.rand_row(rng, n)
                if rng.random() < .15: g = R.power(lh, rng.randint(0, 3))
                gens.append(g); args += rng.choice([["-P", R.rs(g)], ["--part-end=" + R.rs(g)]])
        P = R.closure(gens, n) if gens else {R.rounds(n)}
        if len(P) > 24: return
        ok_group = all(in_table(p) for p in P)
        # a group that moves the tenor may work in whole courses; nothing is claimed about whether it does
        tenor_group = courses and any(p[n - 1] != n - 1 for p in P)
        req = []
        if rng.random() < .3:
            for _ in range(rng.choice([1, 1, 2, 3])):
                for _ in range(50):
                    w = list(R.rand_row(rng, nw)); r = tuple(range(nh)) + tuple(x + nh for x in w) + tuple(range(nh + nw, n))
                    if inc and R.sign(r) < 0 and rng.random() < .97: continue
                    if courses and rng.random() < .4: r = R.mul(r, rng.choice(H))
                    break
                if rng.random() < .04: r = R.rand_row(rng, n)
                req.append(r); args += rng.choice([["-r", R.rs(r)], ["--required=" + R.rs(r)]])
        calls = []; link = rng.random() < .3
        if link:
            args.append(rng.choice(["-k", "--linkage"]))
            for _ in range(rng.choice([0, 1, 1, 2])):
                for _ in range(30):
                    c = R.rand_change(rng, n, .7)
                    if nh and 0 not in R.places(c) and rng.random() < .95: continue
                    if inc and R.csign(c) != R.csign(m[-1]) and rng.random() < .97: continue
                    break
                t = R.cs(c, "X"); calls.append(c); args += ["-C", t]
            if not calls: calls = [R.pc(n, "14")]
        wt = []
        if rng.random() < .3:
            for _ in range(rng.choice([1, 2])):
                o = rng.choice(["i", "in-course", "o", "out-of-course", "t", "tenors-together", "f", "tenors-over", "k", "linked", "b", "base"]); v = rng.choice(["0", "1", "-1", "2.5", "0.1", "-0.3", "10", "1e3", "0.3333"])
                wt.append(o); args += rng.choice([["-W", o + "=" + v], ["--weighting=%s=%s" % (o, v)]])
        size = 1
        for i in range(2, nw + 1): size *= i
        steps = rng.choice([0, 1, 50, 300]) if rng.random() < .25 else (1500 if size <= 120 else 400)
        args += rng.choice([["-n", str(steps)], ["--iterations=%d" % steps]])
        loop = 1
        if rng.random() < .3: loop = rng.choice([2, 3]); args += rng.choice([["--loop=%d" % loop], ["-l%d" % loop]])
        seed = rng.choice([0, 1, 2, 77, rng.randint(1, 2 ** 31 - 2)]); args.append("--seed=%d" % seed)
        quiet = rng.random() < .12; show = rng.random() < .85; least = 0
        if quiet: args.append(rng.choice(["-q", "--quiet"]))
        if show: args.append("--print-leads")
        if rng.random() < .15: least = rng.choice([1, 10, 60, 1000]); args.append("--min-leads=%d" % least)
        if rng.random() < .1: args.append(rng.choice(["-u", "--status"]))
        p = R.pns(m, "x"); args.insert(rng.choice([0, len(args)]), p)
        r = ctx.app("fextent", args, "", timeout=120)
        if r is None: return
        def bad(c): ctx.appbad("fextent", args, "", r, c)
        ctx.count("runs"); ctx.count("whole-course runs", courses); ctx.count("multi-part runs", len(P) > 1); ctx.count("runs with required leads", bool(req))
        # what must be refused
        fail = None
        if courses and (principle or not fixed): fail = "principles in whole courses"
        elif tt and not courses: fail = "tenors-together leads"
        elif inc and any(R.sign(x) < 0 for x in req): fail = "an out-of-course required lead"
        elif link and inc and any(R.csign(c) != R.csign(m[-1]) for c in calls): fail = "an out-of-course call"
        elif link and courses and any(g[n - 1] != n - 1 for g in gens): fail = "part ends that move the tenor with linkage"
        elif len(set(unit_rows)) != len(unit_rows): fail = "a false method"
        elif not ok_group and not tenor_group: fail = "part ends that do not keep the leads in the set"
        hedge = tenor_group
        allparts = [R.mul(q, x) for q in P for x in unit_rows]
        if not fail and not hedge and len(set(allparts)) != len(allparts): fail = "falseness between parts"
        need = []
        if not fail and not hedge:
            seen = set()
            for x in req:
                if courses:
                    y = x
                    for _ in range(len(H) - 1):
                        if y[n - 1] == n - 1: break
                        y = R.mul(y, lh)
                else: y = x
                if not in_table(y): fail = "a required row that cannot occur"; break
                rows = [R.mul(q, R.mul(y, u)) for q in P for u in unit_rows]
                if len(set(rows)) != len(rows): fail = "a required lead that is false in its parts"; break
                if seen & set(rows): fail = "required leads that are false"; break
                seen |= set(rows); need.append(y)
        if fail:
            ctx.count("runs that must be refused")
            if r.rc != 1: return bad("accepted %s" % fail)
            if re.search(r"^\d+ leads", r.out, re.M): return bad("a set was printed in spite of %s" % fail)
            return ctx.ok_case(None)
        if r.rc:
            if hedge or link: ctx.count("runs refused though not certainly impossible"); return ctx.ok_case(None)
            return bad("refused, but there is no reason to")
        lines = r.out.split("\n")
        if lines.pop() != "": return bad("the last line is not ended")
        lines = [l for l in lines if l]
        sets = []; best = 0; cur = None; idx = {}
        if not quiet:
            while lines and lines[0].startswith("Q"): lines.pop(0)
            if seed and (not lines or lines.pop(0) != "Started with seed %d" % seed): return bad("the seed is not reported")
            if not lines or lines.pop(0) != "Using part-end group of order %d" % len(P): return bad("the order of the part-end group is wrong, should be %d" % len(P))
        def lead_line(l):
            q = re.match(r" *(\d+): (\S+)([+-]) ?(.*)$", l)
            if not q: return None
            try: x = R.pr(q[2])
            except Exception: return None
            return int(q[1]), x, q[3], q[4]
        if quiet and not show:
            if len(lines) != 1 or not lines[0].isdigit(): return bad("quiet output is not one number")
            total = int(lines[0]) * len(m)
            f = 1
            for i in range(2, n + 1): f *= i
            if total > f: return bad("%d changes exceed the extent" % total)
            return ctx.ok_case(None)
        if quiet:
            # no headings: only one run's leads can be told apart
            if loop > 1: return ctx.ok_case(None)
            sets.append((None, [lead_line(l) for l in lines]))
        else:
            for l in lines:
                q = re.match(r"(\d+) leads \((\d+)\)( not fully linked \(.*\))?( \[highest = (\d+) leads \((\d+)\)\])?$", l)
                if q:
                    sets.append((q, [])); continue
                if not sets: return bad("line %r before any set" % l)
                sets[-1][1].append(lead_line(l))
            if len(sets) != loop: return bad("%d sets reported, should be %d" % (len(sets), loop))
        for q, leads in sets:
            if None in leads: return bad("a line is not a lead")
            if q:
                N, C = int(q[1]), int(q[2])
                if C != N * len(m): return bad("%d leads are not %d changes" % (N, C))
                if q[3]:
                    # only required leads may be left without a link
                    if not link or not req: return bad("a set that is not fully linked was reported")
                    ctx.count("sets not fully linked")
                    if leads: return bad("a set that is not fully linked was printed")
                else: best = max(best, N)
                if (loop != 1) != bool(q[4]): return bad("the highest score is missing, or should not be there")
                if q[4] and (int(q[5]), int(q[6])) != (best, best * len(m)): return bad("the highest score should be %d" % best)
                if show and N >= least and not q[3]:
                    if N != len(leads) * len(P) * (len(H) if courses else 1): return bad("%d leads reported but %d printed" % (N, len(leads) * len(P) * (len(H) if courses else 1)))
                elif leads: return bad("leads are printed though not wanted")
                f = 1
                for i in range(2, n + 1): f *= i
                if C > f: return bad("%d changes exceed the extent" % C)
                if not link and size <= 120 and steps >= 1500 and not wt and N == 0: 
                    # the search starts from nothing and any first lead is an improvement
                    if all(len({R.mul(q2, u) for q2 in P for u in unit_rows}) == len(P) * len(unit_rows) for _ in (0,)): return bad("no lead was found")
            if not leads: continue
            ctx.count("sets examined"); ctx.count("leads examined", len(leads))
            all_rows = set(); cnt = 0; heads = set()
            for i, x, s, rest in leads:
                if len(x) != n: return bad("row %s" % R.rs(x))
                if (s == "+") != (R.sign(x) == 1): return bad("the sign of %s is wrong" % R.rs(x))
                if nh and x[0] != 0: return bad("%s does not have the treble at home" % R.rs(x))
                if inc and s != "+": return bad("%s is out of course" % R.rs(x))
                if courses and x[n - 1] != n - 1: return bad("%s is not a course head" % R.rs(x))
                if tt and any(x[b] != b for b in range(6, n)): return bad("%s does not have the tenors together" % R.rs(x))
                for q2 in P:
                    for u in unit_rows: all_rows.add(R.mul(q2, R.mul(x, u))); cnt += 1
                for q2 in P: heads.add(R.mul(q2, x))
            if len(all_rows) != cnt: return bad("the leads are not mutually true: %d of %d rows are different" % (len(all_rows), cnt))
            for y in need:
                if not any(R.mul(y, h) in heads for h in (H if courses else H[:1])): return bad("required %s is missing" % R.rs(y))
            if link:
                ctx.count("linked sets")
                le_back = [R.ap(R.ap(R.rounds(n), m[-1]), c) for c in calls]
                for i, x, s, rest in leads:
                    if courses:
                        okl = False
                        for h in H:
                            for g in le_back:
                                G = [R.power(g, e) for e in range(1, R.order(g))]
                                if all(any(R.mul(R.mul(R.mul(x, h), e), h2) in heads for h2 in H) for e in G): okl = True
                        if not okl: return bad("%s is not linked by a whole Q-set" % R.rs(x))
                    else:
                        nxt = [R.mul(x, R.mul(lh, g)) for g in [R.rounds(n)] + le_back]
                        same = {R.mul(q2, x) for q2 in P}
                        if not any(y in heads and y not in same for y in nxt): return bad("%s leads to no other lead of the set" % R.rs(x))
        if rng.random() < .1:
            r2 = ctx.app("fextent", args, "", timeout=120)
            if r2 is None: return
            ctx.count("runs repeated")
            if r2.out != r.out: return bad("a second run with the same seed gave %r" % r2.out[:300])
        ctx.ok_case(" ".join(args) if any(len(l) > 1 for _, l in sets) else None)
    ctx.map(one, range(ctx.n(700, 5000)))
    for argv in (["-b", "6"], ["x1x1x1x1x1x2"], ["-b", "3", "3.1.3.1.3.1"], ["-b", "34", "X1"], ["-b", "6", "xQ"], ["-b", "6", "&x1x1x1,2", "-P", "11"], ["-b", "6", "&x1x1x1,2", "-k", "-C", "Q"], ["-b", "6", "&x1x1x1,2", "-W", "b"], ["-b", "6", "&x1x1x1,2", "-W", "z=1"],
                 ["-b", "6", "&x1x1x1,2", "-W", "b=x"], ["-b", "6", "&x1x1x1,2", "-n", "x"], ["-b", "6", "&x1x1x1,2", "--iterations=-5"], ["-b", "6", "&x1x1x1,2", "--nonesuch"]):
        r = ctx.app("fextent", argv, "")
        if r is None: continue
        ctx.count("bad requests")
        if r.rc != 1 or r.out: ctx.appbad("fextent", argv, "", r, "the status should be a failure and nothing printed")
        else: ctx.ok_case("bad" + " ".join(argv))
    ctx.minimum = {"runs": 400, "sets examined": 200, "leads examined": 2000, "whole-course runs": 100, "multi-part runs": 80, "runs with required leads": 60, "linked sets": 20, "runs repeated": 20}
