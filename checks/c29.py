"""C29: splices and spliceplan report exactly the splices and plans that exist."""
import os, random, re
from collections import Counter
from vt import ring as R, meth as M

def lead(m, n): return R.ring_rows(m[:-1], R.rounds(n))
def fact(k):
    f = 1
    for i in range(2, k + 1): f *= i
    return f

def falseness(a, b, inc, out):
    f = set()
    for x in a:
        for y in b:
            q = R.div(x, y)
            if q[0] == 0 and not (inc and R.sign(q) < 0) and not (out and R.sign(q) > 0): f.add(q)
    return f
def group(f, out, n):
    if out: f = {R.div(x, y) for x in f for y in f}
    return R.closure(f, n) if f else {R.rounds(n)}
def describe(G, n):
    s = "%d-lead" % (len(G) // 2)
    if n < 3: return s
    f2 = fact(n - 3); f1 = f2 * (n - 2)
    if len(G) > 2 and len(G) in (f1, f1 // 2):
        for b in range(1, n):
            if all(g[b] == b for g in G): s += " (pivot: %s)" % R.ch(b); break
    if len(G) > 2 and len(G) in (f2, f2 // 2):
        for b1 in range(1, n):
            for b2 in range(b1 + 1, n):
                if all({g[b1], g[b2]} == {b1, b2} for g in G): return s + " (swaps: %s&%s)" % (R.ch(b1), R.ch(b2))
    return s

def vary(rng, m, n, sym):
    """another method with the same treble path"""
    m = list(m); L = len(m)
    path = [0]
    for c in m: path.append(M.moves(c, path[-1]))
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        i = rng.choice([L - 1, L // 2 - 1, rng.randrange(L), rng.randrange(L)])
        cand = [c for c in R.all_changes(n) if M.moves(c, path[i]) == path[i + 1]]
        c = rng.choice(cand)
        j = L - 2 - i
        if sym and j >= 0 and j != i:
            if M.moves(c, path[j]) != path[j + 1]: continue
            m[j] = c
        m[i] = c
    return tuple(m) if isinstance(m, tuple) else m

def family(rng, n, count, plain=False, sym=True):
    """methods with the same treble path, the treble leading at the start"""
    kind = "plain" if plain or n % 2 else rng.choice(["plain", "plain", "tb", "little"])
    for _ in range(200):
        m = M.with_treble(rng, n, M.treble_path(n, kind, rng), sym)
        if M.moves(m[-1], 0) == 0 and R.leadhead(m, n)[0] == 0: break
    ms = [m]
    for _ in range(300):
        if len(ms) == count: break
        x = vary(rng, rng.choice(ms), n, sym)
        if R.leadhead(x, n)[0] == 0 and x not in ms: ms.append(x)
    return ms

def name_for(rng, used):
    for _ in range(100):
        s = rng.choice([str(rng.randint(1, 40)), "%d%s" % (rng.randint(1, 12), rng.choice("AB")), rng.choice("ABCDKS") + rng.choice("abevw"), rng.choice(["Plain", "Double Court", "St Clement's"]), "Q%d" % rng.randint(1, 999)])
        if s not in used: used.add(s); return s

def lite(rng, m):
    t = R.pns(m, rng.choice("x-"))
    half = m[:len(m) // 2]
    if rng.random() < .5 and len(m) % 2 == 0 and len(m) > 2 and list(m[:-1]) == list(m[:-1])[::-1]:
        t = "&" + R.pns(half, "x") + "," + R.pns(m[-1:], "X")
    return t

def run(ctx):
    ctx.need("splices"); ctx.need("spliceplan")
    ctx.rule = ("families of methods with the same treble path on 3 to 7 bells, derived from each other by changing places (so that splices of many sizes occur), given on standard input, the command line or as rows; every pair's falseness group is worked out from the rows; "
                "for spliceplan, every exact cover of the lead heads and ends by mutually true leads is enumerated. Non-trivial: distinct runs that report a splice or a plan")
    def splice_case(k):
        rng = random.Random("%s/s%d" % (ctx.seed, k)); n = rng.choice([3, 4, 4, 4, 5, 5, 5, 5, 5, 6, 6, 6, 6, 6, 6, 7]) 
        sym = rng.random() < .85
        ms = family(rng, n, rng.choice([2, 3, 4, 5, 7]) if n < 7 else 3, sym=sym)
        if rng.random() < .1:
            o = family(rng, n, 2); ms += [x for x in o if x not in ms]
        used = set(); names = [name_for(rng, used) for _ in ms]
        args = ["-b", str(n)]
        def flag(p, *fs):
            if rng.random() < p: args.append(rng.choice(fs)); return True
            return False
        inc = flag(.2, "-i", "--in-course"); out = not inc and n < 7 and flag(.12, "-o", "--out-of-course"); half = flag(.15, "-h", "--half-lead")
        same_le = flag(.3, "-e", "--same-lead-ends")
        mode = rng.choice(["list", "list", "list", "group", "group", "group", "one", "one", "two", "filter", "filter1", "G", "F", "rows"])
        ncmd = {"one": 1, "filter1": 1, "two": 2, "G": 2, "F": 2}.get(mode, 0)
        if mode in ("G", "F", "two") and same_le: args.remove("-e" if "-e" in args else "--same-lead-ends"); same_le = False
        if mode == "rows" and half: args.remove("-h" if "-h" in args else "--half-lead"); half = False
        null = mode in ("list", "one", "two", "filter1", "rows") and flag(.25, "-n", "--null-splice")
        only = -1
        if not null and mode in ("list", "group", "one", "two", "filter1", "rows") and rng.random() < .35:
            only = rng.choice([1, 1, 2, 3, 6, 12]); args += rng.choice([["-l", str(only)], ["--leads=%d" % only]])
        pnshow = mode in ("list", "group", "one") and flag(.2, "-p", "--place-notation")
        if mode == "group": args.append(rng.choice(["-g", "--group-together"]))
        if mode in ("filter", "filter1"): args.append(rng.choice(["-I", "--filter"]))
        if mode == "G": args.append("-G")
        if mode == "F": args.append(rng.choice(["-F", "--print-falseness"]))
        half_of = lambda rs: rs[:len(rs) // 2] if half else rs
        LE = [lead(m, n) for m in ms]; rows = None; stdin = ""
        text = lambda i: lite(rng, ms[i]) + "\t" + names[i] + "\n"
        idx = list(range(len(ms)))
        if mode == "rows":
            src = rng.randrange(len(ms)); rows = [x for x in LE[src]]
            if rng.random() < .3: rows = rng.sample(rows, rng.randint(1, len(rows)))
            if rng.random() < .2: rows.append(R.rand_row(rng, n))
            rt = "".join(R.rs(x) + "\n" for x in rows)
            if rng.random() < .5:
                ncmd = rng.choice([1, 2]); idx = idx[:ncmd]; args.append("--read-rows"); stdin = rt
            else:
                f = os.path.join(ctx.scratch, "r%d" % k); open(f, "w").write(rt); args.append("--rows-file=" + f)
                stdin = "".join(text(i) for i in idx)
        cmd = idx[:ncmd] if mode != "rows" or ncmd else []
        pos = [lite(rng, ms[i]).replace('-', 'x') for i in cmd]
        args = pos + args if rng.random() < .5 else args + pos
        if mode in ("two", "G", "F"): idx = cmd
        elif mode != "rows":
            if ncmd: idx = rng.choice([idx, [i for i in idx if i not in cmd]])
            rng.shuffle(idx); stdin = "".join(text(i) for i in idx)
        r = ctx.app("splices", args, stdin)
        if r is None: return
        def bad(c): ctx.appbad("splices", args, stdin, r, c)
        if r.rc or r.err: return bad("failed or printed errors")
        ctx.count("runs of splices")
        full = fact(n - 1) // (2 if inc or out else 1)
        def splice(i, j_rows):
            a = half_of(LE[i]); G = group(falseness(a, j_rows, inc, out), out, n)
            ctx.count("pairs worked out")
            if not null and len(G) == full: return None, G
            return describe(G, n), G
        def shown(i, j_rows):
            d, G = splice(i, j_rows)
            return d if d and (only < 0 or len(G) == 2 * only) else None
        pair = lambda i, j: shown(i, half_of(LE[j])) if not (same_le and ms[i][-1] != ms[j][-1]) else None
        byname = {}
        for i in range(len(ms)): byname[names[i]] = i
        for q, i in enumerate(cmd): byname["Method %d" % (q + 1)] = i
        def what(s):
            if s in byname: return byname[s]
            try: c = list(R.pn(n, s))
            except Exception: return None
            for i, m in enumerate(ms):
                if list(m) == c: return i
            return None
        lines = r.out.split("\n")
        if lines.pop() != "": return bad("the last line is not ended")
        if mode in ("G", "F"):
            f = falseness(half_of(LE[cmd[0]]), half_of(LE[cmd[1]]), inc, out); g = falseness(half_of(LE[cmd[1]]), half_of(LE[cmd[0]]), inc, out)
            want = [f, g] if mode == "F" else [group(f, out, n), group(g, out, n)]
            if mode == "G" and not f: want = [set()]; lines = [l for l in lines if l]   # no falseness: the trivial group
            try: got = [R.pr(l) for l in lines]
            except Exception: return bad("a line is not a row")
            if len(set(got)) != len(got) or set(got) not in want: return bad("%d rows printed, should be %d" % (len(got), len(want[0])))
            return ctx.ok_case(" ".join(args) if len(got) > 1 else None)
        if mode in ("list", "two", "one", "rows"):
            want = Counter()
            if mode == "rows":
                for i in idx:
                    d = shown(i, rows)
                    if d: want[(frozenset([i]), d)] += 1
            elif mode == "one":
                for i in idx:
                    if i != cmd[0]:
                        d = pair(i, cmd[0])
                        if d: want[(frozenset([i]), d)] += 1
            else:
                for x in range(len(idx)):
                    for y in range(x):
                        d = pair(idx[x], idx[y])
                        if d: want[(frozenset([idx[x], idx[y]]), d)] += 1
            got = Counter()
            for l in lines:
                q = l.split("\t")
                if len(q) != 2: return bad("line %r" % l)
                if pnshow and any(y in names for y in q[0].split(" / ")): return bad("a name is printed instead of place notation")
                w = [what(y) for y in q[0].split(" / ") if y]
                if None in w: return bad("%r is not one of the methods" % q[0])
                got[(frozenset(w), q[1])] += 1
            if got != want:
                return bad("missing: %r; wrong: %r" % ([(sorted(names[i] for i in a), d) for a, d in want - got][:4], [(sorted(names[i] for i in a), d) for a, d in got - want][:4]))
            ctx.count("splices expected", sum(want.values()))
            return ctx.ok_case(" ".join(args) + stdin if want else None)
        if mode in ("filter", "filter1"):
            keep = []
            for x, i in enumerate(idx):
                if mode == "filter1":
                    if i != cmd[0] and pair(i, cmd[0]): keep.append(i)
                else:
                    # the methods kept so far need not include the earlier one: any earlier method counts
                    if not any(pair(i, idx[y]) == "1-lead" for y in range(x)): keep.append(i)
            got = []
            for l in lines:
                q = l.split("\t")
                if len(q) != 2 or q[1] not in names: return bad("%r is not a method" % l)
                i = names.index(q[1])
                if what(q[0]) != i: return bad("%r is not the place notation of %s" % (q[0], q[1]))
                got.append(i)
            if got != keep: return bad("should have kept %r" % [names[i] for i in keep])
            ctx.count("methods kept", len(keep)); ctx.count("methods filtered", len(idx))
            return ctx.ok_case(" ".join(args) + stdin if keep else None)
        # grouped together
        comp = {}
        for x in range(len(idx)):
            for y in range(x):
                d, G = splice(idx[x], half_of(LE[idx[y]]))
                if d and (only < 0 or len(G) in (2 * only, 2)): comp.setdefault(d, []).append({idx[x], idx[y]})
        for d in comp:
            sets = []
            for s in comp[d]:
                hit = [t for t in sets if t & s]; sets = [t for t in sets if not t & s]
                for t in hit: s = s | t
                sets.append(s)
            comp[d] = sets
        def bracket(i):
            for s in comp.get("1-lead", []):
                if i in s:
                    b = frozenset(j for j in s if ms[j][-1] == ms[i][-1])
                    return b if len(b) > 1 else frozenset([i])
            return frozenset([i])
        want = Counter()
        for d in comp:
            if only > 1 and d == "1-lead": continue
            for s in comp[d]:
                if same_le:
                    if len({tuple(ms[i][:-1]) for i in s}) == 1: continue
                    parts = [[i for i in s if ms[i][-1] == c] for c in {ms[i][-1] for i in s}]
                else: parts = [sorted(s)]
                want[(frozenset(frozenset((bracket(i)) for i in p) for p in parts), d)] += 1
        got = Counter()
        for l in lines:
            q = l.split("\t")
            if len(q) != 2: return bad("line %r" % l)
            parts = set()
            for p in q[0].split(" / "):
                p = re.sub(r"\[([^]]*)\]", lambda z: z[1].replace(", ", "\0"), p)
                w = [frozenset(what(z) for z in y.split("\0")) for y in p.split(", ")]
                if any(None in y for y in w) or len(set(w)) != len(w): return bad("line %r" % l)
                parts.add(frozenset(w))
            got[(frozenset(parts), q[1])] += 1
        if got != want: return bad("missing: %r; wrong: %r" % tuple([([[sorted(names[i] for i in b) for b in p] for p in a], d) for a, d in x][:4] for x in (want - got, got - want)))
        ctx.count("groups expected", sum(want.values()))
        ctx.ok_case(" ".join(args) + stdin if want else None)
    ctx.map(splice_case, range(ctx.n(2500, 20000)))

    def plan_case(k):
        rng = random.Random("%s/p%d" % (ctx.seed, k))
        n = rng.choice([3, 4, 4, 5, 5, 5, 5, 6]); inc = rng.random() < .5 or n == 6
        table = [x for x in R.perms(n) if x[0] == 0 and not (inc and R.sign(x) < 0)]
        tab = set(table)
        ms = []
        for _ in range(40):
            fam = family(rng, n, rng.choice([1, 2, 3, 4]), plain=n % 2 == 1 or rng.random() < .5)
            if fam and all(R.ap(R.rounds(n), m[-1]) for m in fam): ms = fam
            if ms and all(R.div(R.leadhead(m, n), R.rounds(n)) for m in ms): break
        les = [lead(m, n)[-1] for m in ms]
        wrong = [i for i in range(len(ms)) if les[i] not in tab]
        if wrong and rng.random() < .93:
            ms = [m for i, m in enumerate(ms) if i not in wrong]; les = [lead(m, n)[-1] for m in ms]; wrong = []
        if not ms: return
        gens = []; args = ["-b", str(n)]
        if inc: args.append(rng.choice(["-i", "--in-course"]))
        rot = rng.random() < .35
        if rot: args.append(rng.choice(["-r", "--ignore-rotations"]))
        elif rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                g = rng.choice(table) if rng.random() < .95 else R.rand_row(rng, n)
                gens.append(g); args += rng.choice([["-P", R.rs(g)], ["--part-end=" + R.rs(g)]])
        P = R.closure(gens, n) if gens else {R.rounds(n)}
        refuse = bool(wrong) or any(p not in tab for p in P)
        used = set(); names = [name_for(rng, used) for _ in ms]
        # all plans: orbits of leads that exactly cover the table
        plans = []; cap = 800
        if not refuse:
            rows = [lead(m, n) for m in ms]; cand = []; seen = set()
            for i, m in enumerate(ms):
                if len(set(rows[i])) != len(rows[i]): continue
                for h in table:
                    heads = frozenset(R.mul(p, x) for p in P for x in (h, R.mul(h, les[i])))
                    if (i, heads) in seen: continue
                    seen.add((i, heads))
                    leads = {frozenset((R.mul(p, h), R.mul(p, R.mul(h, les[i])))) for p in P}
                    if sum(len(l) for l in leads) != len(heads): continue
                    allr = [R.mul(min(l), x) for l in leads for x in rows[i]]
                    if len(set(allr)) != len(allr): continue
                    cand.append((i, heads, frozenset(allr)))
            byhead = {h: [c for c in cand if h in c[1]] for h in table}
            work = [0]
            def rec(left, chosen, rs):
                work[0] += 1
                if len(plans) > cap or work[0] > 5000: return
                if not left:
                    plans.append(frozenset((h, c[0]) for c in chosen for h in c[1])); return
                best = None
                for h in left:
                    o = [c for c in byhead[h] if c[1] <= left and not (c[2] & rs)]
                    if best is None or len(o) < len(best): best = o
                    if not o: return
                for c in best: rec(left - c[1], chosen + [c], rs | c[2])
            rec(frozenset(table), [], frozenset())
            if len(plans) > cap or work[0] > 5000: ctx.count("too many plans"); return
        orbit = {}
        if rot:
            seen = {}
            for p in plans:
                if p in seen: continue
                o = {frozenset((R.mul(t, h), i) for h, i in p) for t in table}
                for x in o: seen[x] = len(o)
                orbit[p] = o
        quiet = rng.random() < .15
        if quiet: args.append(rng.choice(["-q", "--quiet"]))
        outdir = None
        if rng.random() < .4 and len(plans) < 400:
            outdir = os.path.join(ctx.scratch, "o%d" % k); os.makedirs(outdir)
            args += rng.choice([["-O", outdir], ["--output-plans=" + outdir], ["-O", outdir + "/p%x"]])
        if rng.random() < .1: args.append("-v")
        if rng.random() < .05: args.append("-vvv")
        stdin = "".join(lite(rng, m) + "\t" + nm + "\n" for m, nm in zip(ms, names))
        r = ctx.app("spliceplan", args, stdin, timeout=120)
        if r is None: return
        def bad(c): ctx.appbad("spliceplan", args, stdin, r, c)
        ctx.count("runs of spliceplan"); ctx.count("multi-part plans", len(P) > 1); ctx.count("plans without rotations", rot)
        if refuse:
            ctx.count("runs that must be refused")
            if r.rc != 1 or r.out: return bad("should have failed")
            return ctx.ok_case(None)
        if r.rc: return bad("failed")
        lines = r.out.split("\n")
        if lines.pop() != "": return bad("the last line is not ended")
        tell = list(orbit) if rot else plans
        def line(p):
            c = Counter(i for _, i in p)
            return (frozenset((names[i], q) for i, q in c.items()), len(orbit[p]) if rot else None)
        want = Counter(line(p) for p in tell); got = Counter()
        for l in lines:
            rc = None
            q = re.match(r"(.*) \[(\d+) rotations\]$", l)
            if q: l, rc = q[1], int(q[2])
            s = set()
            for x in l.split(", "):
                q = re.match(r"(.*) \((\d+)\)$", x)
                if not q: return bad("line %r" % l)
                s.add((q[1], int(q[2])))
            got[(frozenset(s), rc)] += 1
        if quiet: want = Counter()
        if got != want: return bad("%d plans printed, there are %d; missing %r; wrong %r" % (sum(got.values()), sum(want.values()), list(want - got)[:3], list(got - want)[:3]))
        ctx.count("plans expected", len(tell))
        if outdir:
            files = os.listdir(outdir)
            if "-O" in args and args[args.index("-O") + 1].endswith("%x"): exp = {"p%dx" % (i + 1) for i in range(len(tell))}
            else: exp = {"%d.plan" % (i + 1) for i in range(len(tell))}
            if set(files) != exp: return bad("%d plan files, should be %d" % (len(files), len(exp)))
            done = set()
            for f in files:
                p = set()
                for l in open(os.path.join(outdir, f)).read().splitlines():
                    q = l.split("\t")
                    if len(q) != 3 or q[2] not in names: return bad("plan file %s has the line %r" % (f, l))
                    i = names.index(q[2])
                    if list(R.pn(n, q[1])) != list(ms[i]): return bad("plan file %s: %r is not %s" % (f, q[1], q[2]))
                    p.add((R.pr(q[0]), i))
                p = frozenset(p)
                if rot:
                    hit = [x for x in tell if p in orbit[x]]
                    if not hit: return bad("plan file %s is not a plan" % f)
                    p = hit[0]
                elif p not in plans: return bad("plan file %s is not a true plan" % f)
                if p in done: return bad("a plan was found twice")
                done.add(p)
            ctx.count("plan files read", len(files))
        ctx.ok_case(" ".join(a for a in args if not a.startswith("/")) + stdin if tell else None)
    ctx.map(plan_case, range(ctx.n(1200, 10000)))
    # lead splices on many bells
    for n in (8, 12, 15, 16, 17, 20, 24, 33):
        a = "&x1,2" if n % 2 == 0 else "&%s.1,12%s" % (R.ch(n - 1), R.ch(n - 1)); b = "x1x1" if n % 2 == 0 else "%s.1.%s.1" % (R.ch(n - 1), R.ch(n - 1))
        for args in (["-b", str(n), a, b], ["-b", str(n), "-n", a, b], ["-b", str(n), "-i", a, b], ["-b", str(n), "-o", a, b]):
            r = ctx.app("splices", args, "")
            if r is None: continue
            ma, mb = R.pn(n, a), R.pn(n, b)
            G = group(falseness(lead(ma, n), lead(mb, n), "-i" in args, "-o" in args), "-o" in args, n)
            if r.rc or r.out not in tuple("Method %d / Method %d\t%d-lead\n" % (x, 3 - x, len(G) // 2) for x in (1, 2)): ctx.appbad("splices", args, "", r, "should be a %d-lead splice" % (len(G) // 2))
            else: ctx.ok_case(" ".join(args))
    for app, argv in [("splices", x) for x in ([], ["-b", "0"], ["-b", "600"], ["-b", "6", "-i", "-o"], ["-b", "6", "Q"], ["-b", "6", "-n", "-l", "1"], ["-b", "6", "-g", "-n"], ["-b", "6", "-g", "-F", "x1", "x2"], ["-b", "6", "-I", "-g"], ["-b", "6", "-I", "-p"], ["-b", "6", "-I", "-n"],
                      ["-b", "6", "-I", "x1", "x2"], ["-b", "6", "-G"], ["-b", "6", "-F", "x1"], ["-b", "6", "x1", "x2", "x3"], ["-b", "6", "--nonesuch"], ["-b", "x"], ["-b", "6", "--read-rows", "-I"], ["-b", "6", "--rows-file=/nonexistent/rows", "x1", "x2"])] + \
                     [("spliceplan", x) for x in ([], ["-b", "0"], ["-b", "600"], ["-b", "4", "-P", "11"], ["-b", "4", "-P", "2134"], ["-b", "4", "-P", "12345"], ["-b", "4", "-i", "-P", "1243"], ["-b", "4", "-r", "-P", "1342"], ["-b", "4", "--nonesuch"])]:
        r = ctx.app(app, argv, "&x1x1,2\tPB\n")
        if r is None: continue
        ctx.count("bad requests")
        if r.rc != 1 or r.out: ctx.appbad(app, argv, "", r, "the status should be a failure and nothing printed")
        else: ctx.ok_case("bad" + app + " ".join(argv))
    ctx.minimum = {"runs of splices": 700, "pairs worked out": 2000, "splices expected": 200, "groups expected": 100, "methods kept": 40, "runs of spliceplan": 300, "plans expected": 2000, "multi-part plans": 60, "plans without rotations": 80, "plan files read": 200}
