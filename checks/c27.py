"""C27: touchsearch prints exactly the touches that exist."""
import random, re
from collections import Counter
from vt import ring as R, meth as M
from checks.c13 import enumerate_touches, rotations, Big, IGN, MUT, NONRND

def length_arg(rng, lo, hi):
    if hi is None: return "%d-" % lo
    if lo == hi and rng.random() < .7: return str(lo)
    return ("%d-%d" % (lo, hi)) if lo or rng.random() < .5 else "-%d" % hi

def plan_touches(n, plan, ends, lo, hi, budget):
    """sequences of calls whose leads are all in the plan, true row by row, coming round for the first time at the end"""
    out = []; used = set(); count = [0]
    def rec(lh, seq, length):
        count[0] += 1
        if count[0] > budget: raise Big
        if length and lh == R.rounds(n) and lo <= length <= hi: out.append(tuple(seq))
        m = plan.get(lh)
        if m is None or length + len(m) > hi: return
        rows = R.ring_rows(m[:-1], lh); S = set(rows)
        if len(S) < len(rows) or S & used: return
        used.update(S)
        for k, e in enumerate(ends):
            seq.append(k); rec(R.ap(rows[-1], e), seq, length + len(m)); seq.pop()
        used.difference_update(S)
    rec(R.rounds(n), [], 0)
    return out

def run(ctx):
    ctx.need("touchsearch")
    ctx.rule = ("random methods, calls with and without names, part ends, length ranges and every option on 4 to 8 bells, a single method, a method library through --filter, and plans on standard input; "
                "every printed line is read back as calls and compared with an exhaustive search that proves each lead row by row. Non-trivial: distinct runs that find a touch")
    def method(rng, n):
        k = rng.random()
        while True:
            if k < .65: m = M.regular_method(rng, n)
            elif k < .9: m = M.random_method(rng, n, 10)
            else: m = [R.rand_change(rng, n, .9) for _ in range(rng.randint(1, 6))]
            if m and len(m) <= 40: return m
    def some_calls(rng, n, m, treble, cnt):
        calls = []
        for _ in range(cnt):
            for _ in range(20):
                c = R.rand_change(rng, n, rng.choice([.5, .9]))
                if treble and rng.random() < .9 and 0 not in R.places(c): continue
                if c != m[-1] and c not in calls: calls.append(c); break
        names = rng.sample(["b", "s", "x", "B", "Q", "bob", "14", "z1"], len(calls)); opts = []
        used = []
        for c, nm in zip(calls, names):
            t = R.cs(c, rng.choice("-Xx"))
            if rng.random() < .25 or t.startswith("-"):
                if t.startswith("-"): t = "X"
                if rng.random() < .4: nm = t; v = t
                else: v = nm + "=" + t
            else: v = nm + "=" + t
            used.append(nm); opts += rng.choice([["-C", v], ["--call=" + v], ["-C" + v]])
        return calls, used, opts
    def pn_text(rng, m):
        s = R.pns(m, rng.choice("Xx-"))
        return s
    def search_args(rng, n, m, opts):
        pass
    def parse_body(body, names, plain, comma):
        """the possible readings of a printed touch as call indices (0 is plain)"""
        toks = [(plain, 0)] + [(x, i + 1) for i, x in enumerate(names)]
        if comma:
            d = dict(toks); p = body.split(",")
            return [tuple(d[x] for x in p)] if all(x in d for x in p) else []
        # names may be prefixes of one another: keep every reading
        reads = {0: [()]}
        for i in range(len(body)):
            for pre in reads.get(i, [])[:64]:
                for t, k in toks:
                    if body.startswith(t, i): reads.setdefault(i + len(t), []).append(pre + (k,))
        return reads.get(len(body), [])
    def judge(bad, lines, exp, m_len, end, n, names, plain, comma, rot, limit, prefix=""):
        """exp maps a call sequence to its number of parts; end maps it to its last row"""
        got = []
        total = len({min(rotations(s)) for s in exp}) if rot else len(exp)
        for l in lines:
            if not l.startswith(prefix): return bad("line %r does not start with the method" % l)
            b = l[len(prefix):]
            if comma: reads = parse_body(b, names, plain, True); num = None; ln = None
            else:
                q = re.fullmatch(r"(.*?)( x(\d+))?  \((\d+) changes\)", b)
                if not q: return bad("line %r is not a touch" % l)
                reads = parse_body(q[1], names, plain, False); num = int(q[3] or 1); ln = int(q[4])
            ok = []
            for s in reads:
                if comma:
                    # written out in full: find the part that it repeats
                    for e in (x for x in exp if len(x) and len(s) % len(x) == 0 and x * (len(s) // len(x)) == s):
                        if R.order(end(e)) == len(s) // len(e): ok.append(e)
                elif s in exp:
                    k = R.order(end(s))
                    if num == k and ln == k * m_len(s): ok.append(s)
            if not ok:
                return bad("line %r %s" % (l, "has the wrong number of parts or length" if any(s in exp for s in reads) else "is not one of the touches that exist"))
            got.append(ok)
        c = Counter(tuple(g) for g in got)
        if len(c) != len(got) and all(len(g) == 1 for g in got): return bad("printed twice: %s" % [k for k, v in c.items() if v > 1][:2])
        if rot and all(len(g) == 1 for g in got):
            cl = Counter(min(rotations(g[0])) for g in got)
            if len(cl) != len(got): return bad("two rotations of a touch are printed: %s" % [k for k, v in cl.items() if v > 1][:2])
        want = min(total, limit) if limit else total
        if len(got) != want:
            miss = [s for s in exp if not any(s in g for g in got)]
            return bad("%d touches printed, should be %d; for instance %s" % (len(got), want, [([plain] + names)[k] for k in miss[0]] if miss else ""))
        return True
    def tail_count(bad, lines, cmode, quiet, want, what):
        """removes the count at the end of the output; returns the rest or None"""
        if cmode:
            t = str(want) if cmode == "raw" else "Found %d %s" % (want, what)
            if not lines or lines[-1] != t: bad("the last line should be %r" % t); return None
            lines = lines[:-1]
            if not quiet:
                if not lines or lines[-1] != "": bad("no blank line before the count"); return None
                lines = lines[:-1]
        return lines
    def one(k):
        rng = random.Random("%s/%d" % (ctx.seed, k))
        for _ in range(60):
            mode = rng.choice(["one", "one", "one", "filter", "plan"])
            n = rng.choice([4, 4, 5, 5, 5, 6, 6, 6, 7, 8])
            if mode != "plan": 
                if one_search(rng, n, mode): return
            elif one_plan(rng, n): return
    def one_search(rng, n, mode):
        ms = [method(rng, n) for _ in range(1 if mode == "one" else rng.choice([0, 1, 2, 4]))]
        m0 = ms[0] if ms else method(rng, n)
        treble = R.leadhead(m0, n)[0] == 0 and 0 in R.places(m0[-1])
        calls, names, opts = some_calls(rng, n, m0, treble, rng.choice([1, 1, 1, 2, 2, 3]))
        if not calls:
            if n < 4 or rng.random() < .7: return
            calls = [R.pc(n, "14")]; names = ["b"]; opts = []
        if any(c == m[-1] for c in calls for m in ms): return
        tfix = all(0 in R.places(c) for c in calls) and all(R.leadhead(m, n)[0] == 0 and 0 in R.places(m[-1]) for m in ms)
        if not tfix and n > 6: return
        P = {R.rounds(n)}
        if rng.random() < .35:
            g = (0,) + tuple(x + 1 for x in R.rand_row(rng, n - 1)) if rng.random() < .9 else R.rand_row(rng, n)
            if rng.random() < .5: g = R.power(R.leadhead(m0, n), rng.randint(0, n))
            P = R.closure([g], n)
            if len(P) > 12 or n > 6 and any(x[0] for x in P): return
            for h in [g] + ([R.power(g, 2)] if rng.random() < .1 else []): opts += rng.choice([["-P", R.rs(h)], ["--part-end=" + R.rs(h)]])
        flags = 0
        if rng.random() < .4: flags |= IGN; opts.append(rng.choice(["-r", "--ignore-rotations"]))
        if rng.random() < .3: flags |= MUT; opts.append(rng.choice(["-m", "--mutually-true-parts"]))
        if rng.random() < .1:
            flags = flags | NONRND; opts.append(rng.choice(["-R", "--allow-non-round-blocks"]))
            if len(P) > 1 and not flags & MUT: return
        lo, hi = 0, None
        unit = len(m0) * len(P)
        if rng.random() < .75 or n > 5:
            a = rng.randint(0, 4); b = a + rng.choice([0, 0, 1, 2, 3, 5, 8])
            lo = max(0, a * unit - rng.choice([0, 0, 1, unit - 1])); hi = b * unit + rng.choice([0, 0, unit - 1])
            if rng.random() < .1: hi = None
            t = length_arg(rng, lo, hi)
            if lo == hi and "-" not in t: pass
            if t.startswith("-"): opts.append("--length=" + t)
            else: opts += rng.choice([["-l", t], ["--length=" + t]])
        exps = []
        for m in ms:
            u = len(m) * len(P)
            try: all_ = enumerate_touches(m, calls, P, flags, -(-lo // u), 10 ** 6 if hi is None else hi // u, ctx.n(1200, 5000))
            except (Big, RecursionError): return
            if sum(len(s) for s in all_) * len(m) > 40000: return
            exps.append(all_)
        if not any(exps) and rng.random() < .8: return
        comma = rng.random() < .25; quiet = rng.random() < .12; cmode = rng.choice(["", "", "", "count", "raw"]); plain = "p" if comma else "."
        if comma: opts.append(rng.choice(["-g", "--comma-separate"]))
        if quiet: opts.append(rng.choice(["-q", "--quiet"]))
        if cmode: opts += {"count": [rng.choice(["-c", "--count"])], "raw": ["--raw-count"]}[cmode]
        if rng.random() < .25:
            plain = rng.choice(["pl", "_", "0", "L"]); opts += rng.choice([["-p", plain], ["--plain-name=" + plain]])
        if len(set([plain] + names)) != len(names) + 1: return
        limit = 0
        if mode == "one" and rng.random() < .25: limit = rng.choice([1, 1, 2, 5]); opts.append("--limit=%d" % limit)
        rng2 = random.Random(rng.random()); 
        stdin = ""; lines_in = []
        rot = bool(flags & IGN) and len(P) == 1 and not flags & NONRND
        if mode == "filter":
            opts.append("--filter")
            for m in ms:
                p = pn_text(rng, m); pay = rng.choice(["", "Some Name", "x\ty", "A#1"]); lines_in.append((m, p, pay))
                stdin += p + ("\t" if pay or rng.random() < .3 else "") + pay + "\n" 
            argv = ["-b", str(n)] + opts
        else:
            argv = ["-b", str(n)] + opts; p = pn_text(rng, m0)
            if p.startswith("-"): p = p.replace("-", "x")
            argv.insert(rng.choice([0, len(argv)]), p)
        r = ctx.app("touchsearch", argv, stdin)
        if r is None: return True
        def bad(c): ctx.appbad("touchsearch", argv, stdin, r, c); return None
        if r.rc: bad("the status should be success"); return True
        warn = "No calls specified" in r.err
        if warn != (not any(o.startswith(("-C", "--call")) for o in opts)): bad("the default call is not reported, or is reported wrongly"); return True
        lines = r.out.split("\n")
        if lines.pop() != "": bad("the last line is not ended"); return True
        n_of = lambda e: len({min(rotations(s)) for s in e}) if rot else len(e)
        ctx.count("runs"); ctx.count("multi-part runs", len(P) > 1); ctx.count("comma-separated runs", comma); ctx.count("runs ignoring rotations", bool(rot)); ctx.count("runs with a limit", bool(limit)); ctx.count("runs with no fixed treble", not tfix)
        if mode == "one":
            e = exps[0]; t = n_of(e); t = min(t, limit) if limit else t
            ctx.count("touches expected", t); ctx.count("runs with a count", bool(cmode) )
            # the count is not printed in quiet mode
            lines = tail_count(bad, lines, cmode if not quiet else "", quiet, t, "touches") if not quiet else quiet_lines(bad, lines, cmode, t, "touches")
            if lines is None: return True
            if quiet:
                if lines: bad("something is printed by a quiet run")
                elif e: ctx.ok_case(" ".join(argv))
                return True
            base = R.ring_rows(m0[:-1], R.rounds(n)); ends = [m0[-1]] + calls; lhs = [R.ap(base[-1], c) for c in ends]
            def end(s):
                x = R.rounds(n)
                for k2 in s: x = R.mul(x, lhs[k2])
                return x
            if judge(bad, lines, {s: 1 for s in e}, lambda s: len(s) * len(m0), end, n, names, plain, comma, rot, limit): ctx.ok_case(" ".join(argv) if e else None)
        else:
            found = [(x, e, m) for x, e, m in zip(lines_in, exps, ms) if e]
            ctx.count("methods filtered", len(ms)); ctx.count("methods kept", len(found))
            lines = tail_count(bad, lines, cmode, quiet, len(found), "methods") if not quiet else quiet_lines(bad, lines, cmode, len(found), "methods")
            if lines is None: return True
            if quiet:
                if lines: bad("something is printed by a quiet run")
                return True
            if len(lines) != len(found): bad("%d methods kept, should be %d" % (len(lines), len(found))); return True
            for l, ((m, p, pay), e, m) in zip(lines, found):
                base = R.ring_rows(m[:-1], R.rounds(n)); lhs = [R.ap(base[-1], c) for c in [m[-1]] + calls]
                def end(s):
                    x = R.rounds(n)
                    for k2 in s: x = R.mul(x, lhs[k2])
                    return x
                if not judge(bad, [l], {s: 1 for s in e}, lambda s: len(s) * len(m), end, n, names, plain, comma, False, 1, p + "\t" + pay + "\t"): return True
            ctx.ok_case(" ".join(argv) + stdin if found else None)
        return True
    def quiet_lines(bad, lines, cmode, t, what):
        if cmode:
            w = str(t) if cmode == "raw" else "Found %d %s" % (t, what)
            if lines != [w]: bad("the output should be %r" % w); return None
            return []
        return lines
    def one_plan(rng, n):
        ms = [method(rng, n) for _ in range(rng.choice([1, 1, 2, 3]))]
        base = [R.ring_rows(m[:-1], R.rounds(n)) for m in ms]
        calls = []
        for m in ms:
            if m[-1] not in calls and rng.random() < .9: calls.append(m[-1])
        for _ in range(rng.choice([0, 1, 1, 2])):
            c = R.rand_change(rng, n, .8)
            if rng.random() < .85 and 0 not in R.places(c): continue
            if c not in calls: calls.append(c)
        if not calls: return
        rng.shuffle(calls)
        names = rng.sample(["b", "s", "x", "p", "Q", "z"], len(calls))
        plan = {}; rows = {}; todo = [R.rounds(n)]; want = rng.choice([3, 6, 12, 30]); ordered = []
        tries = 0
        while todo and len(plan) < want and tries < 200:
            tries += 1
            lh = todo.pop(rng.randrange(len(todo)))
            if lh in plan: continue
            i = rng.randrange(len(ms)); R_ = [R.mul(lh, b) for b in base[i]]; S = frozenset(R_)
            if len(S) < len(R_): continue
            hit = {id(v[1]): v for v in (rows[x] for x in S if x in rows)}
            # either all new, or exactly a lead already had rung backwards, which the program recognises by its end
            if hit:
                v = list(hit.values())
                if len(v) > 1 or v[0][1] != S or v[0][2] != (R_[-1], R_[0]): continue
            plan[lh] = ms[i]
            for x in S: rows.setdefault(x, (lh, S, (R_[0], R_[-1])))
            for c in calls:
                nx = R.ap(R_[-1], c)
                if nx not in plan: todo.append(nx)
        # two leads that share a head or an end, but not all their rows, would be pruned by the program although they cannot occur here: the rows are shared
        if rng.random() < .2:
            for _ in range(2):
                x = R.rand_row(rng, n)
                if x not in plan:
                    i = rng.randrange(len(ms)); S = {R.mul(x, b) for b in base[i]}
                    if len(S) == len(base[i]) and not any(y in rows for y in S):
                        plan[x] = ms[i]
                        for y in S: rows[y] = (x, frozenset(S), None)
        lo, hi = 0, 10 ** 9; opts = []
        total = sum(len(m) for m in plan.values())
        if rng.random() < .6:
            lo = rng.randint(0, total); hi = rng.choice([lo, lo + rng.randint(0, 60), total])
            if hi < lo: hi = lo
            t = length_arg(rng, lo, hi); opts.append("--length=" + t)
        try: exp = plan_touches(n, plan, calls, lo, hi, 4000)
        except (Big, RecursionError): return
        if not exp and rng.random() < .85: return
        for c, nm in zip(calls, names): opts += ["-C", nm + "=" + R.cs(c)]
        comma = rng.random() < .25; cmode = rng.choice(["", "", "count", "raw"]); limit = 0
        if comma: opts.append("-g")
        if cmode: opts += {"count": ["-c"], "raw": ["--raw-count"]}[cmode]
        if rng.random() < .2: limit = rng.choice([1, 2, 5]); opts.append("--limit=%d" % limit)
        items = list(plan.items()); rng.shuffle(items)
        stdin = "".join("%s%s%s%s\n" % (R.rs(x), rng.choice([" ", "\t", "  "]), R.pns(m), rng.choice(["", " Name", "\tName x"])) for x, m in items)
        argv = ["-b", str(n), "-a"] + opts
        r = ctx.app("touchsearch", argv, stdin)
        if r is None: return True
        def bad(c): ctx.appbad("touchsearch", argv, stdin, r, c); return None
        if r.rc: bad("the status should be success"); return True
        lines = r.out.split("\n")
        if lines.pop() != "": bad("the last line is not ended"); return True
        ctx.count("plans"); ctx.count("plans with several methods", len(ms) > 1); ctx.count("plans that find something", bool(exp)); ctx.count("touches expected of plans", len(exp))
        lines = tail_count(bad, lines, cmode, False, min(limit, len(exp)) if limit else len(exp), "touches")
        if lines is None: return True
        def rep(s):
            x = R.rounds(n); ln = 0
            for k2 in s:
                m = plan[x]; ln += len(m); x = R.ap(R.ring_rows(m[:-1], x)[-1], calls[k2 - 1])
            return x, ln
        E = {tuple(k2 + 1 for k2 in s): 1 for s in exp}
        if judge(bad, lines, E, lambda s: rep(s)[1], lambda s: rep(s)[0], n, names, "\0", comma, False, limit): ctx.ok_case(" ".join(argv) + stdin if exp else None)
        return True
    ctx.map(one, range(ctx.n(900, 8000)))
    for argv, sin in ((["-b", "5"], ""), (["&5.1.5.1.5,2"], ""), (["-b", "3", "3.1.3.1.3.1"], ""), (["-b", "34", "X.12"], ""), (["-b", "5", "5.Q.5"], ""), (["-b", "5", "&5.1.5.1.5,2", "-C", "b=Q"], ""), (["-b", "5", "&5.1.5.1.5,2", "-C", "b=14.5"], ""),
                      (["-b", "5", "&5.1.5.1.5,2", "-l", "80-40"], ""), (["-b", "5", "&5.1.5.1.5,2", "-l", "x"], ""), (["-b", "5", "&5.1.5.1.5,2", "-P", "11345"], ""), (["-b", "5", "&5.1.5.1.5,2", "-a"], ""), (["-b", "5", "&5.1.5.1.5,2", "--nonesuch"], ""), (["-b", "x", "&5.1.5.1.5,2"], "")):
        r = ctx.app("touchsearch", argv, sin)
        if r is None: continue
        ctx.count("bad requests")
        if r.rc != 1 or r.out: ctx.appbad("touchsearch", argv, sin, r, "the status should be a failure and nothing printed")
        else: ctx.ok_case("bad" + " ".join(argv))
    ctx.minimum = {"runs": 400, "touches expected": 500, "multi-part runs": 40, "comma-separated runs": 60, "runs ignoring rotations": 80, "plans": 80, "plans with several methods": 30, "touches expected of plans": 100, "methods kept": 60}
