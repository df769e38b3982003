"""C07: enumerations of the extent visit each row exactly once."""
from math import factorial
from vt import ring as R
CS = lambda c: "%d:%s" % (c[0], ",".join(map(str, c[1])))
J = lambda r: ",".join(map(str, r))

def prow(s): return tuple(map(int, s.split(","))) if s else ()

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("every extent, in-course extent and set of changes with working+hunt+fixed bells small enough to enumerate (all of them up to the "
                "given size), recorded forwards and backwards with every position; single positions on up to 12 working bells at random. "
                "Non-trivial: distinct (working, hunt, total) triples and positions")
    ev = []
    W = 8 if ctx.thorough else 7
    def add(cmd, j): ev.append((cmd, j, "|".join(map(str, cmd))))
    for nw in range(0, W + 1):
        for nh in range(0, 4):
            for extra in range(0, 4):
                nt = nw + nh + extra
                if nw >= 7 and (nh + extra) > (6 if ctx.thorough else 2): continue
                if nw == 8 and extra + nh > 1: continue
                forms = [3] + ([1, 2] if extra == 0 else [2])
                want = set(R.rounds(nh) + tuple(x + nh for x in p) + tuple(range(nh + nw, nt)) for p in R.perms(nw))
                for form in forms:
                    def j(o, nw=nw, nh=nh, nt=nt, want=want):
                        rows = [prow(x) for x in o[2].split(" ")] if nt else [()] * 1
                        if o[0] != "0": return "iteration did not end"
                        if nt == 0: return None if o[1] == "1" else "size of the empty extent"
                        if len(rows) != len(want) or set(rows) != want:
                            return "iteration gave %d rows, %d different, of %d" % (len(rows), len(set(rows)), len(want))
                        if o[1] != str(len(want)): return "size() is %s, not %d" % (o[1], len(want))
                        if o[3] != ",".join(map(str, range(len(rows)))): return "positions of the rows are not their places in the iteration"
                        if o[4] != o[2]: return "n-th rows are not those of the iteration"
                        back = o[5].split(" ")
                        if back != o[2].split(" ")[::-1]: return "backwards iteration differs"
                        if list(o[6:10]) != ["1", "1", "0", "1"]: return "comparison of begin and end: %s" % o[6:10]
                    add(("extent", nw, nh, nt, form), j); ctx.count("extents"); ctx.count("rows enumerated", len(want))
                winc = set(r for r in want if R.sign(r) == 1)
                def ji(o, winc=winc, nt=nt):
                    if o[0] != "0": return "iteration did not end"
                    rows = [prow(x) for x in o[1].split(" ")]
                    if nt == 0: return None
                    if len(rows) != len(winc) or set(rows) != winc: return "in-course iteration gave %d rows, %d different, of %d" % (len(rows), len(set(rows)), len(winc))
                    if o[2] != ",".join(map(str, range(len(rows)))): return "positions in the in-course extent are not the places in the iteration"
                    if o[3] != o[1]: return "n-th in-course rows are not those of the iteration"
                add(("incourse", nw, nh, nt), ji)
    for nw in range(0, 13):
        for nh in range(0, 4):
            for extra in (0, 1, 2, 3):
                nt = nw + nh + extra
                want = ["%d:%s" % (nt, ",".join(str(x + nh) for x in c[1])) for c in R.all_changes(nw)]
                def jc(o, want=want):
                    got = o[1].split(" ")
                    if o[0] != "0": return "iteration did not end"
                    if len(got) != len(want) or set(got) != set(want):
                        return "changes: %d, %d different, of %d; missing %s extra %s" % (len(got), len(set(got)), len(want), sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5])
                add(("changes", nw, nh, nt), jc); ctx.count("change enumerations")
    for _ in range(ctx.n(4000, 60000)):
        nw = rng.randint(1, 12); nh = rng.randint(0, 4); nt = nw + nh + rng.randint(0, 4)
        if rng.random() < .5:
            n = rng.choice([0, 1, factorial(nw) - 1, rng.randrange(factorial(nw)), rng.randrange(factorial(nw))]) % factorial(nw)
            # the n-th in lexicographic order, by the factorial number system
            left = list(range(nh, nh + nw)); k = n; r = list(range(nh))
            for i in range(nw): f = factorial(nw - 1 - i); r.append(left.pop(k // f)); k %= f
            r = tuple(r) + tuple(range(nh + nw, nt))
            sg = str(R.sign(r))
            def jn(o, r=r, n=n, sg=sg):
                if o[0] != J(r): return "row number %d should be %s" % (n, R.rs(r))
                if o[1] != str(n): return "its position is reported as %s" % o[1]
                if o[2] != sg or o[3] != sg: return "sign should be %s" % sg
            add(("nthrow", n, nw, nh, nt), jn)
        else:
            k = rng.random()
            p = list(range(nh, nh + nw)); rng.shuffle(p)
            r = list(range(nh)) + p + list(range(nh + nw, nt))
            if k < .3 and nt > 1: rng.shuffle(r)
            inside = all(r[i] == i for i in list(range(nh)) + list(range(nh + nw, nt)))
            m = len(r)
            if k > .6:  # a row on fewer bells: the rest are in their home places
                while m > 1 and r[m - 1] == m - 1: m -= 1
                m = rng.randint(m, len(r))
            elif k > .55: m += 1; r.append(m - 1); inside = False
            n = 0
            for i in range(nh, nh + nw):
                n = n * (nh + nw - i) + sum(1 for q in range(i + 1, nh + nw) if r[q] < r[i])
            def jp(o, n=n, inside=inside):
                if not inside: return None if o.exc else "row outside the set was given position %s" % o[0]
                return None if o[0] == str(n) else "position should be %d" % n
            add(("position", J(r[:m]), nw, nh, nt), jp); ctx.count("positions")
    for _ in range(ctx.n(60, 600)):
        nw = rng.randint(1, 12); nh = rng.randint(0, 3); nt = nw + nh + rng.randint(0, 3)
        def jr(o, nw=nw, nh=nh, nt=nt):
            rows = [prow(x) for x in o]
            for r in rows:
                if len(r) != nt or r[:nh] != R.rounds(nh) or r[nh + nw:] != tuple(range(nh + nw, nt)) or sorted(r) != list(range(nt)): return "random row %s outside the set" % (r,)
            if nw > 7 and len(set(rows)) < len(rows) // 2: return "random rows hardly vary"
        add(("random_row", nw, nh, nt, 50), jr)
    ctx.events(ev)
    ctx.minimum = {"extents": 50, "positions": 500, "change enumerations": 100}
