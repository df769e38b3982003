"""C13: touch searches."""
from vt import ring as R, meth as M
J = lambda r: ",".join(map(str, r))
IGN, MUT, CH, NONRND = 1, 2, 4, 8

class Big(Exception): pass

def enumerate_touches(m, calls, P, flags, lo, hi, budget):
    """every touch of whole leads that is true in all its parts; returns a list of call sequences"""
    n = m[0][0]; ends = [m[-1]] + calls
    base = R.ring_rows(m[:-1], R.rounds(n))           # the rows of a lead
    L = len(base); out = []; count = [0]
    selffalse = len(set(base)) < L
    lhs = [R.ap(base[-1], e) for e in ends]
    PL = sorted(P)
    used = set()
    def lead(r): return [R.mul(p, R.mul(r, b)) for p in PL for b in base]
    def rec(r, seq):
        count[0] += 1
        if count[0] > budget: raise Big
        rows = lead(r); S = set(rows)
        can = len(S) == len(rows) and not (S & used)
        if not can:
            if seq and len(seq) >= lo:
                home = r in P
                if home and (len(P) == 1 or flags & MUT or R.order(r) == len(P)): out.append(tuple(seq))
                elif not home and flags & NONRND: out.append(tuple(seq))
            return
        if len(seq) >= hi: return
        used.update(S)
        for k, lh in enumerate(lhs):
            seq.append(k); rec(R.mul(r, lh), seq); seq.pop()
        used.difference_update(S)
    rec(R.rounds(n), [])
    return out

def rotations(s): return {s[i:] + s[:i] for i in range(len(s))}

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("random methods, calls, part-end groups, length ranges and options on 3 to 8 bells; both searchers and all their constructors, run to the end and stopped early, compared "
                "with an exhaustive search that proves each lead row by row in every part; and random nested touches walked change by change. Non-trivial: distinct searches that could find something")
    ev = []
    tries = 0; want_n = ctx.n(700, 7000)
    while ctx.counts.get("searches", 0) < want_n and tries < want_n * 30:
        tries += 1
        n = rng.choice([3, 4, 4, 5, 5, 5, 6, 6, 6, 7, 8])
        k = rng.random()
        if k < .6: m = M.regular_method(rng, n)
        elif k < .9: m = M.random_method(rng, n, 10)
        else: m = [R.rand_change(rng, n, .9) for _ in range(rng.randint(1, 6))]
        if len(m) > 40: continue
        treble = R.leadhead(m, n)[0] == 0 and 0 in R.places(m[-1])
        calls = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            for _ in range(20):
                c = R.rand_change(rng, n, rng.choice([.5, .9]))
                if treble and rng.random() < .9 and 0 not in R.places(c): continue
                if c != m[-1] and c not in calls: calls.append(c); break
        kind = rng.choice(["basic", "table", "table", "table", "old"])
        tfix = treble and all(0 in R.places(c) for c in calls)
        if not tfix and n > 6: continue
        P = {R.rounds(n)}; gens = []
        if kind == "table" and rng.random() < .6:
            g = R.rand_row(rng, n)
            if tfix and not (n <= 5 and rng.random() < .15): g = (0,) + tuple(x + 1 for x in R.rand_row(rng, n - 1))
            if rng.random() < .5: g = R.power(R.leadhead(m, n), rng.randint(0, n))
            gens = [g]
            if rng.random() < .15: gens.append(R.power(g, 2))
            P = R.closure(gens, n)
            if len(P) > 12: continue
        flags = 0
        if rng.random() < .5: flags |= IGN
        if kind == "table":
            if rng.random() < .4: flags |= MUT
            if rng.random() < .15: flags = flags & ~IGN | NONRND | (MUT if len(P) > 1 else 0)
        lo, hi = 0, 10 ** 6; smin = smax = ""
        unit = 1
        if rng.random() < .7 or n > 5:
            lo = rng.randint(0, 4); hi = lo + rng.choice([0, 1, 2, 3, 5, 8])
            if kind == "table" and rng.random() < .5:
                flags |= CH; unit = len(m) * len(P)
                a = max(0, lo * unit - rng.choice([0, 0, 1, unit - 1])); b = hi * unit + rng.choice([0, 0, unit - 1])
                lo = -(-a // unit); hi = b // unit; smin, smax = a, b
            else: smin, smax = lo, hi
            if rng.random() < .1: hi = 10 ** 6; smax = ""
        try: all_ = enumerate_touches(m, calls, P, flags, lo, hi, ctx.n(1500, 6000))
        except Big: continue
        except RecursionError: continue
        # a method false within its own lead, or against a part end: nothing can be true
        if sum(len(s) for s in all_) * len(m) > 60000: continue
        if not all_ and rng.random() < .8: continue
        ends = [m[-1]] + calls
        def txt(s): return ".".join(R.cs(c) for k2 in s for c in m[:-1] + [ends[k2]])
        rot = flags & IGN and len(P) == 1
        lim = rng.choice([0, 0, 0, -1, 1, 3])
        exp = {txt(s): s for s in all_}
        classes = {}
        if rot:
            for s in all_: classes.setdefault(min(rotations(s)), []).append(s)
        total = len(classes) if rot else len(all_)
        def j(o, exp=exp, rot=rot, lim=lim, total=total):
            if o.exc: return "exception %s" % o[1:]
            got = list(o) if list(o) != [''] else []
            runs = [got]
            if lim < 0:
                i = got.index("again"); runs = [got[:i], got[i + 1:]]
                if runs[0] != runs[1]: return "the second run of a search differed from the first"
            for g in runs:
                bad = [x for x in g if x not in exp]
                if bad: return "reported a touch that does not meet the requirements: %s" % bad[0][:300]
                if len(set(g)) != len(g): return "reported twice: %s" % [x for x in g if g.count(x) > 1][0][:300]
                if rot:
                    c = [min(rotations(exp[x])) for x in g]
                    if len(set(c)) != len(c): return "reported two rotations of %s" % ([exp[x] for x, y in zip(g, c) if c.count(y) > 1][:2],)
                if lim > 0: 
                    if len(g) != min(lim, total): return "%d touches reported when stopping after %d of %d" % (len(g), lim, total)
                elif len(g) != total:
                    miss = [s for x, s in exp.items() if x not in set(g)]
                    return "%d touches reported, should be %d; for instance %s" % (len(g), total, miss[:2])
        ev.append((("search", kind, n, R.pns(m), " ".join(R.cs(c) for c in calls), " ".join(map(J, gens)), flags, smin, smax, lim), j,
                   "%s %s %s %s %s %s %s %s" % (kind, m, calls, gens, flags, smin, smax, lim) if all_ else None))
        ctx.count("searches"); ctx.count("touches expected", total); ctx.count("multi-part searches", len(P) > 1)
        ctx.count("searches that find something", bool(all_)); ctx.count("searches ignoring rotations", bool(rot)); ctx.count("searches without a fixed treble", not tfix)
        ctx.count("searches with several calls", len(calls) > 1); ctx.count("non-round searches", bool(flags & NONRND))
    for _ in range(ctx.n(300, 3000)):
        n = rng.randint(2, 8)
        def tree(d):
            if d == 0 or rng.random() < .35:
                c = [R.cs(R.rand_change(rng, n)) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
                return ".".join(c), c
            s = []; w = []
            for _ in range(rng.choice([0, 1, 2, 2, 3])):
                k = rng.choice([0, 1, 1, 1, 2, 3]); a, b = tree(d - 1); s.append("%d:%s" % (k, a)); w += b * k
            return "(" + ";".join(s) + ")", w
        s, w = tree(3)
        def j2(o, w=w):
            if o.exc: return "exception"
            if o[0] != ".".join(w): return "the changes are %s, should be %s" % (o[0], ".".join(w))
            if o[1] != "1": return "an empty touch is not empty"
        ev.append((("touchtree", n, s), j2, s)); ctx.count("nested touches")
    ctx.events(ev, tmo=60)
    ctx.minimum = {"searches": want_n // 2, "searches that find something": 100, "touches expected": 500, "multi-part searches": 50, "nested touches": 100}
