"""C08: groups are closed and behave as groups."""
from vt import ring as R
J = lambda r: ",".join(map(str, r))
def prow(s): return tuple(map(int, s.split(","))) if s else ()
def prows(s): return [prow(x) for x in s.split(" ")]

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("groups generated by one to four random rows (cycle types chosen to give small and large groups) on 1 to 8 bells and the named groups for every "
                "working/hunt/total size; for each its members, conjugates, even subgroup, direct products, invariant bells, comparisons and coset labels. "
                "Non-trivial: distinct (operation, generators, argument)")
    ev = []
    def add(cmd, j): ev.append((cmd, j, "|".join(map(str, cmd))))
    def check(o, n, G, what="group"):
        rows = prows(o[2]) if n else [()]
        if o[0] != str(n): return "%s is on %s bells, not %d" % (what, o[0], n)
        if o[1] != str(len(G)): return "%s has %s members, should be %d" % (what, o[1], len(G))
        if n and (len(set(rows)) != len(rows) or set(rows) != G): return "%s: members are not the closure" % what
        inv = [i for i in range(n) if all(g[i] == i for g in G)]
        if o[3] != J(inv): return "%s: invariant bells should be %s" % (what, inv)
    def smallgen(n, limit=5100):
        while True:
            k = rng.choice([1, 1, 2, 2, 2, 3, 4]); gs = []
            for _ in range(k):
                t = rng.random()
                if t < .2: g = R.rand_row(rng, n)
                elif t < .55:    # one or two cycles of small length
                    p = list(range(n)); q = list(range(n)); rng.shuffle(q); i = 0
                    for _ in range(rng.randint(1, 3)):
                        L = rng.choice([2, 2, 3, 4, 5])
                        c = q[i:i + L]; i += L
                        for a, b in zip(c, c[1:] + c[:1]): p[a] = b
                    g = tuple(p)
                elif t < .7: g = R.pblh(n, rng.choice([0, 1])) if n > 2 else R.rounds(n)
                elif t < .8: g = R.rounds(n)[::-1]
                elif t < .9 and gs: g = R.mul(gs[0], gs[-1])
                else: g = R.rounds(n)
                if rng.random() < .15:   # a generator on fewer bells
                    m = len(g)
                    while m > 1 and g[m - 1] == m - 1: m -= 1
                    g = g[:m]
                gs.append(g)
            m = max(map(len, gs))
            G = R.closure(gs, m)
            if len(G) <= limit: return gs, m, G
    def text(gs):
        if len(gs) == 1 and rng.random() < .5: return "one " + J(gs[0])
        if len(gs) == 2 and rng.random() < .6: return "two %s %s" % (J(gs[0]), J(gs[1]))
        return "gens " + " ".join(map(J, gs))
    # named groups
    for nw in range(1, 8):
        for nh in range(0, 3):
            for ex in (0, 1, 2):
                nt = nw + nh + ex
                if nw >= 7 and nh + ex > 1: continue
                arg = "%d %d %d" % (nw, nh, nt) if ex or rng.random() < .5 else "%d %d" % (nw, nh) if nh or rng.random() < .5 else "%d" % nw
                S = set(R.rounds(nh) + tuple(x + nh for x in p) + tuple(range(nh + nw, nt)) for p in R.perms(nw))
                A = set(r for r in S if R.sign(r) == 1)
                cyc = R.rounds(nh) + tuple(range(nh + 1, nh + nw)) + (nh,) + tuple(range(nh + nw, nt))
                pb = R.pblh(nh + nw, nh) + tuple(range(nh + nw, nt))
                rev = R.rounds(nh) + tuple(range(nh + nw - 1, nh - 1, -1)) + tuple(range(nh + nw, nt))
                for nm, G in (("symmetric", S), ("symmetric_group", S), ("alternating", A), ("alternating_group", A),
                              ("cyclic_c", R.closure([cyc], nt)), ("cyclic_r", R.closure([pb], nt)),
                              ("dihedral_c", R.closure([cyc, rev], nt)), ("dihedral_r", R.closure([pb, rev], nt))):
                    add(("group", "%s %s" % (nm, arg)), lambda o, nt=nt, G=G: check(o, nt, G)); ctx.count("named groups")
                    rs = [R.rand_row(rng, nt) for _ in range(3)]
                    add(("group_coset", "%s %s" % (nm, arg)) + tuple(map(J, rs)), jcos(rs, G, nt))
        add(("group", "trivial %d" % nw), lambda o, nw=nw: check(o, nw, {R.rounds(nw)}))
    add(("group", "default"), lambda o: None if list(o[:2]) == ["0", "1"] else "default group")
    for _ in range(ctx.n(700, 8000)):
        n = rng.choice([2, 3, 4, 5, 6, 6, 7, 7, 8, 8]); gs, m, G = smallgen(n); t = text(gs)
        ctx.count("generated groups"); ctx.count("group members", len(G))
        add(("group", t), lambda o, m=m, G=G: check(o, m, G))
        r = R.rand_row(rng, m); ri = R.inv(r)
        add(("group_conj", t, J(r)), lambda o, m=m, H=set(R.mul(R.mul(ri, g), r) for g in G): check(o, m, H, "conjugate"))
        add(("group_even", t), lambda o, m=m, H=set(g for g in G if R.sign(g) == 1): check(o, m, H, "even subgroup"))
        rs = [R.rand_row(rng, m), R.rand_row(rng, m), rng.choice(sorted(G))]
        rs.append(R.mul(rng.choice(sorted(G)), rs[0])); rs.append(R.mul(rs[0], rng.choice(sorted(G))))
        add(("group_coset", t) + tuple(map(J, rs)), jcos(rs, G, m)); ctx.count("coset labels", 2 * len(rs))
        if len(G) <= 130:
            gs2, m2, G2 = smallgen(rng.randint(1, 4), 24)
            if m + m2 <= 10 and len(G) * len(G2) <= 1500:
                P = set(g + tuple(x + m for x in h) for g in G for h in G2)
                add(("group_prod", t, text(gs2)), lambda o, k=m + m2, P=P: check(o, k, P, "direct product")); ctx.count("direct products")
        # equality between differently generated groups
        if rng.random() < .5:
            hs = rng.sample(sorted(G), min(len(G), 3)); H = R.closure(hs, m)
            if rng.random() < .3: hs, mm, H = smallgen(n); 
            else: mm = m
            if max(map(len, hs)) == mm:
                def jc(o, a=G, b=H, m=m, mm=mm):
                    eq = m == mm and a == b
                    if o[0] != "01"[eq] or o[1] != "10"[eq]: return "equality should be %s" % eq
                    if (o[2] == "1") + (o[3] == "1") != (0 if eq else 1): return "order is not total"
                    if (o[4] == "1") != (o[3] == "0") or (o[5] == "1") != (o[2] == "0"): return "<= and >= disagree with < and >"
                    if list(o[6:]) != ["1", "1", "1", "1"]: return "swap or assignment"
                add(("group_cmp", t, "gens " + " ".join(map(J, hs))), jc)
    ctx.events(ev)
    ctx.minimum = {"generated groups": 100, "coset labels": 500, "direct products": 20, "named groups": 100}

def jcos(rs, G, n):
    def j(o):
        for i, r in enumerate(rs):
            rc = min(R.mul(g, r) for g in G); lc = min(R.mul(r, g) for g in G)
            if o[2 * i] != J(rc): return "label of the right coset of %s should be %s" % (R.rs(r), R.rs(rc))
            if o[2 * i + 1] != J(lc): return "label of the left coset of %s should be %s" % (R.rs(r), R.rs(lc))
    return j
