"""C09: multiplication tables agree with multiplying rows."""
from vt import ring as R
J = lambda r: ",".join(map(str, r))
def prow(s): return tuple(map(int, s.split(","))) if s else ()

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("tables over extents, in-course extents, tenors-fixed sets, groups and unions of cosets on 3 to 7 bells, with no part ends, a part end, a part-end group, "
                "or a group at the other end; each driven by a random history of registering multipliers (before and after others), copying, assigning, swapping, looking up and "
                "dumping, with every product of every column compared with the product of rows. Non-trivial: distinct (set, part ends, history)")
    ev = []
    def sets():
        k = rng.random()
        if k < .35:
            nw = rng.randint(2, 5); nh = rng.randint(0, 2); nt = nw + nh + rng.randint(0, 2)
            inc = rng.random() < .4
            S = [R.rounds(nh) + tuple(x + nh for x in p) + tuple(range(nh + nw, nt)) for p in R.perms(nw)]
            if inc: S = [r for r in S if R.sign(r) == 1]
            return "%s %d %d %d" % ("inc" if inc else "ext", nw, nh, nt), nt, S, set(S)
        n = rng.randint(3, 7)
        while True:
            H = R.closure([R.rand_row(rng, n) if rng.random() < .4 else R.power(R.rand_row(rng, n), rng.randint(1, 6)) for _ in range(rng.randint(1, 3))], n)
            if 2 <= len(H) <= 130: break
        G = set(H)
        S = set(H)
        if rng.random() < .4:  # a union of right cosets... x*H: closed under multiplication on the right by H
            for _ in range(rng.randint(1, 3)):
                x = R.rand_row(rng, n); S |= {R.mul(x, h) for h in H}
        S = sorted(S)
        if rng.random() < .6: rng.shuffle(S)
        return " ".join(map(J, S)), n, S, G
    def gens(G, k): return [rng.choice(G) for _ in range(k)]
    for _ in range(ctx.n(1200, 15000)):
        t, n, S, G = sets(); SS = set(S); GL = sorted(G)
        isgroup = SS == G
        P = {R.rounds(n)}; pt = ""
        k = rng.random()
        if k > .4:
            # the part ends must keep the set closed on the left
            cand = GL if isgroup else [g for g in GL if all(R.mul(g, s) in SS for s in S)]
            for _ in range(20):
                gs = gens(cand, rng.choice([1, 1, 2]))
                Q = R.closure(gs, n)
                if all(R.mul(g, s) in SS for g in gs for s in S): P = Q; break
            else: gs = [R.rounds(n)]
            pt = "one " + J(gs[0]) if len(gs) == 1 else "gens " + " ".join(map(J, gs))
        # canonical cosets
        cos = {}
        for s in S:
            if s not in cos:
                c = frozenset(R.mul(p, s) for p in P)
                for x in c: cos[x] = c
        ncos = len(set(cos.values()))
        cmds = []; jobs = []
        cols = 0
        for _ in range(rng.randint(2, 10)):
            q = rng.random()
            if q < .35:
                x = rng.choice(GL); cmds.append("post " + J(x)); jobs.append(("post", x)); cols += 1
            elif q < .5:
                x = rng.choice(GL if rng.random() < .5 else [R.rounds(n)] + sorted(P))
                if rng.random() < .3: x = rng.choice(S)
                comm = all(R.mul(x, p) == R.mul(p, x) for p in P)
                if not all(R.mul(x, s) in SS for s in S): continue
                cmds.append("pre " + J(x)); jobs.append(("pre", x, comm)); cols += comm
            elif q < .6:
                cc = [c for c in [R.rand_change(rng, n) for _ in range(12)] if R.cperm(c) in G]
                if not cc: continue
                cmds.append("ch %d %s" % (n, R.cs(cc[0]))); jobs.append(("post", R.cperm(cc[0]))); cols += 1
            elif q < .72: k2 = rng.randint(0, 9); cmds.append("again %d" % k2); jobs.append(("again", k2))
            elif q < .88: x = rng.choice(S); cmds.append("find " + J(x)); jobs.append(("find", x))
            else:
                w = rng.choice(["copy", "assign", "swap", "dump"]); cmds.append(w); jobs.append((w,))
        def j(o, n=n, S=S, SS=SS, cos=cos, ncos=ncos, P=P, jobs=jobs):
            if o.exc: return "exception"
            if o[0] != str(ncos): return "table has %s entries; there are %d cosets" % (o[0], ncos)
            if o[1] != str(n): return "table is on %s bells" % o[1]
            if o[2] != str(len(P)): return "part-end group of %s" % o[2]
            rows = [prow(x) for x in o[3].split(" ")]
            cl = [cos.get(r) for r in rows]
            if None in cl: return "an entry is not in the set"
            if len(set(cl)) != ncos: return "entries are not one for each coset"
            live = []; k = 4
            for job in jobs:
                f = o[k]; k += 1
                if job[0] in ("post", "pre") or job[0] == "again" and live:
                    if job[0] == "again": mult = live[job[1] % len(live)]
                    else:
                        if job[0] == "pre" and not job[2]:
                            if f == "!": continue
                            mult = job[:2]
                        else: mult = job[:2]
                        live.append(mult)
                    idx = f.split(",")
                    if len(idx) != ncos or "bad" in idx: return "products of %s outside the table: %s" % (mult, f[:200])
                    for i, x in enumerate(idx):
                        want = R.mul(rows[i], mult[1]) if mult[0] == "post" else R.mul(mult[1], rows[i])
                        if cl[int(x)] is not cos[want] and cl[int(x)] != cos[want]:
                            return "%s by %s: %s became %s, should be %s" % (mult[0], R.rs(mult[1]), R.rs(rows[i]), R.rs(rows[int(x)]), R.rs(want))
                elif job[0] == "again":
                    if f != "none": return "driver"
                elif job[0] == "find":
                    a, b, c = f.split(" ")
                    if prow(b) != rows[int(a)]: return "the two lookups disagree"
                    if cl[int(a)] != cos[job[1]]: return "looking up %s found %s" % (R.rs(job[1]), b)
                    if (c == "R") != (int(a) == 0): return "isrounds of index"
                elif job[0] in ("copy", "assign", "swap"):
                    live = []
                    if f != "ok": return "%s failed" % job[0]
        ev.append((("multtab", t, pt, "") + tuple(cmds), j, "|".join([t, pt] + cmds)))
        ctx.count("tables"); ctx.count("tables with part ends", len(P) > 1); ctx.count("history steps", len(cmds))
        ctx.count("products compared", ncos * cols)
    # group at the other end: course heads with leads factored out
    for _ in range(ctx.n(120, 1500)):
        n = rng.choice([5, 6, 7]); L = R.closure([R.pblh(n)], n) if rng.random() < .6 else R.closure([R.power(R.rand_row(rng, n), rng.randint(1, 5))], n)
        full = [r for r in (R.perms(n) if n < 6 or rng.random() < .2 and n < 7 else ((0,) + tuple(x + 1 for x in p) for p in R.perms(n - 1)))]
        F = set(full); L = {l for l in L if all(R.mul(f, l) in F for f in full[:1])}
        L = R.closure(sorted(L), n)
        if any(R.mul(full[1], l) not in F for l in L) or len(L) < 2 or len(L) > 12: continue
        # one member for each coset f*L, chosen at random
        rep = {}; S = []
        for f in full:
            c = frozenset(R.mul(f, l) for l in L)
            if c not in rep: x = rng.choice(sorted(c)); rep[c] = x; S.append(x)
        rounds = R.rounds(n); S.sort()
        clsof = {x: c for c in rep for x in c}
        cmds = []; want = []
        central = [l for l in L if all(R.mul(l, m) == R.mul(m, l) for m in L)]
        for _ in range(4):
            x = rng.choice(central); cmds.append("post " + J(x))
            pm = rng.choice(full)
            cmds.append("pre " + J(pm)); want += [("post", x), ("pre", pm)]
            y = rng.choice(S); cmds.append("find " + J(y)); want.append(("find", y))
        if sum(len(s) for s in S) > 6000: continue
        def j2(o, S=S, clsof=clsof, want=want, n=n):
            if o.exc: return "exception"
            rows = [prow(x) for x in o[3].split(" ")]
            if sorted(rows) != sorted(S): return "entries are not the rows given"
            for w, f in zip(want, o[4:]):
                if w[0] == "find":
                    if prow(f.split(" ")[1]) != w[1]: return "looking up %s gave %s" % (R.rs(w[1]), f)
                    continue
                for i, x in enumerate(f.split(",")):
                    t = R.mul(rows[i], w[1]) if w[0] == "post" else R.mul(w[1], rows[i])
                    if rows[int(x)] not in clsof[t]: return "%s by %s: %s became %s, should be equivalent to %s" % (w[0], R.rs(w[1]), R.rs(rows[i]), R.rs(rows[int(x)]), R.rs(t))
        ev.append((("multtab", " ".join(map(J, S)), "one " + J(rounds), "gens " + " ".join(map(J, sorted(L)))) + tuple(cmds), j2, "post" + str(L) + str(cmds)))
        ctx.count("tables with a group at the other end")
    for _ in range(ctx.n(150, 2000)):
        n = rng.randint(2, 6)
        while True:
            G = R.closure([R.rand_row(rng, n), R.power(R.rand_row(rng, n), rng.randint(1, 4))], n)
            if len(G) <= 130: break
        S = sorted(G); 
        if rng.random() < .4: q = S[1:]; rng.shuffle(q); S = S[:1] + q
        ch = []; 
        for _ in range(4): ch.append([rng.choice(S) for _ in range(rng.randint(2, 6))])
        def j3(o, S=S, ch=ch):
            if o[0] != str(len(S)): return "size"
            if o[1]: return "wrong products: " + o[1]
            for c, f in zip(ch, o[2:]):
                r = c[0]
                for x in c[1:]: r = R.mul(r, x)
                if f != J(r): return "chain of products gave %s, should be %s" % (f, J(r))
        ev.append((("sqmulttab", " ".join(map(J, S))) + tuple(" ".join(map(J, c)) for c in ch), j3, "sq" + str(S) + str(ch))); ctx.count("square tables")
    ctx.events(ev)
    ctx.minimum = {"tables": 200, "tables with part ends": 50, "square tables": 30, "products compared": 10000}
