"""C10: a touch is true exactly when no row occurs too often."""
from vt import ring as R
J = lambda r: ",".join(map(str, r))

class Model:
    """a direct count of the rows"""
    def __init__(self, mx, fi):
        self.st = [[]]; self.mx = [mx]; self.fi = fi; self.frozen = [None]; self.exact = True; self.dirty = False
    def rows(self): return [x for s in self.st for x in s]
    def counts(self):
        c = {}
        for r, l in self.rows(): c.setdefault(r, []).append(l)
        return c
    def truth(self):
        if self.frozen[-1] is not None: return self.frozen[-1]
        return self.mx[-1] == -1 or all(len(v) <= self.mx[-1] for v in self.counts().values())
    def bad(self):
        if self.mx[-1] == -1: return {}
        return {r: v for r, v in self.counts().items() if len(v) > self.mx[-1]}

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("random histories of adding rows, removing rows (in order and out of order), branching, popping and disabling, drawn from small pools so that repeats are "
                "common, on 1 to 16 bells and 0 to 4 permitted extents and unlimited; after every step the verdict, the number of repeats, the size, the count of the row and the failure "
                "report are compared with a direct count; and whole-list proofs of the same kinds, quick and full, with rows known true. Non-trivial: distinct histories")
    ev = []
    def pool():
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 10, 12, 16])
        k = rng.choice([1, 2, 3, 6, 12, 40])
        p = [R.rand_row(rng, n) for _ in range(k)]
        # rows that differ only late, or only by a swap of adjacent bells
        p += [R.ap(p[0], R.rand_change(rng, n)) for _ in range(k // 2)]
        return p
    for _ in range(ctx.n(2500, 40000)):
        p = pool(); mx = rng.choice([1, 1, 1, 1, 2, 2, 3, 4, 0, -1]); fi = rng.random() < .8
        m = Model(mx, fi); cmds = []; want = []
        lifo = rng.random() < .5; branchy = rng.random() < .5
        for _ in range(rng.randint(1, 60)):
            k = rng.random(); arg = ()
            if k < .6 or not cmds:
                r = rng.choice(p); cmds.append("+" + J(r)); arg = r
                m.st[-1].append((r, len(m.rows()) + 1 if m.exact else None))
                head = "1" if m.truth() else "0"
            elif k < .82:
                if lifo and m.st[-1]: r = m.st[-1][-1][0]
                else: r = rng.choice(p)
                cmds.append("-" + J(r)); arg = r
                i = max([i for i, x in enumerate(m.st[-1]) if x[0] == r], default=-1)
                if i < 0: head = "!"
                else:
                    if i != len(m.st[-1]) - 1: m.exact = False
                    del m.st[-1][i]; head = "ok"
            elif k < .9 and branchy:
                cmds.append("b"); head = "b"; m.st.append([]); m.mx.append(m.mx[-1]); m.frozen.append(m.frozen[-1])
            elif k < .97 and branchy:
                cmds.append("p"); head = "p"
                if len(m.st) > 1:
                    b = m.bad(); m.st.pop(); m.mx.pop(); m.frozen.pop()
                    if b != m.bad(): m.dirty = True
            elif rng.random() < .15:
                cmds.append("d"); head = "d"
                if m.mx[-1] != -1: m.frozen[-1] = m.truth(); m.mx[-1] = -1; m.dirty = True
            else: continue
            c = m.counts(); rows = m.rows()
            # what add_row returns says whether the touch is true so far
            b = None if m.dirty or not fi else {r: v if m.exact else len(v) for r, v in m.bad().items()}
            want.append((head, m.truth(), len(rows) - len(c), len(rows), len(c.get(arg, [])), b, m.mx[-1] == 0))
            ctx.count("steps"); ctx.count("false states", not m.truth())
            ctx.count("failure reports compared", bool(b)); ctx.count("removals", head == "ok")
            ctx.count("steps within a branch", len(m.st) > 1)
        def j(o, want=want, cmds=cmds):
            if o.exc: return "exception"
            for i, (w, f) in enumerate(zip(want, o)):
                g = f.split(" ")
                if g[0] != w[0]: return "step %d (%s) answered %s, should be %s" % (i, cmds[i], g[0], w[0])
                if g[1] != ("1" if w[1] else "0"): return "step %d (%s): truth is %s, should be %s" % (i, cmds[i], g[1], w[1])
                for nm, x, y in (("duplicates", g[2], w[2]), ("size", g[3], w[3]), ("count", g[4], w[4])):
                    if int(x) != y: return "step %d (%s): %s is %s, should be %s" % (i, cmds[i], nm, x, y)
                if w[5] is None: continue
                got = {}
                for x in (g[5].split(";") if g[5] else []):
                    r, l = x.split("=")
                    if r in got: return "step %d: row reported twice" % i
                    got[r] = [int(z) for z in l.split(",")] if l else []
                exp = {J(r): v for r, v in w[5].items()}
                if set(got) != set(exp): return "step %d (%s): failing rows reported %s, should be %s" % (i, cmds[i], sorted(got), sorted(exp))
                for r, v in exp.items():
                    if (len(got[r]) != v) if isinstance(v, int) else (got[r] != v):
                        return "step %d (%s): row %s on lines %s, should be %s" % (i, cmds[i], r, got[r], v)
        ev.append((("prover", mx, "1" if fi else "0") + tuple(cmds), j, "%s %s %s" % (mx, fi, cmds)))
    for _ in range(ctx.n(1500, 20000)):
        p = pool(); mx = rng.choice([1, 1, 1, 2, 3, 5, -1]); qp = rng.random() < .4
        if rng.random() < .3:  # the rows of a method
            n = rng.choice([4, 5, 6]); chs = [R.rand_change(rng, n, .9) for _ in range(rng.randint(1, 10))]
            rows = []; r = R.rounds(n)
            for _ in range(rng.randint(1, 12)):
                rr = R.ring_rows(chs, r); rows += rr[:-1]; r = rr[-1]
        else: rows = [rng.choice(p) for _ in range(rng.randint(0, 50))]
        if rng.random() < .4: rows = sorted(set(rows), key=lambda x: rng.random())
        # rows known to be true really are
        kt = 0; c = {}
        if rng.random() < .5 and mx > 0:
            for r in rows:
                c[r] = c.get(r, 0) + 1
                if c[r] > mx: break
                kt += 1
            kt = rng.randint(0, kt)
        occ = {}
        for i, r in enumerate(rows): occ.setdefault(r, []).append(i + 1)
        true = mx == -1 or all(len(v) <= mx for v in occ.values())
        exp = {} if true or qp else {J(r): v for r, v in occ.items() if len(v) > mx}
        names = {J(r): R.rs(r) for r in occ}
        def j2(o, true=true, exp=exp, names=names, qp=qp):
            if o.exc: return "exception"
            for k, f in (("constructed", o[:4]), ("proved again", o[5:9])):
                if f[0] != ("1" if true else "0") or f[1] == f[0]: return "%s: verdict %s/%s, should be %s" % (k, f[0], f[1], true)
                got = dict((x.split("=")[0], [int(z) for z in x.split("=")[1].split(",")]) for x in f[2].split(";")) if f[2] else {}
                if got != exp: return "%s: failures %s, should be %s" % (k, got, exp)
                ln = f[3].split("\n")
                if ln[0] != ("True" if true else "False"): return "text says " + ln[0]
                w = sorted("Row %s is repeated on lines %s" % (names[r], " ".join(map(str, v))) for r, v in exp.items())
                if sorted(ln[1:-1]) != w: return "%s: text is %r" % (k, f[3])
            if o[4] != "0": return "an unproved proof is true"
        ev.append((("proof", mx, "1" if qp else "0", kt) + tuple(map(J, rows)), j2, "%s %s %s %s" % (mx, qp, kt, rows)))
        ctx.count("whole proofs"); ctx.count("false whole proofs", not true); ctx.count("proofs with rows known true", kt > 0)
    ctx.events(ev)
    ctx.minimum = {"steps": 10000, "false states": 2000, "failure reports compared": 1000, "whole proofs": 500, "false whole proofs": 100}
