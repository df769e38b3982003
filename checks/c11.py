"""C11: falseness tables and false course heads."""
from vt import ring as R, meth as M
from vt.fch import FCH
J = lambda r: ",".join(map(str, r))
NAME = {R.pr(x): k for k, v in FCH.items() for x in v.split()}
IN, NT, HALF, OUT = 1, 2, 4, 8
def rows(s): return [tuple(map(int, x.split(","))) for x in s.split(" ")] if s else []

def name(r):
    """group with the tenors together on len(r) bells, or None"""
    n = len(r)
    if any(r[i] != i for i in range(6, n)): return None
    k = NAME.get(r[:6])
    if k is None: return ""
    return k[0] if n == 8 else "B1" if n == 10 and k == "D1" else k

SPLIT = {R.pr("17623548"): "X", R.pr("17645328"): "Y", R.pr("17632458"): "Z"}
L8 = R.pblh(8); D8 = R.closure([L8, R.cperm(R.pc(8, "12"))], 8)
def dcos(r, D): return {R.mul(R.mul(a, x), b) for a in D for b in D for x in (r, R.inv(r))}
SPLITCLASS = {v: dcos(k, D8) for k, v in SPLIT.items()}

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("random methods of many kinds (palindromic and not, plain, treble dodging, principles, differentials) on 3 to 12 bells: their falseness tables against the quotients of "
                "their rows under every combination of options and by every route of construction, their false course heads against the heads of the courses sharing a row with the plain "
                "course, and the letters against a separately transcribed table of groups; every in-course and out-of-course row looked up on 8, 10, 12 and 14 bells. "
                "Non-trivial: distinct (method, options)")
    ev = []
    def meths(n=None):
        n = n or rng.choice([3, 4, 4, 5, 6, 6, 6, 7, 8, 8, 9, 10])
        return n, M.random_method(rng, n)
    def quot(A, B, fl):
        if fl & HALF: A, B = A[:len(A) // 2], B[:len(B) // 2]
        Bi = [R.inv(b) for b in B]
        out = set()
        for a in A:
            for b in Bi:
                f = R.mul(a, b)
                if not fl & NT and f[0] != 0 or f in out: continue
                s = R.sign(f)
                if fl & IN and s < 0 or fl & OUT and s > 0: continue
                out.add(f)
        return out
    for _ in range(ctx.n(900, 9000)):
        n, m = meths(); fl = rng.choice([0, 1, 2, 4, 8, 3, 5, 6, 7, 9, 10, 12, 13, 14, 0, 1, 1])
        A = R.ring_rows(m, R.rounds(n), False); args = [n, fl, R.pns(m)]; B = A
        if rng.random() < .5:
            m2 = meths(n)[1] if rng.random() < .8 else m
            B = R.ring_rows(m2, R.rounds(n), False); args += [R.pns(m2), rng.randint(0, 2)]
        want = quot(A, B, fl)
        def j(o, want=want, n=n, fl=fl):
            if o.exc: return "exception"
            got = rows(o[1])
            if len(got) != len(set(got)) or int(o[0]) != len(got): return "rows repeated in the table"
            if set(got) != want:
                return "table has %d rows, should be %d; missing %s, extra %s" % (len(got), len(want), [R.rs(x) for x in sorted(want - set(got))[:5]], [R.rs(x) for x in sorted(set(got) - want)[:5]])
            if o[2] != "1": return "a default table is not just rounds"
            if o[4]:
                gens = list(want)
                if fl & OUT: gens = [R.div(x, y) for x in want for y in want]
                if int(o[4]) < 6000:
                    g = closure_small(gens, n)
                    if int(o[4]) != len(g): return "group of the table has order %s, should be %s" % (o[4], len(g))
                if int(o[3]) != n: return "group on %s bells" % o[3]
        ev.append((("falseness",) + tuple(args), j, str(args)))
        ctx.count("falseness tables"); ctx.count("falseness table rows", len(want)); ctx.count("between two methods", len(args) > 3)
    for _ in range(ctx.n(900, 9000)):
        n = rng.choice([4, 5, 6, 6, 7, 8, 8, 8, 8, 9, 10, 10, 12])
        m = M.regular_method(rng, n) if rng.random() < .75 else M.random_method(rng, n, 10)
        if len(m) > 48: continue
        fl = rng.choice([0, 1, 2, 3, 3, 2]); lh = R.leadhead(m, n)
        if lh[0] != 0: continue
        cyc = {len(c) for c in R.cycles(lh) if len(c) > 1}
        if len(cyc) > 1: continue
        home = lh[n - 1] != n - 1
        pw = [R.rounds(n)]
        while True:
            x = R.mul(pw[-1], lh)
            if x == pw[0]: break
            pw.append(x)
        A = R.ring_rows(m, R.rounds(n), False)
        F = {f for f in quot(A, A, NT) if f[0] == 0}
        want = set()
        for f in F:
            for a in pw:
                c = R.mul(a, f)
                for b in (pw if home else pw[:1]):
                    d = R.mul(c, b)
                    if d[n - 1] != n - 1: continue
                    if fl & 1 and R.sign(d) < 0: continue
                    if fl & 2 and any(d[i] != i for i in range(6, n)): continue
                    want.add(d)
        h = M.pblh_index(lh)
        syms = None
        if not (fl & 2) and n != 8 or n % 2 or not h: syms = "!exception"
        elif n >= 6 and lh[1] != 1:
            # two hunt bells have no letters of their own
            S = {k for k in (name(d) for d in want) if k}
            must = {v for k, v in SPLIT.items() if k in want} if n == 8 else set()
            may = {v for v, c in SPLITCLASS.items() if n == 8 and c & want}
            syms = (S, must, may)
        def j2(o, want=want, syms=syms):
            if o.exc: return "exception"
            got = rows(o[1])
            if len(got) != len(set(got)) or int(o[0]) != len(got): return "false course heads repeated"
            if set(got) != want:
                return "%d false course heads, should be %d; missing %s, extra %s" % (len(got), len(want), [R.rs(x) for x in sorted(want - set(got))[:5]], [R.rs(x) for x in sorted(set(got) - want)[:5]])
            if syms is None: return
            if syms == "!exception":
                return None if o[2] == "!exception" else "symbols %s given where they have no meaning" % o[2]
            S, must, may = syms
            opts = []
            opt = sorted(may - must)
            for k in range(1 << len(opt)):
                opts.append("".join(sorted(S | must | {x for i, x in enumerate(opt) if k >> i & 1})))
            if o[2] not in opts: return "symbols %s, should be %s" % (o[2], opts[0])
        mode = rng.choice([0, 0, 1, 2])
        ev.append((("fch", n, fl, R.pns(m), mode), j2, "%s %s %s %s" % (n, fl, m, mode)))
        ctx.count("false course head tables"); ctx.count("false course heads", len(want)); ctx.count("symbol strings compared", isinstance(syms, tuple))
        ctx.count("split-tenors symbols", isinstance(syms, tuple) and bool(syms[1]))
    # letters of single rows
    for n in (8, 10, 12, 14) if not ctx.thorough else (8, 10, 12, 14, 16):
        D = None
        six = [r for r in R.perms(6) if r[0] == 0]
        def j3(o, six=six, n=n):
            for r, s in zip(six, o):
                w = name(tuple(r) + tuple(range(6, n)))
                if s != w: return ("fchsym:%d %s" % (n, R.rs(r)), "%s on %d bells is called %r, should be %r" % (R.rs(r), n, s, w))
        if n == 8: base = six
        ev.append((("fchsym",) + tuple(J(tuple(r) + tuple(range(6, n))) for r in six), j3, "sym%d" % n)); ctx.count("rows looked up", len(six))
        # any false course head is called after the groups its leads contain
        ev2 = []
        L = R.pblh(n); DD = sorted(R.closure([L, R.cperm(R.pc(n, "12"))], n))
        rs2 = []; ws = []
        for _ in range(ctx.n(40, 400)):
            r = tuple(rng.choice(six)) + tuple(range(6, n)); 
            x = R.mul(R.mul(rng.choice(DD), r), rng.choice(DD)); x = R.inv(x) if rng.random() < .5 else x
            rs2.append(x); ws.append(name(r))
        def j4(o, rs2=rs2, ws=ws, n=n):
            for r, s, w in zip(rs2, o, ws):
                if s != w: return "%s on %d bells is called %r, should be %r" % (R.rs(r), n, s, w)
        ev.append((("fchsym",) + tuple(map(J, rs2)), j4, "symc%d" % n)); ctx.count("rows looked up", len(rs2))
    def jd(o):
        if list(o) != ["1", "!exception", "1"] and o[0] != "1": return "default tables are not just rounds: %s" % list(o)
    ev.append((("fchdef",), jd, "def"))
    ctx.events(ev)
    ctx.minimum = {"falseness tables": 200, "falseness table rows": 2000, "false course head tables": 100, "symbol strings compared": 30, "rows looked up": 300}

def closure_small(gens, n, limit=6000):
    # Schreier-free: add generators one at a time, only when new
    S = {R.rounds(n)}; used = []
    for g in gens:
        if g in S: continue
        used.append(g); S = R.closure(used, n)
        if len(S) > limit: break
    return S
