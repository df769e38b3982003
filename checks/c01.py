"""C01: rows form the symmetric group."""
import itertools
from vt import ring as R

def f(r): return ",".join(map(str, r))
def p(s): return tuple(int(x) for x in s.split(",")) if s else ()
def b(x): return "1" if x else "0"

def named(w, n, *a):
    if w == "rounds": return R.rounds(n)
    odd = list(range(0, n, 2)); ev = list(range(1, n, 2))
    if w == "queens": return tuple(odd + ev) if n > 2 else R.rounds(n)
    if w == "kings": return tuple(odd[::-1] + ev) if n > 2 else R.rounds(n)
    if w == "tittums":
        h = (n + 1) // 2; out = []
        for i in range(h):
            out.append(i)
            if h + i < n: out.append(h + i)
        return tuple(out)
    if w == "reverse": return tuple(range(n - 1, -1, -1))
    if w == "reverse3":
        nh, nt = a; nt = nt or n + nh
        return tuple(range(nh)) + tuple(range(nh + n - 1, nh - 1, -1)) + tuple(range(nh + n, nt))
    if w == "cyclic":
        h, c = a
        if h >= n: return R.rounds(n)
        one = tuple(range(h)) + tuple(range(h + 1, n)) + (h,)
        return R.power(one, c)
    if w == "pblh": return R.pblh(n, a[0])

def j_bin(x, y):
    m, d = R.mul(x, y), R.div(x, y)
    def j(o):
        want = [m, d, m, d, R.mul(x, x), R.rounds(len(x)), R.mul(R.mul(R.inv(y), x), y)]
        nm = ["x*y", "x/y", "x*=y", "x/=y", "x*=x", "x/=x", "y^-1.x.y"]
        for k, (w, n) in enumerate(zip(want, nm)):
            if p(o[k]) != w: return "%s should be %s, is %s" % (n, f(w), o[k])
        cmp = [b(v) for v in (x == y, x != y, x < y, x > y, x <= y, x >= y)]
        if o[7:13] != cmp: return "comparisons %r should be %r" % (o[7:13], cmp)
        if x == y and o[13] != "1": return "equal rows hash differently"
        conj = len(x) == len(y) and sorted(map(len, R.cycles(x))) == sorted(map(len, R.cycles(y)))
        if o[14] != b(conj): return "are_conjugate should be %s" % conj
        q = p(o[15])
        if conj:
            if len(q) != len(x) or sorted(q) != list(range(len(x))) or R.mul(R.mul(R.inv(q), x), q) != y:
                return "conjugator %s does not conjugate x to y" % o[15]
        elif q != (): return "conjugator of non-conjugate rows should be the empty row"
    return j

def which_pb(x, h):
    n = len(x); l = R.pblh(n, h); r = l
    for i in range(1, n - h):
        if r == x: return i
        r = R.mul(r, l)
    return 0

def j_un(x):
    n = len(x); cy = R.cycles(x)
    cyc = ",".join("".join(R.ch(v) for v in c) for c in cy) if n <= R.MAXB else None
    h = 0
    while h < n and x[h] == h: h += 1
    def j(o):
        if p(o[0]) != R.inv(x): return "inverse should be " + f(R.inv(x))
        if o[1] != str(R.sign(x)): return "sign should be %d" % R.sign(x)
        if o[2] != str(R.order(x)): return "order should be %d" % R.order(x)
        if o[3] != str(len(cy)): return "number of cycles should be %d" % len(cy)
        if cyc is not None and o[4] != cyc: return "cycles should be " + cyc
        if o[5] != b(x == R.rounds(n)): return "isrounds wrong"
        if o[6] != str(n): return "bells wrong"
        cs = [0] * n
        for c in cy:
            for v in c: cs[v] = len(c)
        if o[7] != f(cs): return "cycle sizes should be " + f(cs)
        if o[8] != f(R.inv(x)): return "find should give " + f(R.inv(x))
        want = 1 if n == 0 else (0 if h == 0 else which_pb(x, h))
        if o[9] != str(want): return "ispblh should be %d" % want
        if n > 1:
            w = ",".join(str(which_pb(x, k)) for k in range(n))
            if o[10] != w: return "ispblh(h) should be " + w
    return j

def eq(*rows):
    def j(o):
        for k, r in enumerate(rows):
            if k >= len(o) or p(o[k]) != r: return "result %d should be %s" % (k, f(r))
        if len(o) != len(rows): return "wrong number of results"
    return j

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("rows of 0..40 bells: all rows of up to 5 bells (pairs up to 4), random rows and pairs of mixed stages, "
                "structured rows (named rows, powers, near-rounds, few cycles); every operation of the row class is judged "
                "against permutation arithmetic. Non-trivial: not all operands are rounds.")
    ev = []
    def add(cmd, judge, triv=False):
        ev.append((cmd, judge, None if triv else "|".join(map(str, cmd))))
    stages = lambda: rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 12, 12, 16, 17, 22, 31, 32, 33, rng.randint(0, 33)])
    def rnd(n=None, big=False):
        n = stages() if n is None else n
        k = rng.random()
        if k < .55: return R.rand_row(rng, n)
        if k < .65: return R.power(R.pblh(n, rng.randint(1, 2)), rng.randint(0, n)) if n > 2 else R.rounds(n)
        if k < .75 and n: return named("cyclic", n, rng.randint(0, n - 1), rng.randint(-n, n))
        if k < .9 and n > 1:
            r = list(range(n))
            for _ in range(rng.randint(1, 3)):
                i, q = rng.randrange(n), rng.randrange(n); r[i], r[q] = r[q], r[i]
            return tuple(r)
        return R.rounds(n)
    small = [r for n in range(0, 5) for r in R.perms(n)]
    for x in small:
        for y in small: add(("row_bin", f(x), f(y)), j_bin(x, y))
    for n in range(0, 7 if ctx.thorough else 6):
        for x in R.perms(n): add(("row_un", f(x)), j_un(x))
    for _ in range(ctx.n(6000, 150000)):
        x = rnd(); k = rng.random()
        if k < .1: y = x
        elif k < .3: y = R.rand_row(rng, len(x)); y = R.mul(R.mul(R.inv(y), x), y)   # conjugate pairs
        elif k < .6: y = rnd(len(x))
        else: y = rnd()
        add(("row_bin", f(x), f(y)), j_bin(x, y), x == y == R.rounds(len(x)))
        if len(x): ctx.count("mixed stages" if len(x) != len(y) else "same stage")
    for _ in range(ctx.n(3000, 60000)):
        x = rnd(rng.choice([None, None, None, rng.randint(34, 40)])); add(("row_un", f(x)), j_un(x))
    for _ in range(ctx.n(1500, 30000)):
        x = rnd()
        es = [0, 1, -1, 2, rng.randint(-50, 50), rng.randint(-3000, 3000), rng.choice([2**31 - 1, -2**31, 10**9, -10**9, len(x)**2, len(x)**2 + 1])]
        add(("row_pow", f(x)) + tuple(map(str, es)), eq(*[R.power(x, e) for e in es]))
    # named rows, exhaustively over their parameters
    for n in range(0, 41):
        for w in ("rounds", "queens", "kings", "tittums", "reverse"):
            add(("row_named", w, str(n)), eq(named(w, n)))
        for nh in range(0, 4):
            for nt in (0, n + nh, n + nh + 2):
                add(("row_named", "reverse3", str(n), str(nh), str(nt)), eq(named("reverse3", n, nh, nt)))
        for h in range(0, min(n, 5) + 2):
            add(("row_named", "pblh", str(n), str(h)), eq(named("pblh", n, h)))
            for c in (0, 1, -1, 2, 3, rng.randint(-60, 60)):
                add(("row_named", "cyclic", str(n), str(h), str(c)), eq(named("cyclic", n, h, c)))
    # things which are not permutations
    for _ in range(ctx.n(2000, 40000)):
        n = rng.randint(1, 20); v = list(R.rand_row(rng, n)); k = rng.random()
        if k < .4: v[rng.randrange(n)] = rng.randint(0, n + 2)
        elif k < .6: v[rng.randrange(n)] = rng.choice([n, n + 1, 200, 255])
        elif k < .8: v = [rng.randint(0, n) for _ in range(n)]
        good = sorted(v) == list(range(n)); v = tuple(v)
        def jv(v=v, good=good):
            def j(o):
                if good and (o.exc or p(o[0]) != v): return "valid row rejected or altered"
                if not good and not o.exc: return "accepted something that is not a permutation"
            return j
        add((rng.choice(["row_vec", "row_vec_swap"]), f(v)), jv())
        ctx.count("valid vectors" if good else "invalid vectors")
    # histories of edits, and laws with changes
    for _ in range(ctx.n(1500, 40000)):
        r = rnd(); cmd = ["row_edit", f(r)]; want = []
        for _ in range(rng.randint(1, 8)):
            k = rng.choice(["resize", "swap", "rounds", "mul", "div", "ch", "self", "swaprow"])
            if k == "resize":
                m = rng.randint(0, min(40, len(r) + 3)); cmd.append("resize %d" % m)
                if m >= len(r): r = R.ext(r, m)
                elif all(v < m for v in r[:m]): r = r[:m]
                else: want.append("!" + f(r)); continue
            elif k == "swap" and len(r) > 1:
                i, q = rng.randrange(len(r)), rng.randrange(len(r)); cmd.append("swap %d %d" % (i, q))
                t = list(r); t[i], t[q] = t[q], t[i]; r = tuple(t)
            elif k == "rounds": cmd.append("rounds"); r = R.rounds(len(r))
            elif k in ("mul", "div"):
                s = rnd(); s = s or (0,); cmd.append("%s %s" % (k, f(s))); r = R.mul(r, s) if k == "mul" else R.div(r, s)
            elif k == "ch":
                n = rng.randint(1, 20); c = R.rand_change(rng, n); cmd.append("ch %d %s" % (n, R.cs(c))); r = R.ap(r, c)
            elif k == "self": cmd.append("self")
            elif k == "swaprow": s = rnd() or (0,); cmd.append("swaprow " + f(s)); r = s
            else: continue
            want.append("ok" + f(r))
        def je(want=want):
            def j(o):
                if list(o) != want and want: return "after the edits the rows should be %r" % want
            return j
        if want: add(tuple(cmd), je())
    for _ in range(ctx.n(800, 10000)):
        n = rng.randint(1, 16); xs = [rnd(rng.choice([n, n, rng.randint(1, 18)])) for _ in range(rng.randint(1, 5))]
        r0 = rnd(n); a = c = R.rounds(n); d = e = r0; want = []
        for x in xs:
            oldc, olde = c, e
            a = R.mul(a, x); c = R.mul(c, x); d = R.mul(d, x); e = R.mul(e, x)
            want += [a, oldc, d, olde]
        want += [a, c, d, e]
        add(("row_permuters", str(n), f(r0)) + tuple(f(x) for x in xs), eq(*want))
    for _ in range(ctx.n(800, 10000)):
        n = rng.randint(1, 12); cs = [R.rand_change(rng, n) for _ in range(rng.randint(0, 10))]
        fl = rng.choice([0, 1, 2, 3]); st = rng.choice([None, rnd(n)])
        L = len(cs) // 2 if fl & 2 else len(cs)
        k = L + (0 if fl & 1 else 1)
        rows = R.ring_rows(cs, st if st is not None else R.rounds(n))[:k]
        if not cs and st is None: rows = [()] * k
        if st is None or (st and cs) or (st is not None and k):
            add(("row_block", str(n), str(fl), f(st) if st is not None else "-") + tuple(R.cs(c) for c in cs), eqb(rows))
        if cs:
            s1, s2 = rnd(n), rnd(n)
            add(("row_block_re", str(n), f(s1), f(s2)) + tuple(R.cs(c) for c in cs), eqb(R.ring_rows(cs, s2)))
    ctx.events(ev)
    ctx.minimum = {"mixed stages": 500, "invalid vectors": 100}

def eqb(rows):
    def j(o):
        got = [p(x) for x in o] if not (len(o) == 1 and o[0] == "" and not rows) else []
        if got != list(rows): return "rows should be %r" % [f(r) for r in rows]
    return j
