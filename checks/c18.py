"""C18: basic arithmetic and text helpers are exact within range."""
import math, re
from vt import ring as R
J = lambda r: ",".join(map(str, r))
U32 = 2 ** 32; I32 = 2 ** 31; I64 = 2 ** 63

def landau(n):
    from functools import lru_cache
    best = [1] * (n + 1)
    primes = [p for p in range(2, n + 1) if all(p % q for q in range(2, int(p ** .5) + 1))]
    for p in primes:
        new = best[:]
        q = p
        while q <= n:
            for m in range(q, n + 1):
                if best[m - q] * q > new[m]: new[m] = best[m - q] * q
            q *= p
        best = new
        for i in range(1, n + 1): best[i] = max(best[i], best[i - 1])
    return best[n]

def isprime(n): return n > 1 and all(n % q for q in range(2, math.isqrt(n) + 1))

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("every argument of the arithmetic helpers whose result is representable on small ranges, and random and extreme arguments beyond; random numbers with a supplied "
                "generator; conversions of well-formed, padded, truncated, out-of-range and polluted texts. Non-trivial: distinct (function, arguments)")
    ev = []
    def add(cmd, want, key=True):
        def j(o, want=want):
            if o.exc: return "exception, should be %s" % want
            return None if o[0] == str(want) else "should be %s" % want
        ev.append((cmd, j, "|".join(map(str, cmd))))
    for n in range(0, 13): add(("math", "factorial", n), math.factorial(n))
    a, b = 1, 1
    for n in range(0, 47): add(("math", "fibonacci", n), a); a, b = b, a + b
    for n in range(0, 120):
        v = landau(n) if n else 1
        if v < U32: add(("math", "landau", n), v); ctx.count("landau")
    for n in list(range(0, 400)) + [rng.randrange(1 << 20) for _ in range(50)] + [65521, 65536, 4294836225, 2147483647, 1 << 31]:
        add(("math", "is_prime", n), int(isprime(n)))
    for n in list(range(0, 200)) + [rng.randrange(1 << 16) for _ in range(30)]:
        m = n + 1
        while not isprime(m): m += 1
        add(("math", "next_prime", n), m)
    for n in (-2147483648, -1, 0, 1, 2147483647): add(("math", "sign", n), (n > 0) - (n < 0))
    def pos(): return rng.choice([rng.randint(1, 40), rng.randint(1, 5000), rng.randint(1, I32 - 1), I32 - 1, 1 << rng.randint(0, 30), 3 ** rng.randint(0, 19)])
    for a in range(0, 25):
        for b in range(0, 25):
            if a or b: add(("math", "hcf", a, b), math.gcd(a, b))
            if a and b: add(("math", "lcm", a, b), a * b // math.gcd(a, b))
    for _ in range(ctx.n(1500, 30000)):
        a, b = pos(), pos()
        if rng.random() < .3: g = rng.randint(1, 4000); a = g * rng.randint(1, 500); b = g * rng.randint(1, 500)
        add(("math", "hcf", a, b), math.gcd(a, b)); ctx.count("hcf")
        l = a * b // math.gcd(a, b)
        if l < I32: add(("math", "lcm", a, b), l); ctx.count("lcm"); ctx.count("lcm whose product overflows int", a * b >= I32)
    for b in list(range(-12, 13)) + [46340, -46341, 2147483647, -2147483648, 3037000499 % I32]:
        for e in range(-3, 65):
            if e < 0:
                if abs(b) > 1: add(("math", "ipower", b, e), 0)
            elif -I64 <= b ** e < I64 and abs(b ** e) < (I64 if b != -2 or e < 63 else 0): add(("math", "ipower", b, e), b ** e); ctx.count("ipower")
    # random numbers
    for _ in range(ctx.n(200, 3000)):
        m = rng.choice([1, 2, 3, 6, 7, 100, 5040, 479001600, U32 - 1, rng.randint(1, U32 - 1)]); mx = rng.choice([1, 2, 32767, I32 - 1, 255])
        seq = [rng.choice([0, 1, mx - 1, rng.randint(0, mx), rng.randint(0, mx)]) for _ in range(12)] + [0]
        def j(o, m=m):
            v = [int(x) for x in o[:-1]]
            if any(not 0 <= x < m for x in v): return "random_int(%d) gave %s" % (m, [x for x in v if not 0 <= x < m])
            if o[-1] != "1": return "random_fn did not return the generator supplied"
        ev.append((("random", "int", m, mx, J(seq)), j, "ri%d,%d,%s" % (m, mx, seq))); ctx.count("random draws", len(seq))
        n = rng.randint(1, 11)
        def j(o, n=n):
            for x in o[:-1]:
                r = tuple(map(int, x.split(",")))
                if r[0] != 0 or r[-1] != n + 1 or sorted(r) != list(range(n + 2)): return "random row %s" % (r,)
        seq2 = [rng.randint(0, mx - 1) for _ in range(10)]
        ev.append((("random", "row", n, mx, J(seq2)), lambda o, n=n: jrow(o, n), "rr%d,%d,%s" % (n, mx, seq2)))
        M = rng.choice([1.0, .5, 100.0])
        ev.append((("random", "uniform", M, mx, J(seq)), lambda o, M=M: None if all(0 <= float(x) < M for x in o[:-1]) else "deviate out of range", "ru%s,%d,%s" % (M, mx, seq)))
    # conversions
    LIM = {"int": (-I32, I32 - 1), "unsigned": (0, U32 - 1), "long": (-I64, I64 - 1), "short": (-32768, 32767)}
    def conv(t, s):
        m = re.fullmatch(r"[ \t\n\v\f\r]*([+-]?)([0-9]+)[ \t\n\v\f\r]*", s)
        if not m: return None
        v = int(m[1] + m[2])
        return v if LIM[t][0] <= v <= LIM[t][1] else None
    for _ in range(ctx.n(4000, 60000)):
        t = rng.choice(list(LIM)); lo, hi = LIM[t]
        v = rng.choice([0, 1, lo, hi, hi + 1, lo - 1, rng.randint(lo, hi), rng.randint(-100, 100), rng.randint(0, 10 ** 25)])
        if t == "unsigned": v = abs(v)
        s = str(v)
        k = rng.random()
        if k < .1: s = "0" * rng.randint(1, 5) + s if v >= 0 else s
        elif k < .2: s = "+" + s if v >= 0 else s
        elif k < .35: s = rng.choice([" ", "\t", "\n", ""]) + s + rng.choice([" ", "\n", "  ", ""])
        elif k < .6:
            i = rng.randint(0, len(s)); s = s[:i] + rng.choice(list("ax. -+,/eE%")) + s[i:]
        elif k < .65: s = rng.choice(["", " ", "-", "+", "0x1f", "1e3", "1 2", "--1", "twelve", "1.0"])
        if t == "unsigned" and "-" in s: continue
        want = conv(t, s)
        def j(o, want=want, t=t, s=s):
            if want is None: return None if o.exc and "lexical_cast" in o[1] else "%r was converted to %s %s" % (s, t, o[0])
            if o.exc: return "%r was refused as %s" % (s, t)
            return None if o[0] == str(want) else "%r became %s" % (s, o[0])
        ev.append((("cast", t, s), j, t + s)); ctx.count("conversions"); ctx.count("conversions refused", want is None)
    for s in [c for c in R.SYM] + [" 7", "7 ", "", "12", "1a", "z", "#", "{40}", "{1} ", "{0}", "{"]:
        q = s.strip()
        want = None
        if len(q) == 1 and q in R.SYM.lower() + R.SYM: want = R.bell_of(q)
        if re.fullmatch(r"\{[1-9]\d*\}", q): want = int(q[1:-1]) - 1
        ev.append((("cast", "bell", s), (lambda o, want=want, s=s: (None if o.exc else "%r read as a bell" % s) if want is None else (None if o[0] == str(want) else "%r should be bell %d" % (s, want))), "bell" + s))
    for _ in range(ctx.n(400, 4000)):
        n = rng.randint(1, 16); r = R.rand_row(rng, n); s = R.rs(r); ok = True
        k = rng.random()
        if k < .2: s = s[:-1] + s[0]; ok = n == 1
        elif k < .4: s = s + " " + R.rs(R.rounds(n)); ok = False
        elif k < .5: s = " " + s + "\n"
        elif k < .6: s = s + "!"; ok = False
        ev.append((("cast", "row", s), (lambda o, r=r, ok=ok, s=s: (None if not o.exc and o[0] == J(r) else "%r should be that row" % s) if ok else (None if o.exc else "%r read as row %s" % (s, o[0]))), "row" + s))
    for v in [0, 1, -1, 42, -I32, I32 - 1]: add(("cast", "rev", v), v)
    for v in range(33): add(("cast", "revbell", v), R.ch(v))
    for v in (0, -5, 123456): add(("cast", "ms", v), "a%d,12345ff" % v)
    for s, w in (("1.5", 1.5), ("-2", -2), ("1e3", 1000), ("0.25 ", .25), ("1.5x", None), ("", None), (".", None)):
        ev.append((("cast", "float", s), (lambda o, w=w: (None if o.exc else "accepted") if w is None else (None if not o.exc and float(o[0]) == w else "should be %s" % w)), "float" + s))
    ctx.events(ev)
    ctx.minimum = {"conversions": 500, "random draws": 500, "lcm whose product overflows int": 10}

def jrow(o, n):
    for x in o[:-1]:
        r = tuple(map(int, x.split(",")))
        if r[0] != 0 or r[-1] != n + 1 or sorted(r) != list(range(n + 2)): return "random row %s" % (r,)
