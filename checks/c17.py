"""C17: dimensions."""
from fractions import Fraction as F
UN = ["pt", "in", "cm", "mm"]
NAMES = {"pt": 0, "points": 0, "point": 0, "in": 1, '"': 1, "inches": 1, "inch": 1, "cm": 2, "mm": 3}
PT = [F(1), F(72), F(72 * 100, 254), F(72 * 10, 254)]
INT = 2 ** 31 - 1

def run(ctx):
    ctx.need("driver"); rng = ctx.rng
    ctx.rule = ("lengths as integers, decimals, fractions and mixed numbers of every magnitude that fits, signs, spacings and units; malformed variants; and random scalings, negations and conversions. Non-trivial: distinct texts and operation sequences")
    ev = []
    def close(x, want):
        x = float(x); w = float(want)
        return abs(x - w) <= 1e-5 * abs(w) + 1e-9
    def isdim(o, v, u):
        """complaint if (n, d, u, points) is not the length v of unit u"""
        n, d, uu, p = int(o[0]), int(o[1]), int(o[2]), o[3]
        if d <= 0: return "has denominator %d" % d
        if F(n, d) != v or (v and uu != u): return "is %d/%d %s, should be %s %s" % (n, d, UN[uu], v, UN[u])
        if v and (d != v.denominator): return "is not in its lowest terms: %d/%d" % (n, d)
        if not close(p, v * PT[u]): return "is %s points, should be %s" % (p, float(v * PT[u]))
    def written(o, v, u):
        if o[0].rstrip("\0") != o[1].rstrip("\0") or o[1].endswith("\0"): return "write() gives %r, << gives %r" % (o[1], o[0])
        if o[2] != "1": return "write() does not return its argument"
        if o[3] == "unreadable": return "%r, as written, cannot be read" % o[0]
        return isdim(o[3:7], v, u) and "read back from %r it %s" % (o[0], isdim(o[3:7], v, u))
    def num():
        return rng.choice([0, 1, 2, 3, 5, 7, 12, 72, 254]) if rng.random() < .5 else rng.randint(0, 10 ** rng.randint(1, 4))
    def sp(p=.3): return rng.choice([" ", "  ", "\t", "\n"]) if rng.random() < p else ""
    for _ in range(ctx.n(6000, 80000)):
        k = rng.random(); unit = rng.choice(list(NAMES)); neg = rng.random() < .25
        if k < .25: a = num() if rng.random() < .9 else rng.choice([INT, 10 ** 9, 123456789]); v = F(a); t = rng.choice(["", "", "0", "00"]) + str(a)
        elif k < .5:
            a = num(); fd = rng.randint(0, 4); b = rng.randrange(10 ** fd); v = a + F(b, 10 ** fd); t = "%d.%s" % (a, str(b).zfill(fd) if fd else "")
        elif k < .75: a, c = num(), max(1, num()); v = F(a, c); t = "%d%s/%s%d" % (a, sp(), sp(), c)
        else: a, b, c = num(), num(), max(1, num()); v = a + F(b, c); t = "%d%s%d%s/%s%d" % (a, sp(1) or " ", b, sp(), sp(), c)
        if neg: v = -v
        text = sp() + ("-" + sp() if neg else "") + t + sp(.7) + unit + sp(.2); u = NAMES[unit]
        def j(o, v=v, u=u):
            if o.exc: return "exception"
            if o[0] == "rejected": return "a well-formed length was rejected"
            c = isdim(o, v, u)
            return c and "it " + c or written(o[4:], v, u)
        ev.append((("dimread", text, rng.randint(-9, 9), 1, rng.randrange(4), rng.randrange(2)), j, text)); ctx.count("lengths read")
    bad = ["", " ", "-", "pt", "in", "3", "3.5", "1/2", "3 feet", "3 ptt", "3 p", "x3 in", "--3 in", "3- in", "3 -1 in", "1/ in", "1 2 in", "1 2/ in", "/2 in", "1//2 in", "1.2.3 in", "1.5/2 in", "1/2/3 in", "1/x in",
           "3..5 in", "- in", "+3 in", "1 1/ 2x in", "3 INCH", "3 Pt", "1,5 cm", "1e3 pt", "0x10 pt", "3 'in'", "1/0 in", "0/0 in", "1 1/0 mm", "99999999999 pt", "2147483648 pt", "0.12345678901 in", "123456 99999/99999 in", "1/99999999999 cm", "65536 1/65536 in"]
    for t in bad:
        for p in range(2):
            def j(o):
                if o[0] != "rejected": return "a malformed length, or one that does not fit, was read as %s/%s %s" % (o[0], o[1], UN[int(o[2])])
            ev.append((("dimread", t, 3, 2, 1, p), j, t)); ctx.count("malformed lengths")
    for _ in range(ctx.n(300, 3000)):
        t = "".join(rng.choice("0123456789 ./-ptincm\"") for _ in range(rng.randint(0, 9)))
        ev.append((("dimread", t, 3, 2, 1, 0), lambda o: None, None)); ctx.count("random texts")
    for _ in range(ctx.n(2000, 20000)):
        n, d, u = rng.choice([0, 1, -1, rng.randint(-200, 200)]), rng.choice([1, 2, 3, 10, 12, rng.randint(1, 100)]), rng.randrange(4)
        v = F(n, d); ops = []; st = []; red = False
        simple = rng.random() < .1
        if simple: v = F(n); u = 0; d = 1
        first = [n, d, u]
        for _ in range(rng.randint(1, 6)):
            k = rng.choice("*/-rf=*/-")
            if k in "*/":
                x = rng.choice([1, 2, 3, -1, -2, 5, 10, rng.randint(1, 30)])
                if k == "*" and rng.random() < .05: x = 0
                w = v * x if k == "*" else v / x
                if max(abs(v.numerator * x), v.denominator * abs(x), abs(n * x), abs(d * x)) >= 10 ** 8: continue
                v = w; ops.append("%s %d" % (k, x)); red = True
            elif k == "-": v = -v; ops.append("-")
            elif k == "r": ops.append("r"); red = True
            elif k == "f":
                q = rng.choice([1, 2, 4, 8, 16]); w = rng.randint(-300, 300); u = rng.randrange(4); v = F(w, q)
                ops.append("f %r %d %d" % (w / q, q * rng.choice([1, 2, 5]), u)); red = True
            else:
                z = rng.choice([0, 0, 1]); ops.append("= %d" % z); st.append(("=", v == 0 and z == 0)); st.append(("d", v, u, red)); n, d = v.numerator, v.denominator; continue
            st.append(("d", v, u, red)); n, d = v.numerator, v.denominator
        if not ops: continue
        def j(o, st=st):
            if o.exc: return "exception"
            o = list(o)
            if "differs" in o: return "scaling a copy and scaling in place differ"
            for x in st:
                if x[0] == "=":
                    if o[:2] != ["1" if x[1] else "0", "0" if x[1] else "1"]: return "comparing with an integer gave %s" % o[:2]
                    o = o[2:]
                else:
                    v, u, red = x[1:]; p = o[:4]; o = o[4:]
                    if not red:
                        if F(int(p[0]), int(p[1])) != v or int(p[2]) != u or not close(p[3], v * PT[u]): return "is %s, should be %s %s" % (p, v, UN[u])
                        continue
                    c = isdim(p, v, u)
                    if c: return "it " + c
            v, u, red = st[-1][1:]
            if o[1] == "unreadable": return "%r, as written, cannot be read" % o[0]
            c = isdim(o[1:], v, u)
            if c: return "read back from %r it %s" % (o[0], c)
        ev.append((["dimops"] + first + ["i" if simple else ""] + ops, j, (tuple(first), tuple(ops)))); ctx.count("operations", len(ops))
    ctx.events(ev)
    ctx.minimum = {"lengths read": 3000, "malformed lengths": 50, "operations": 2000}
