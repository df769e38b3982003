"""C04: place notation expands to exactly the changes it denotes."""
import re
from vt import ring as R
def chs(c): return "%d:%s" % (c[0], ",".join(map(str, c[1])))

def texts_of(rng, c):
    """one of the texts denoting change c (implied external places may be left out)"""
    n = c[0]; p = R.places(c)
    if not p: return rng.choice(["x", "X", "-"])
    alts = [p]
    for q in (p[1:] if p[0] == 0 else None, p[:-1] if p[-1] == n - 1 else None,
              p[1:-1] if p[0] == 0 and p[-1] == n - 1 else None):
        if q and R.from_places(n, q) == c: alts.append(q)
    if R.from_places(n, []) == c and rng.random() < .3: return rng.choice(["x", "X", "-"])
    q = rng.choice(alts)
    s = ""
    for x in q:
        if x >= R.MAXB or rng.random() < .04: s += "{%d}" % (x + 1)
        else:
            ch = R.ch(x)
            s += ch.lower() if rng.random() < .2 else ch
    return s

def write(rng, blocks):
    """blocks: list of (symmetric, changes). Returns text and the changes denoted."""
    ws = (lambda: rng.choice(["", " ", "\t", "\n "])) if rng.random() < .3 else (lambda: "")
    out = ws(); den = []
    for i, (sym, cs) in enumerate(blocks):
        if i: out += "," + ws()
        if sym: out += "&"
        elif rng.random() < .2: out += "+"
        if out[-1:] in ("&", "+") and cs and rng.random() < .2: out += ws() + "." + ws()
        prev = None
        for c in cs:
            t = texts_of(rng, c)
            if prev is not None:
                need = prev not in "xX-" and t not in "xX-"
                if need or rng.random() < .1: out += rng.choice([".", ws() + "." + ws(), ".", " "])
            out += t; prev = t
        out += ws()
        den += cs + (cs[-2::-1] if sym and len(cs) > 1 else [])
    if rng.random() < .1: out += "," + ws()
    return out, den

FLAGS = {"DOTS": 1, "EXT": 2, "U": 4, "L": 8, "D": 16, "SYM": 32, "FULL": 96, "OMIT": 128, "PLUS": 256}

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("place notation written from known sequences of changes on 2..40 bells using every notational freedom (implied places, crosses, "
                "case, separators, white space, symmetric and asymmetric blocks, extended bells); malformed notations made by breaking one; and "
                "every combination of formatting flags of random, palindromic and rotated-palindromic methods. Non-trivial: distinct text")
    ev = []
    def add(cmd, judge): ev.append((cmd, judge, "|".join(map(str, cmd))))
    def stage(): return rng.choice([3, 4, 5, 6, 6, 7, 8, 8, 9, 10, 12, 16, 33, 40, rng.randint(2, 33)])
    def rc(n): return R.rand_change(rng, n, rng.choice([.3, .7, .9, 1, 1]))
    def j_exp(n, den, head=True):
        want = ([str(n)] if head else []) + [str(len(den))] + [chs(c) for c in den]
        return lambda o: None if list(o) == want else "should expand to %s" % " ".join(R.cs(c) for c in den)
    for _ in range(ctx.n(8000, 200000)):
        n = stage(); blocks = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            blocks.append((rng.random() < .5, [rc(n) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9]))]))
        t, den = write(rng, blocks)
        add(("pn", str(n), t), j_exp(n, den)); ctx.count("well-formed")
        ctx.count("blocks %d" % len(blocks)); ctx.count("symmetric blocks", sum(1 for s, c in blocks if s and len(c) > 1))
        if rng.random() < .2: add(("pn_iter", str(n), t), j_exp(n, den, False))
    # well-known notations, written by hand
    KN = [(5, "3.1.5.1.5.1.5.1.5.1", "3.1.5.1.5.1.5.1.5.1"), (6, "&x16x16x16,12", "x16x16x16x16x16x12"), (6, "&-1-1-1,2", "x16x16x16x16x16x12"),
          (8, "&-38-14-1258-36-14-58-16-78,12", "x38x14x1258x36x14x58x16x78x16x58x14x36x1258x14x38x12"),
          (6, "+-3.4-2", "x36.14x12"), (7, "+3,&1.7.1.7.1.7.1", "3.1.7.1.7.1.7.1.7.1.7.1.7.1"), (5, "34.1", "345.1")]
    for n, t, full in KN: add(("pn", str(n), t), j_exp(n, R.pn(n, full)))
    # malformed
    def bad(o): return None if o.exc else "malformed place notation was expanded to %d changes" % (len(o) - 2)
    for _ in range(ctx.n(4000, 60000)):
        n = rng.choice([4, 5, 6, 7, 8, 12])
        t, den = write(rng, [(rng.random() < .5, [rc(n) for _ in range(rng.randint(1, 6))]) for _ in range(rng.randint(1, 2))])
        k = rng.choice(["place", "order", "parity", "char", "dots", "brace", "amp"])
        pre = t.rstrip().rstrip(",").rstrip(); sep = "." if pre else ""
        if k == "place": s = pre + sep + R.ch(n + rng.randint(0, 3))
        elif k == "order": i = rng.randint(1, n - 1); s = pre + sep + R.ch(i) + R.ch(rng.randint(0, i))
        elif k == "parity":
            i = rng.randint(0, n - 3); s = pre + sep + R.ch(i) + R.ch(i + 2)
        elif k == "char":
            i = rng.randint(0, len(pre)); s = pre[:i] + rng.choice("!/:;\"'#@*()=_?~}") + pre[i:]
        elif k == "dots": s = pre + ".." + "14"
        elif k == "brace": s = pre + sep + rng.choice(["{", "{1", "{x}", "{}", "{{1}}", "{0}", "{300}"])
        elif k == "amp": s = pre + rng.choice(["&", "+"]) + "x"
        add(("pn", str(n), s), bad); ctx.count("malformed " + k)
    # formatting
    def sym(n, k): cs = [rc(n) for _ in range(k)]; return cs + cs[-2::-1] + [rc(n)] if k > 1 else [cs[0], rc(n)]
    for _ in range(ctx.n(2500, 50000)):
        n = rng.choice([3, 4, 5, 6, 7, 8, 10, 12, 33, 35, rng.randint(2, 33)]); k = rng.random()
        if k < .35: m = [rc(n) for _ in range(rng.randint(1, 14))]
        elif k < .7: m = sym(n, rng.randint(1, 7))
        elif k < .9: m = sym(n, rng.randint(1, 7)); r = rng.randrange(len(m)); m = m[r:] + m[:r]
        else: m = [rc(n)] * rng.randint(1, 6)
        fl = [rng.choice([0, 1]) | rng.choice([0, 2]) | rng.choice([0, 4, 8, 16, 12]) | rng.choice([0, 32, 96]) | rng.choice([0, 128]) | rng.choice([0, 256]) for _ in range(6)]
        L = len(m)
        issym = L % 2 == 0 and all(m[(L // 2 - 1 + j) % L] == m[(L // 2 - 1 - j) % L] for j in range(1, L // 2))
        full = " ".join(chs(c) for c in m)
        def j(o, fl=fl, m=m, full=full, n=n, issym=issym, L=L):
            for i, f in enumerate(fl):
                t, back = o[2 * i], o[2 * i + 1]
                if f & 128:
                    # the lead head change is left out: a palindrome in symmetric form stops at the half lead
                    want = " ".join(chs(c) for c in m[:-1])
                    if back == "!exception": return "flags %o: %r cannot be expanded" % (f, t)
                    if back != want: return "flags %o: %r expands to %r, not to the method without its last change" % (f, t, back)
                elif back != full: return "flags %o: %r does not expand to the method again (%r)" % (f, t, back)
                x = "X" if f & 4 else "x" if f & 8 else "-" if f & 16 else "X"
                if any(q in t for q in "Xx-" if q != x): return "flags %o: wrong cross symbol in %r" % (f, t)
                body = t.replace("&", "").replace("+", "")
                if f & 1:
                    for q in range(1, len(body)):
                        if body[q] == x and body[q - 1] not in ".,": return "flags %o: dot missing before a cross in %r" % (f, t)
                        if body[q - 1] == x and body[q] not in ".,": return "flags %o: dot missing after a cross in %r" % (f, t)
                elif "." + x in t or x + "." in t: return "flags %o: needless dot in %r" % (f, t)
                if not f & 32 and ("&" in t or "," in t): return "flags %o: symmetric form used in %r" % (f, t)
                if f & 32 and issym and L > 2 and not t.startswith("&") and L != 2: return "flags %o: palindrome not written in symmetric form: %r" % (f, t)
                if not f & 256 and "+" in t: return "flags %o: unwanted + in %r" % (f, t)
                if f & 256 and not f & 32 and not t.startswith("+"): return "flags %o: + missing in %r" % (f, t)
                if not f & 32:
                    toks = ["X" if w == x else w for w in re.findall(r"[xX-]|[^.xX-]+", body)]
                    if len(toks) != len(m) - (1 if f & 128 else 0): return "flags %o: %r has %d changes" % (f, t, len(toks))
                    for c, w in zip(m, toks):
                        p = R.places(c)
                        if f & 2: e = R.cs(c)
                        else:
                            q = p
                            if len(p) > 1:
                                q = p[1:] if p[0] == 0 else p
                                if q and q[-1] == n - 1: q = q[:-1]
                                if not q: q = [0]
                            e = R.cs(c) if not p else "".join(R.SYM[b] if b < R.MAXB else "{%d}" % (b + 1) for b in q)
                        if n <= 33 and w != e: return "flags %o: change written %r, should be %r in %r" % (f, w, e, t)
        add(("format", str(n), R.pns(m)) + tuple(map(str, fl)), j); ctx.count("formats", len(fl))
    ctx.events(ev)
    ctx.minimum = {"well-formed": 1000, "formats": 1000, "symmetric blocks": 500}
