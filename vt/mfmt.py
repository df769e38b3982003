"""What methsearch's format strings and expressions stand for."""
import re
from . import ring as R, meth as M, msearch as S, libs as L

class Err(Exception): pass
class Stop(Exception):
    def __init__(s, kind): s.kind = kind
class Any:
    """a value which may be written in several ways: ok(text) says whether"""
    def __init__(s, kind, args, what): s.kind, s.args, s.what, s.memo = kind, args, what, {}
    def ok(s, t):
        if t not in s.memo: s.memo[t] = globals()[s.kind](*s.args)(t)
        return s.memo[t]

D5 = {}
for t in """A 13254 13524;B 14523 14253;G 12354 12534;H 13245 13425;J 14325 14235;K 12543 12453;C 15342 13524;D 12435 14253;E 12543 15234;F 14325 13452;Q 15432 15423;R 14523 14532;
S 12435 12453;T 12543 12534;U 14325 14352;V 15342 15324;M 14523 15423;N 15432 14532;W 12435 14235;X 14325 13425;Y 12543 15243;Z 15342 13542""".split(";"):
    c, le, lh = t.split(); D5[le, lh] = c
D6 = {}
for t in "135264 G 2 L 6;156342 H 2 M 6;164523 J 2 N 6;142635 K 2 O 6;142563 P 2;154632 S 2;165324 R 2;136245 Q 2;152364 T 6;165243 V 6;146532 U 6;134625 W 6;145362 X 4;162534 Y 4;136524 \u03bc 4;152643 \u03b8 4;164235 \u03b4 4;146325 \u03a8 4;154263 \u03a3 4;135642 \u03bb 4".split(";"):
    f = t.split()
    for c, p in zip(f[1::2], f[2::2]): D6[f[0], R.pc(6, {"2": "12", "6": "1", "4": "14"}[p])] = c

def oldcode(m, utf8):
    n = m[0][0]; lh = R.rs(R.leadhead(m, n))
    if n == 5: return D5.get((R.rs(R.leadhead(m[:-1], n) if len(m) > 1 else R.rounds(n)), lh), "?")
    if n == 6:
        c = D6.get((lh, m[-1]), "?")
        return c if ord(c) < 128 else c.encode("utf-8").decode("latin-1") if utf8 else "?"
    return "?"

def coursing(m):
    n = m[0][0]; lh = R.leadhead(m, n); x = lh; k = 0
    for _ in range(n + 1):
        if x[n - 1] == n - 2: break
        x = R.mul(x, lh)
    else: raise Err()
    # x takes the tenor to the bell coursing it
    out = [n - 2]
    while out[-1] != n - 1: out.append(x[out[-1]])
    return R.rs(out) if False else "".join(R.ch(b) for b in out)

def static(m):
    n, L = m[0][0], len(m); tot = 0
    for i in range(n - 1):
        t = []
        for c in m:
            p = R.places(c); t.append(i in c[1] or i in p and i + 1 in p)
        if all(t): return None
        j = t.index(False); run = 0
        for k in range(L):
            if t[(j + k) % L]: run += 1; tot += run > 1
            else: run = 0
    return tot

def pnok(m, o, le=True):
    """checks place notation printed by $q and its relations"""
    n = m[0][0]; want = list(m)
    cross = "X" if "upper" in o else "x" if "lower" in o else "-"
    def ok(t):
        # $Q leaves out the last change of a method which is a palindrome about it
        if any(c in t for c in "xX-" if c != cross): return False
        for b in t.split(","):
            pre = b[:1]; body = b.lstrip("&+")
            if pre == "&" and "nosym" in o: return False
            if "plus" in o and pre not in "&+": return False
            if "plus" not in o and pre == "+": return False
            if re.search(r"\.\.|^\.|\.\Z", body): return False
            dotted = re.search(r"\.%s|%s\." % (re.escape(cross), re.escape(cross)), body)
            if "dots" in o:
                if re.search(r"%s[^.]|[^.]%s" % (re.escape(cross), re.escape(cross)), body): return False
            elif dotted: return False
            if "external" in o:
                for q in re.split(r"[.%s]" % re.escape(cross), body):
                    if q:
                        try:
                            if R.cs(R.pc(n, q)) != q: return False
                        except R.Bad: return False
        try: got = L.parse_pn(n, t) if t else []
        except R.Bad: return False
        if not le: return got == want[:-1] or t.startswith("&") and got == want[:-1]
        return got == want
    return ok

class Ctx:
    """a method being printed, with what else is known of it"""
    def __init__(s, m, pay="", o=(), utf8=False, name=None, unnamed="Untitled", music=None, cid=None, num=0):
        s.m, s.pay, s.o, s.utf8, s.music, s.cid, s.num = m, pay, o, utf8, music, cid, num
        s.n = m[0][0]; s.lh = R.leadhead(m, s.n); s.base = unnamed if name is None else name
        s.cl = M.methclass(m); s.status = 0; s.memo = {}
        s.usual = len(s.cl) == 1

def title(c): return M.fullname(c.m, c.base, min(c.cl))

def var(c, v, a=0, b=0):
    k = (v, a, b)
    if k not in c.memo or v in "?":
        try: c.memo[k] = var2(c, v, a, b)
        except Err as e: c.memo[k] = "<ERROR>"
    return c.memo[k]
def var2(c, v, a, b):
    m, n = c.m, c.n; w = lambda x: str(x).rjust(a)
    if v in "pq" and a:
        if a > len(m) or b and (b > len(m) or b < a): raise Err()
        part = m[a - 1:b or a]
    else: part = m
    if v == "p": return ".".join(R.cs(x, "X") for x in part)
    if v == "q": return Any("pnok", (part, c.o), "notation of " + R.pns(part))
    if v == "Q": return Any("pnok", (part, c.o, False), "notation of %s without the last change" % R.pns(part))
    if v == "L": return w(len(m))
    if v == "l": return R.rs(c.lh)
    if v == "r":
        if a > len(m): raise Err()
        return R.rs(R.leadhead(m[:a], n) if a else R.rounds(n))
    if v == "h":
        if not 1 <= a <= len(m): raise Err()
        return R.cs(m[a - 1], "X")
    if v == "P":
        if not 1 <= a <= n: raise Err()
        return "".join(R.ch(x) for x in M.lead_path(m, a - 1))
    if v == "b": return w(M.maxblows(m))
    if v == "o": return w(R.order(c.lh))
    if v == "u": return w(sum(i == x for i, x in enumerate(c.lh)))
    if v == "G": return w(len(R.cycles(c.lh)))
    if v == "B": return w(n)
    if v == "d": return M.lhcode(m)
    if v == "D": return oldcode(m, c.utf8)
    if v == "y": return ("P" if S.has_P(m) else "") + ("M" if S.has_M(m) else "") + ("G" if S.has_G(m) else "") + ("R" if S.has_R(m) else "")
    if v == "n": return c.base
    if v == "N": return title(c)
    if v == "C": return M.classname(min(c.cl))
    if v == "S": return M.stagename(n)
    if v == "O": return coursing(m)
    if v == "s": return w(static(m))
    if v == "a": return c.pay
    if v == "#": return w(c.num)
    if v == "M": return w(c.music(m))
    if v == "i": return w("" if c.cid is None else c.cid)
    if v == "?": return w(c.status)
    if v == "F": return symbols(m)
    if v in "VU": return Any("work", (m, v), "the %s of %s" % ("overwork" if v == "V" else "underwork", R.pns(m)))
    raise KeyError(v)

def work(m, v):
    n = m[0][0]; p = M.lead_path(m, 0); lo = [min(p[i], p[i + 1]) for i in range(len(m))]; hi = [max(p[i], p[i + 1]) for i in range(len(m))]
    def ok(t):
        try: g = L.parse_pn(n, t)
        except R.Bad: return False
        if len(g) != len(m): return False
        return all([x for x in R.places(c) if (x > hi[i] if v == "V" else x < lo[i])] == [x for x in R.places(d) if (x > hi[i] if v == "V" else x < lo[i])] for i, (c, d) in enumerate(zip(m, g)))
    return ok

def symbols(m):
    from checks import c11 as F
    n = m[0][0]; lh = R.leadhead(m, n)
    A = R.ring_rows(m, R.rounds(n), False)
    Bi = [R.inv(x) for x in A]; FH = {R.mul(x, y) for x in A for y in Bi}; FH = {f for f in FH if f[0] == 0}
    pw = [R.rounds(n)]
    while True:
        x = R.mul(pw[-1], lh)
        if x == pw[0]: break
        pw.append(x)
    want = set()
    for f in FH:
        for a in pw:
            c = R.mul(a, f)
            for b in pw:
                d = R.mul(c, b)
                if d[n - 1] != n - 1 or n != 8 and any(d[i] != i for i in range(6, n)): continue
                want.add(d)
    Sy = {k for k in (F.name(d) for d in want) if k}
    must = {v for k, v in F.SPLIT.items() if k in want} if n == 8 else set()
    may = {v for v, c in F.SPLITCLASS.items() if n == 8 and c & want}
    opts = []; opt = sorted(may - must)
    for k in range(1 << len(opt)): opts.append("".join(sorted(Sy | must | {x for i, x in enumerate(opt) if k >> i & 1})))
    return Any("oneof", (opts,), "falseness " + opts[0])
def oneof(opts): return lambda t: t in opts

# ------------------------------------------------------------------ expressions
INT = re.compile(r"[+-]?\d+\Z")
LIM = 1 << 63
def toint(v):
    if isinstance(v, int): return v
    if not INT.match(v): raise Err()
    x = int(v)
    if not -LIM <= x < LIM: raise Err()
    return x
def lim(x):
    if not -LIM <= x < LIM: raise Err()
    return x
def ev(e, c):
    """value of an expression: an int or a string"""
    k = e[0]
    if k == "int" or k == "str": return e[1]
    if k == "var": return var(c, *e[1:])
    if k == "suppress" or k == "abort": raise Stop(k)
    if k == "sub":
        try: return str(ev(e[1], c))
        except Err: return "<ERROR>"
    if k == "?:": return ev(e[2], c) if toint(ev(e[1], c)) else ev(e[3], c)
    if k == ",": ev(e[1], c); return ev(e[2], c)
    if k == "&&": return int(bool(toint(ev(e[1], c)) and toint(ev(e[2], c))))
    if k == "||": return int(bool(toint(ev(e[1], c)) or toint(ev(e[2], c))))
    a, b = ev(e[1], c), ev(e[2], c)
    if k == ".": return str(a) + str(b)
    if k in ("eq", "ne", "lt", "gt", "le", "ge"):
        a, b = str(a).encode(), str(b).encode()
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}[k])
    if k == "~~":
        from checks import c12
        try: r = R.pr(a)
        except R.Bad: raise Err()
        return int(bool(c12.regex(b, c.n).match(c12.key(r))))
    a, b = toint(a), toint(b)
    if k in ("==", "!=", "<", ">", "<=", ">="): return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[k])
    if k == "+": return lim(a + b)
    if k == "-": return lim(a - b)
    if k == "*": return lim(a * b)
    if k in "/%":
        if not b: raise Err()
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return lim(q) if k == "/" else a - q * b
    raise KeyError(k)

PREC = {"*": 7, "/": 7, "%": 7, "+": 6, "-": 6, ".": 6, "<": 5, ">": 5, "<=": 5, ">=": 5, "lt": 5, "gt": 5, "le": 5, "ge": 5,
        "==": 4, "!=": 4, "eq": 4, "ne": 4, "~~": 3, "&&": 2, "||": 1, "?:": 0, ",": -1}
def text(rng, e):
    sp = lambda: rng.choice(["", " ", " ", "  "])
    k = e[0]
    if k == "int": return ("0" * rng.choice([0] * 9 + [1, 2]) + str(e[1]))
    if k == "str":
        q = "'" if '"' in e[1] else '"' if "'" in e[1] else rng.choice("'\"")
        t = ""
        for ch in e[1]:
            if ch in "[]()$%" or rng.random() < .03: t += "\\x%02x" % ord(ch) if ch not in "$" or rng.random() < .6 else "\\$"
            elif ch == "\\": t += "\\\\"
            elif ch == "\t": t += "\\t"
            else: t += ch
        return q + t + q
    if k == "var": return "$" + num(e) + e[1]
    if k in ("suppress", "abort"): return k
    if k == "sub": return "$[" + sp() + text(rng, e[1]) + sp() + "]"
    def side(x, p, strict):
        t = text(rng, x); q = PREC.get(x[0], 9)
        if q < p or strict and q == p or rng.random() < .1: return "(" + sp() + t + sp() + ")"
        return t
    if k == "?:": return side(e[1], 0, True) + sp() + "?" + sp() + side(e[2], 0, True) + sp() + ":" + sp() + side(e[3], 0, False)
    p = PREC[k]; s = (" ", " ") if k.isalpha() else (sp(), sp())
    if k == "&&" or k == "||": l, r = side(e[1], p, False), side(e[2], p, True)
    else: l, r = side(e[1], p, False), side(e[2], p, True)
    return l + s[0] + k + s[1] + r
def num(e):
    a, b = (e[2:] + (0, 0))[:2]
    if e[1] in "rh": return str(a)
    return ("%d,%d" % (a, b) if b else str(a) if a else "")

def gen(rng, c, depth, kind=None, lib=False):
    """a random expression; c: what a method is like, for likely constants"""
    kind = kind or rng.choice("iis")
    bad = rng.random() < .02
    if kind == "i":
        if bad and depth: kind2 = "s"; return gen(rng, c, depth - 1, "s", lib)
        if depth <= 0 or rng.random() < .25:
            k = rng.random()
            if k < .45: return ("int", rng.choice([0, 1, 1, 2, 2, 3, 5, 7, 10, 12, 40, 100, 32, 4]))
            if k < .48: return ("int", rng.choice([LIM - 1, 2 ** 62, 2 ** 32, 2 ** 31 - 1]))
            if k < .52: return ("str", rng.choice(["-3", "+4", "-1", "007", "-9223372036854775808"]))
            return ("var", rng.choice("LbouBGLbouBGs" + ("M" if c.music else "")))
        k = rng.random()
        if k < .4: o = rng.choice("+-*/%+-*/"); return (o, gen(rng, c, depth - 1, "i", lib), gen(rng, c, depth - 1, "i", lib))
        if k < .6: return (rng.choice(["==", "!=", "<", ">", "<=", ">="]), gen(rng, c, depth - 1, "i", lib), gen(rng, c, depth - 1, "i", lib))
        if k < .72: return (rng.choice(["eq", "ne", "lt", "gt", "le", "ge"]), gen(rng, c, depth - 1, "s", lib), gen(rng, c, depth - 1, rng.choice("sssi"), lib))
        if k < .86: return (rng.choice(["&&", "||"]), gen(rng, c, depth - 1, "i", lib), gen(rng, c, depth - 1, "i", lib))
        if k < .92: return ("~~", rng.choice([("var", "l"), ("var", "r", rng.randint(0, len(c.m)))]), ("str", pattern(rng, c)))
        if k < .97: return ("?:", gen(rng, c, depth - 1, "i", lib), gen(rng, c, depth - 1, "i", lib), gen(rng, c, depth - 1, "i", lib))
        return rng.choice([("sub", gen(rng, c, depth - 1, "i", lib)), (",", gen(rng, c, depth - 1, "s", lib), gen(rng, c, depth - 1, "i", lib))])
    if depth <= 0 or rng.random() < .35:
        k = rng.random()
        if k < .3: return ("str", rng.choice(["", "a", "b c", "PGR", "P", "X.", "12", "z", "Minor", "Untitled", "don't", 'say "x"', "]", "(", "a$b", "100%", "\\", "\t", "lt", "suppress", "Bob"]))
        L = len(c.m); q = rng.choice("plldDySaCOrhPpVp" + ("nN" if lib else ""))
        if q == "V" or q == "C" and not c.usual: q = "l"
        if q == "r": return ("var", "r", rng.randint(0, L + (rng.random() < .05)))
        if q == "h": return ("var", "h", rng.randint(1, L + (rng.random() < .05)))
        if q == "P": return ("var", "P", rng.randint(1, c.n))
        if q == "p" and rng.random() < .6:
            a = rng.randint(1, L); return ("var", "p", a, rng.choice([0, rng.randint(a, L)]))
        return ("var", q)
    k = rng.random()
    if k < .5: return (".", gen(rng, c, depth - 1, rng.choice("si"), lib), gen(rng, c, depth - 1, rng.choice("ssi"), lib))
    if k < .8: return ("?:", gen(rng, c, depth - 1, "i", lib), gen(rng, c, depth - 1, "s", lib), gen(rng, c, depth - 1, "s", lib))
    if k < .9: return (",", gen(rng, c, depth - 1, None, lib), gen(rng, c, depth - 1, "s", lib))
    return ("sub", gen(rng, c, depth - 1, "s", lib))
def pattern(rng, c):
    r = list(R.leadhead(c.m[:rng.randint(0, len(c.m))] or c.m, c.n)); k = rng.random(); n = c.n
    if k < .4: i = rng.randint(1, n); return "".join(R.ch(b) for b in r[:i]) + rng.choice(["*", ""])
    if k < .7: i = rng.randint(0, n - 1); return "*" + "".join(R.ch(b) for b in r[i:])
    if k < .85: i = rng.randrange(n); return "*" + R.ch(r[i]) + "*"
    return "".join(R.ch(b) if rng.random() < .6 else "?" for b in r)

# ------------------------------------------------------------------ music
def blockrows(kind, start, m):
    """(row, at backstroke) for a block of the method"""
    n = m[0][0]; L = len(m); h = L // 2; out = []
    def back(i): return i % 2 == 0
    if kind == "course":
        r = start; i = 0
        while True:
            for c in m: r = R.ap(r, c); i += 1; out.append((r, back(i)))
            if r == start: return out
    rel = R.ring_rows(m, R.rounds(n))
    if kind == "lead": idx, base = range(0, L), 0
    elif kind == "halflead": idx, base = range(0, h), 0
    elif kind == "2halflead": idx, base = range(h, L), h
    elif kind == "rhalflead": idx, base = range(0, h), h - 1
    elif kind == "2rhalflead": idx, base = range(h, L), L - 1
    t = R.mul(start, R.inv(rel[base]))
    return [(R.mul(t, rel[i]), back(i)) for i in idx]
def scorer(n, batches):
    """batches: [([(kind, row)], [(pattern or <name>, h, b)])]"""
    from checks import c12
    comp = []
    for bl, ps in batches:
        fs = []
        for p, h, b in ps:
            if p[0] == "<": fs += [(f, h, b) for f in c12.named(n, p[1:-1])]
            else:
                rx = c12.regex(p, n); fs.append((lambda r, rx=rx: bool(rx.match(c12.key(r))), h, b))
        comp.append((bl, fs))
    def score(m):
        t = 0
        for bl, fs in comp:
            for kind, st in bl:
                for r, back in blockrows(kind, st, m):
                    for f, h, b in fs:
                        if f(r): t += b if back else h
        return t
    return score
