"""Independent model of change ringing, written from the documentation.

Rows are tuples of 0-based bells.  A change is (n, frozenset-free tuple of the
lower positions of the swapped pairs).  Mixed stages: the shorter object is
extended by bells (places) that stay where they are.
"""
import math
from itertools import permutations
from functools import lru_cache

SYM = "1234567890ETABCDFGHJKLMNPQRSUVWYZ"
MAXB = len(SYM)


class Bad(Exception):
    """The text is malformed."""


# ---------------------------------------------------------------- rows
def rounds(n): return tuple(range(n))
def ext(r, n): return r + tuple(range(len(r), n)) if len(r) < n else r
def mul(a, b):
    n = max(len(a), len(b)); a = ext(a, n); b = ext(b, n)
    return tuple([a[x] for x in b])
def inv(a):
    r = [0] * len(a)
    for i, x in enumerate(a): r[x] = i
    return tuple(r)
def div(a, b):
    """the row q with q*b == a"""
    return mul(a, inv(b)) if len(a) or len(b) else ()
def power(a, n):
    if n < 0: return power(inv(a), -n)
    r = rounds(len(a)); b = a
    while n:
        if n & 1: r = mul(r, b)
        b = mul(b, b); n >>= 1
    return r
def cycles(a):
    seen = set(); out = []
    for i in range(len(a)):
        if i in seen: continue
        c = []
        while i not in seen:
            seen.add(i); c.append(i); i = a[i]
        out.append(c)
    return out
def order(a):
    o = 1
    for c in cycles(a): o = o * len(c) // math.gcd(o, len(c))
    return o
def sign(a): return 1 if (len(a) - len(cycles(a))) % 2 == 0 else -1
def ch(b): return SYM[b]
def rs(r): return "".join(SYM[b] if b < MAXB else "{%d}" % (b + 1) for b in r)
def bell_of(c):
    c = c.upper()
    if c == "I": c = "1"
    if c == "O": c = "0"
    i = SYM.find(c)
    if i < 0 or len(c) != 1: raise Bad("bell %r" % c)
    return i
def pr(s):
    """parse a row (no extended bells)"""
    r = tuple(bell_of(c) for c in s)
    if sorted(r) != list(range(len(r))): raise Bad(s)
    return r
def closure(gens, n):
    e = rounds(n); S = {e}; todo = [e]
    gens = [ext(g, n) for g in gens]
    while todo:
        x = todo.pop()
        for g in gens:
            y = mul(x, g)
            if y not in S: S.add(y); todo.append(y)
    return S
def rand_row(rng, n):
    r = list(range(n)); rng.shuffle(r); return tuple(r)
def pblh(n, h=1):
    r = rounds(n)
    r = ap(r, (n, tuple(range(h, n - 1, 2))))
    return ap(r, (n, tuple(range(h + 1, n - 1, 2))))

# ---------------------------------------------------------------- changes
def ap(r, c):
    """apply a change to a row"""
    n, sw = c
    r = list(ext(r, n))
    for s in sw: r[s], r[s + 1] = r[s + 1], r[s]
    return tuple(r)
def cperm(c): return ap(rounds(c[0]), c)
def places(c):
    n, sw = c
    inq = set(sw) | {s + 1 for s in sw}
    return [i for i in range(n) if i not in inq]
def from_places(n, pl):
    """places as denoted by place notation; implied external places are added"""
    last = -1
    sw = []
    cur = 0
    first = True
    for p in pl:
        if p >= n or p <= last: raise Bad("place")
        gap = p - cur
        if gap % 2:
            if not first: raise Bad("parity")
            cur = 1
        while cur < p: sw.append(cur); cur += 2
        cur = p + 1; last = p; first = False
    while cur + 1 < n: sw.append(cur); cur += 2
    return (n, tuple(sw))
def pc(n, s):
    """parse a single change"""
    if s in ("X", "x", "-"): return from_places(n, [])
    if s == "":
        if n: raise Bad("empty")
        return (0, ())
    return from_places(n, [bell_of(c) for c in s])
def cs(c, cross="X"):
    p = places(c)
    return "".join(SYM[x] if x < MAXB else "{%d}" % (x + 1) for x in p) if p or c[0] == 0 else cross
def internal(c): return any(0 < p < c[0] - 1 for p in places(c))
def csign(c): return -1 if len(c[1]) % 2 else 1
def rand_change(rng, n, dens=0.75, cross=True):
    while True:
        sw = []; i = 0
        while i < n - 1:
            if rng.random() < dens: sw.append(i); i += 2
            else: i += 1
        return (n, tuple(sw))
def all_changes(n):
    out = []
    def rec(i, sw):
        if i >= n - 1:
            out.append((n, tuple(sw))); return
        rec(i + 1, sw)
        rec(i + 2, sw + [i])
    if n <= 0: return [(n, ())]
    rec(0, [])
    return sorted(set(out))

# ---------------------------------------------------------------- methods
def pn(n, s):
    """expand place notation: blocks separated by ',', '&' = palindromic"""
    out = []
    for blk in s.split(","):
        b = blk.strip()
        sym = False
        if b[:1] in "&+" and b: 
            sym = b[0] == "&"; b = b[1:].strip()
            if b[:1] == ".": b = b[1:]
        chs = []
        cur = ""
        toks = []
        for c in b:
            if c in "xX-":
                if cur: toks.append(cur); cur = ""
                toks.append("X")
            elif c == "." or c.isspace():
                if cur: toks.append(cur); cur = ""
            else: cur += c
        if cur: toks.append(cur)
        chs = [pc(n, t) for t in toks]
        out += chs
        if sym: out += chs[-2::-1] if len(chs) > 1 else []
    return out
def pns(chs, cross="X"):
    """canonical place notation: dots between non-cross changes"""
    s = ""; dot = False
    for c in chs:
        t = cs(c, cross)
        if t == cross: s += t; dot = False
        else: s += ("." if dot else "") + t; dot = True
    return s
def ring_rows(chs, start, include_final=True):
    """rows from start; len(chs)+1 rows if include_final"""
    rows = [start]; r = start
    for c in chs:
        r = ap(r, c); rows.append(r)
    return rows if include_final else rows[:-1]
def leadhead(chs, n): 
    return ring_rows(chs, rounds(n))[-1]
def perms(n): return permutations(range(n))
