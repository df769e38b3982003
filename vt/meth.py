"""Independent facts about a method: a list of changes on n bells."""
from . import ring as R

def moves(c, p):
    for s in c[1]:
        if s == p: return p + 1
        if s + 1 == p: return p - 1
    return p

def pal_about(m, i):
    L = len(m)
    return all(m[(i + j) % L] == m[(i - j) % L] for j in range(1, L // 2 + (L % 2)))
def sym_point(m):
    L = len(m)
    if L % 2: return -1
    for i in range(L // 2):
        if pal_about(m, i): return i
    return -1
def pal_bell(m, b, i):
    """even length only"""
    L = len(m); p = b
    for k in range((i + 1) % L): p = moves(m[k], p)
    if moves(m[i], p) != p: return False
    q = p
    for j in range(1, L // 2):
        p, q = moves(m[(i + j) % L], p), moves(m[(i - j) % L], q)
        if p != q: return False
    return moves(m[(i + L // 2) % L], p) == p
def sym_point_bell(m, b):
    L = len(m)
    if L % 2: return -1
    for i in range(L // 2):
        if pal_bell(m, b, i): return i
    return -1
def isdouble(m):
    L = len(m); n = m[0][0]
    if L % 2: return False
    rev = lambda c: (n, tuple(sorted(n - 2 - s for s in c[1])))
    return all(m[i] == rev(m[i + L // 2]) for i in range(L // 2))
def lead_path(m, b):
    p = [b]
    for c in m: p.append(moves(c, p[-1]))
    return p
def isplain(m, b):
    """leads/lies twice and otherwise keeps moving the same way, out first from odd places"""
    d = -1 if b % 2 else 1; turns = 0; p = b
    for c in m:
        q = moves(c, p)
        if q == p: turns += 1; d = -d
        elif q - p != d: return False
        p = q
    return p == b and turns == 2
def hasdodges(m, b):
    p = lead_path(m, b); p.append(moves(m[0], p[-1]))
    return any(p[k] == p[k + 2] != p[k + 1] for k in range(len(p) - 2))
def hasplaces(m, b):
    n = m[0][0]; p = lead_path(m, b)
    return any(p[k] == p[k + 1] and 0 < p[k] < n - 1 for k in range(len(m)))
def maxblows(m):
    L = len(m); best = 1
    for pl in range(m[0][0]):
        mk = [pl in R.places(c) for c in m]
        if all(mk): best = max(best, L + 1); continue
        for i in range(L):
            k = 0
            while mk[(i + k) % L]: k += 1
            if not mk[i - 1]: best = max(best, k + 1)
    return best
def pblh_index(r):
    n = len(r); h = 0
    while h < n and r[h] == h: h += 1
    if h == 0: return 0
    l = R.pblh(n, h); x = l
    for i in range(1, n - h):
        if x == r: return i
        x = R.mul(x, l)
    return 0
def lhcode(m):
    from math import gcd
    n = m[0][0]; lh = R.leadhead(m, n); k = pblh_index(lh)
    if not k: return "z"
    if lh[0] != 0 or (n > 2 and lh[2] == 2): return "z"
    if lh[1] == 1:
        typ = {R.pc(n, "X"): 1, R.from_places(n, [2]): 2}.get(m[0], 0)
        o = n - 2; k = o - k
    else:
        typ = {R.from_places(n, [0]): 1, R.from_places(n, [0, 1]): 2}.get(m[-1], 0)
        o = n - 1
    if not typ or gcd(k, o) > 1: return "z"
    # code letters run a,b,c,c1,c2,.. up from the first plain bob lead head and
    # f,e,d,d1,d2,.. down from the last (p,p1,.. and q,q1,.. when the order is even);
    # g,h,j,j1.. / m,l,k,k1.. and r / s with the other lead end
    up = k <= o // 2; d = k if up else o - k
    if o % 2:
        base = ("abc" if up else "fed") if typ == 2 else ("ghj" if up else "mlk")
        return base[min(d, 3) - 1] + (str(d - 3) if d > 3 else "")
    return (("p" if up else "q") if typ == 2 else ("r" if up else "s")) + (str(d - 1) if d > 1 else "")

M = dict(PRINCIPLE=1, BOB=2, PLACE=3, TREBLE_BOB=4, SURPRISE=5, DELIGHT=6, TREBLE_PLACE=7, ALLIANCE=8, HYBRID=9, SLOW=10, DIFF=0x10, LITTLE=0x80)
NAMES = {1: "", 2: "Bob", 3: "Place", 4: "Treble Bob", 5: "Surprise", 6: "Delight", 7: "Treble Place", 8: "Alliance", 9: "", 10: "Slow Course"}
STAGE = ["Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus", "Sextuples", "Fourteen",
         "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty", "Decuples", "Twenty-two"]

def methclass(m, year=9999):
    """Returns the set of admissible classifications (normally one)."""
    n = m[0][0]; L = len(m); lh = R.leadhead(m, n)
    fixed = [b for b in range(n) if lh[b] == b]
    sizes = sorted({len(c) for c in R.cycles(lh) if len(c) > 1})
    cl = 0
    if year >= 2019:
        if len(sizes) > 1: cl |= M["DIFF"]
    elif len([c for c in R.cycles(lh) if len(c) > 1]) > 1: cl |= M["DIFF"]
    if not fixed: return {cl | M["PRINCIPLE"]}
    hb = fixed[0]; path = lead_path(m, hb)
    lo, hi = min(path), max(path)
    if lo > 0 or hi < n - 1: cl |= M["LITTLE"]
    if L % 2: return {cl | M["HYBRID"]}
    pts = [i for i in range(L // 2) if pal_bell(m, hb, i)]
    if not pts: return {cl | M["HYBRID"]}
    st = [path[(k + 1)] - path[k] for k in range(L)]
    if isplain(m, hb):
        if year < 2019 and hb == 0 and n > 1 and lh[1] == 1 and pal_bell(m, 1, L // 2 - 1): return {cl | M["SLOW"]}
        return {cl | (M["BOB"] if any(hasdodges(m, b) for b in range(n)) else M["PLACE"])}
    usual = pts == [L // 2 - 1]
    everything = {cl | M[k] for k in ("BOB", "PLACE", "TREBLE_BOB", "SURPRISE", "DELIGHT", "TREBLE_PLACE", "ALLIANCE")}
    if sum(1 for d in st if d == 0) == 2 and all(st[k] == st[(k + 1) % L] or 0 in (st[k], st[(k + 1) % L]) for k in range(L)):
        # a plain hunting path, started somewhere else than usual: not settled here
        return everything
    cnt = [path[:L].count(p) for p in range(lo, hi + 1)]
    if len(set(cnt)) > 1: return {cl | M["ALLIANCE"]}
    if not usual: return {cl | M[k] for k in ("TREBLE_BOB", "SURPRISE", "DELIGHT", "TREBLE_PLACE")}
    extra = [k for k in range(L) if st[k] == 0 and k not in (L // 2 - 1, L - 1)]
    if extra: return {cl | M["TREBLE_PLACE"]}
    if hi - lo == 1: return {cl | M["TREBLE_BOB"]}
    # treble dodging: cross sections are where the hunt bell passes from one dodging position to the next
    rng = hi - lo + 1
    tdb = {cl | M[k] for k in ("TREBLE_BOB", "SURPRISE", "DELIGHT")}
    if rng % 2 or path[0] != lo: return tdb
    half = path[:L // 2]; per = L // rng
    blocks = [half[k * per:(k + 1) * per] for k in range(rng // 2)]
    if per * rng != L or any(set(b) != {lo + 2 * k, lo + 2 * k + 1} for k, b in enumerate(blocks)): return tdb
    cross = [k for k in range(L) if k not in (L // 2 - 1, L - 1) and (path[k] - lo) // 2 != (path[k + 1] - lo) // 2]
    ints = [R.internal(m[k]) for k in cross]
    if not any(ints): return {cl | M["TREBLE_BOB"]}
    if all(ints): return {cl | M["SURPRISE"]}
    return {cl | M["DELIGHT"]}

def classname(cl, year=9999):
    w = []
    if cl & M["DIFF"]: w.append("Differential")
    if cl & M["LITTLE"]: w.append("Little")
    k = cl & 15
    nm = NAMES.get(k, "") if not (k == 9 and year < 2019) else "Hybrid"
    if nm: w.append(nm)
    return " ".join(w)
def stagename(n): return STAGE[n - 3] if 3 <= n <= 22 else str(n)
def fullname(m, name, cl, year=9999):
    n = m[0][0]; w = [name] if name else []
    if name in ("Grandsire", "Reverse Grandsire", "Double Grandsire", "Little Grandsire"): pass
    elif n > 5 and name in ("Union", "Double Union", "Reverse Union"): pass
    else:
        c = classname(cl, year)
        if c: w.append(c)
    return " ".join(w + [stagename(n)])

# --------------------------------------------------------------- generators
def treble_path(n, kind, rng=None):
    """positions of the treble before each change of a lead, cyclic"""
    if kind == "plain": h = list(range(n))
    elif kind == "tb": 
        h = []
        for k in range(0, n - 1, 2): h += [k, k + 1, k, k + 1]
        if n % 2: h = list(range(n))
    elif kind == "little":
        t = rng.randint(1, n - 1); h = list(range(t))  or [0]
    elif kind == "tplace":
        h = []
        for k in range(n): h += [k, k]
    elif kind == "alliance":
        h = [0, 1, 0, 1] + list(range(2, n))
    elif kind == "littletb":
        t = rng.randrange(2, n + 1, 2); h = []
        for k in range(0, t, 2): h += [k, k + 1, k, k + 1]
    elif kind == "dd":
        h = []
        for k in range(0, n - 1, 2): h += [k, k + 1] * 3
    return h + h[::-1]

def with_treble(rng, n, path, sym=True, tries=200):
    """random method whose first bell follows path"""
    L = len(path)
    def pick(a, b):
        for _ in range(tries):
            sw = []; i = 0; dens = rng.choice([.5, .8, .9, 1])
            forced = min(a, b) if a != b else None
            while i < n - 1:
                if i == forced: sw.append(i); i += 2; continue
                if i + 1 == forced or (forced is None and a in (i, i + 1)): i += 1; continue
                if rng.random() < dens: sw.append(i); i += 2
                else: i += 1
            return (n, tuple(sw))
    half = [pick(path[k], path[(k + 1) % L]) for k in range(L // 2)]
    if sym: m = half + half[-2::-1]
    else: m = half + [pick(path[k], path[(k + 1) % L]) for k in range(L // 2, L - 1)]
    return m + [pick(path[L - 1], path[0])]

def random_method(rng, n=None, maxlen=16):
    n = n or rng.choice([3, 4, 5, 6, 6, 7, 8, 8, 9, 10, 12])
    k = rng.random()
    if k < .2: m = [R.rand_change(rng, n, rng.choice([.5, .9, 1])) for _ in range(rng.randint(1, maxlen))]
    elif k < .3:
        h = [R.rand_change(rng, n, .9) for _ in range(rng.randint(1, maxlen // 2))]
        m = h + h[-2::-1] + [R.rand_change(rng, n, .9)] if len(h) > 1 else h * 2
    elif k < .35:      # rotational symmetry
        h = [R.rand_change(rng, n, .9) for _ in range(rng.randint(1, maxlen // 2))]
        m = h + [(n, tuple(sorted(n - 2 - s for s in c[1]))) for c in h]
    else:
        kind = rng.choice(["plain", "plain", "tb", "tb", "little", "tplace", "alliance", "littletb", "dd"])
        if n < 4: kind = "plain"
        m = with_treble(rng, n, treble_path(n, kind, rng), rng.random() < .8)
        if rng.random() < .4:
            m[-1] = R.from_places(n, [0, 1]) if rng.random() < .6 else R.from_places(n, [0])
            if m[-1][0] % 2 and rng.random() < .5: m[-1] = R.from_places(n, [0])
    if rng.random() < .1 and len(m) > 1:
        r = rng.randrange(len(m)); m = m[r:] + m[:r]
    return m

def regular_method(rng, n, tries=60):
    """biased to plain bob lead heads: mutate plain bob-like methods"""
    for _ in range(tries):
        m = with_treble(rng, n, treble_path(n, rng.choice(["plain", "tb"] if n % 2 == 0 else ["plain"])), True)
        m[-1] = R.from_places(n, [0, 1]) if rng.random() < .6 else R.from_places(n, [0])
        if pblh_index(R.leadhead(m, n)): return m
    return m
