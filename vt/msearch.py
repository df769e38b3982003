"""What a method search was asked for, decided by definition: an independent enumeration of every method meeting a set of requirements, and a test of a single method."""
import random, re
from functools import lru_cache
from . import ring as R, meth as M
from .fch import FCH

@lru_cache(None)
def changes(n): return tuple(R.all_changes(n))
@lru_cache(None)
def rev(c): return (c[0], tuple(sorted(c[0] - 2 - s for s in c[1])))
@lru_cache(None)
def pls(c): return tuple(R.places(c))
@lru_cache(None)
def inner(c): return R.internal(c)
@lru_cache(None)
def adj(c):
    best = run = 0
    for i in range(c[0]):
        run = run + 1 if i in pls(c) else 0
        best = max(best, run)
    return best
def mv(c, p): return M.moves(c, p)

class Cfg:
    def __init__(s):
        s.n = 6; s.U = 1; s.d = 0; s.f = 0; s.b = None; s.L = None
        s.sym = ""; s.mirror = s.floating = False
        s.p = s.l = s.j = 0; s.w = s.fo = s.y = s.long = False; s.cls = None
        s.e = s.E = s.r = s.c = s.A = s.anyreg = s.parity = s.offset = False
        s.hl = ()                       # half-lead requirements
        s.level = "l"; s.x = False; s.N = 1; s.start = None; s.avoid = (); s.gens = (); s.ext = ""; s.cps = False; s.groups = None
        s.mask = None; s.only = None; s.never = None; s.rows = {}; s.prefix = (); s.pts = ()
    def ready(s):
        n = s.n
        if s.b is None: s.b = n - 1
        K = s.b - s.f + 1; s.div = 2 * (1 + s.d)
        if s.U:
            t = []
            if s.d == 0: t = list(range(s.f, s.b + 1))
            else:
                for a in range(s.f, s.b, 2): t += [a, a + 1] * (1 + s.d)
            t = t + t[::-1]; s.L = len(t)
            s.t = t
            s.hunts = []
            for g in range(s.U):
                k = (g + 1) // 2 * s.div * (1 if g % 2 == 0 else -1)
                s.hunts.append([t[(i + k) % s.L] for i in range(s.L + 1)])
            for g, h in enumerate(s.hunts): assert h[0] == s.f + g, (s.U, s.d, h)
        s.so = 1 + s.d if s.U and s.U % 2 == 0 else 0
        s.first = s.start if s.start else R.rounds(n)
        s.P = sorted(R.closure(s.gens, n)) if s.gens else [R.rounds(n)]
        s.bad = {label(s, R.ext(a, n)) for a in s.avoid}
        # positions related by the symmetries
        L = s.L; s.link = [[] for _ in range(L)]
        def tie(i, j, r): s.link[i].append((j, r)); s.link[j].append((i, r))
        if not s.floating and s.sym:
            full = len(s.sym) >= 2
            for i in range(L):
                if full or "s" in s.sym: tie(i, (2 * (s.so - 1) - i) % L, False)
                if full or "d" in s.sym: tie(i, (i + L // 2) % L, True)
                if full or "k" in s.sym:
                    Q = L // 4 - 1 + s.so
                    tie(i, (2 * Q - i + (0 if L % 4 == 0 else 1)) % L, True)
        # each position's orbit: (representative, reversed?)
        s.rep = [None] * L; s.members = {}; s.selfrev = set()
        for i in range(L):
            if s.rep[i] is not None: continue
            s.rep[i] = (i, False); mem = [(i, False)]; todo = [i]
            while todo:
                x = todo.pop()
                for y, r in s.link[x]:
                    rr = s.rep[x][1] ^ r
                    if s.rep[y] is None: s.rep[y] = (i, rr); mem.append((y, rr)); todo.append(y)
                    elif s.rep[y][1] != rr: s.selfrev.add(i)
            s.members[i] = mem
        if s.mask and s.sym and not s.floating:
            # what the mask asks of one position it asks of those tied to it
            def flip(x): return tuple(sorted(n - 2 - y for y in x))
            def meet(a, b): return b if a is None else a if b is None else tuple(x for x in a if x in b)
            while True:
                new = list(s.mask)
                for i in range(L):
                    f, a, b = new[i]
                    for j, r in s.link[i]:
                        g, c, d = s.mask[j]
                        if r:
                            g = None if g is None else tuple(map(rev, g))
                            c, d = (None if d is None else tuple(map(flip, d))), (None if c is None else tuple(map(flip, c)))
                        f, a, b = meet(f, g), meet(a, c), meet(b, d)
                    new[i] = (f, a, b)
                if new == s.mask: break
                s.mask = new
        return s

def label(s, r): return r if len(s.P) == 1 else min(R.mul(q, r) for q in s.P)

def masked(s, i):
    """(full alternatives or None, above or None, below or None)"""
    return s.mask[i] if s.mask else (None, None, None)
def split(s, c, i):
    lo = min(h[i + k] for h in s.hunts for k in (0, 1)); hi = max(h[i + k] for h in s.hunts for k in (0, 1))
    return tuple(x for x in c[1] if x > hi), tuple(x for x in c[1] if x + 1 < lo)

def allowed(s, c, i):
    """may the change c be made at position i, on its own account?"""
    n = s.n; full, ab, be = masked(s, i); free = s.U == 0 and full is not None
    if s.U and any(mv(c, h[i]) != h[i + 1] for h in s.hunts): return False
    if full is not None and c not in full: return False
    oa = ob = full is not None
    if ab is not None or be is not None:
        a, b = split(s, c, i)
        if ab is not None:
            if a not in ab: return False
            oa = True
        if be is not None:
            if b not in be: return False
            ob = True
    if i < len(s.prefix) and c != s.prefix[i]: return False
    P = pls(c)
    if not free:
        if not s.x and len(P) == n: return False
        if s.l and len(P) > s.l: return False
        if s.j and adj(c) > s.j: return False
        if s.only is not None and c not in s.only: return False
        if s.never is not None and c in s.never: return False
        if s.mirror and rev(c) != c: return False
    if s.w:
        if s.U == 0:
            if not free and i % 2 == 0 and P: return False
        else:
            lo = min(h[i + k] for h in s.hunts for k in (0, 1)); hi = max(h[i + k] for h in s.hunts for k in (0, 1))
            below = [x for x in P if x < lo]; above = [x for x in P if x > hi]
            if n % 2 == 0 and i % 2 == 0:
                if above and not oa or below and not ob: return False
            if n % 2:
                if i % 2 == 0 and below and not ob: return False
                if i % 2 == 1 and above and not oa: return False
    if s.fo:
        both = s.sym.strip("s") != "" or s.mirror or len(s.sym) > 1
        if s.U == 0:
            if not free and (n - 2 in P or both and not s.mirror and 1 in P): return False
        else:
            hi = max(h[i + k] for h in s.hunts for k in (0, 1)); lo = min(h[i + k] for h in s.hunts for k in (0, 1))
            if n - 2 in P and hi < n - 2 and not oa: return False
            if both and 1 in P and lo > 1 and not ob: return False
    L = s.L
    if s.e and i == (L + s.so - 1) % L and c not in limited(s): return False
    if s.cls and s.U and i % s.div == s.div - 1 and i != L - 1 and i != L // 2 - 1:
        if s.cls == "S" and not inner(c): return False
        if s.cls == "T" and inner(c): return False
        if s.cls in ("3", "4"):
            where = min(s.t[i], s.t[i + 1])       # 1: between 2-3, 3: between 4-5
            if inner(c) != (where == (3 if s.cls == "3" else 1)): return False
    return True

def limited(s):
    return (R.from_places(s.n, [0]), R.from_places(s.n, [0, s.U]))

def blows_ok(s, m):
    if not s.p: return True
    L = len(m)
    for i in range(s.n):
        at = [i in pls(c) for c in m]
        if s.long:
            e = (L + s.so - 1) % L
            seq = [at[(e + 1 + k) % L] for k in range(L - 1)]
            best = run = 0
            for x in seq:
                run = run + 1 if x else 0; best = max(best, run)
            if best and best + 1 > s.p or s.p < 1: return False
            continue
        if all(at):
            if L + 1 <= s.p: return None
            return False
        k0 = at.index(False); best = run = 0
        for k in range(L):
            run = run + 1 if at[(k0 + k) % L] else 0; best = max(best, run)
        if best and best + 1 > s.p: return False
    return True

def symmetric(s, m):
    L = len(m); full = len(s.sym) >= 2
    if s.mirror and any(rev(c) != c for i, c in enumerate(m) if not (s.U == 0 and masked(s, i)[0] is not None)): return False
    if not s.sym: return True
    if s.floating:
        for q in ("skd" if full else s.sym):
            if q == "s" and not has_P(m): return False
            if q == "d" and not has_G(m): return False
            if q == "k" and not has_R(m): return False
        return True
    return all(m[i] == (rev(m[j]) if r else m[j]) for i in range(L) for j, r in s.link[i])
def has_P(m):
    L = len(m)
    return any(all(m[(i + j) % L] == m[(i - j) % L] for j in range(1, L)) for i in range(L))
def has_M(m): return all(rev(c) == c for c in m)
def has_G(m): L = len(m); return L % 2 == 0 and all(m[i] == rev(m[(i + L // 2) % L]) for i in range(L))
def has_R(m):
    L = len(m)
    return any(all(m[(k - i) % L] == rev(m[i]) for i in range(L)) for k in range(L))

def regular_row(r, h):
    """is r a row at backstroke when the bells after the first h plain hunt?"""
    n = len(r)
    if any(r[i] != i for i in range(min(h, n))): return False
    p = R.pblh(n, h); x = R.rounds(n)
    for _ in range(n):
        if x == r: return True
        x = R.mul(x, p)
    return False
def cyclic_row(r, h):
    n = len(r); k = n - h
    if any(r[i] != i for i in range(h)) or r[h] == h: return False
    return all((r[h + i] - h) == (r[h] - h + i) % k for i in range(k))

def lh_ok(s, lh):
    """None: whether rounds itself counts as a regular or cyclic lead head is not said"""
    q = lh_ok2(s, lh)
    return None if q and (s.r or s.anyreg) and lh == R.rounds(s.n) else q
def lh_ok2(s, lh):
    n = s.n; hb = set(range(s.f, s.f + s.U))
    if not s.A:
        for c in R.cycles(lh):
            if len(c) == 1:
                if c[0] not in hb: return False
            elif len(c) != n - s.U: return False
    if s.r: return regular_row(lh, s.U)
    if s.c: return cyclic_row(lh, s.U)
    if s.anyreg:
        h = 0
        while h < n and lh[h] == h: h += 1
        return regular_row(lh, h)
    return True

def hl_ok(s, m):
    if not s.hl: return True
    n = s.n; L = len(m); rows = R.ring_rows(m[:L // 2], R.rounds(n)); hlh = rows[-1]; hle = rows[-2]
    def cyc(r): return r[n - 1] == 0 and all((r[i + 1] - 1) % (n - 1) == (r[i]) % (n - 1) for i in range(n - 2))
    def rcyc(r): return r[n - 1] == 0 and all((r[i] - 1) % (n - 1) == (r[i + 1]) % (n - 1) for i in range(n - 2))
    D = R.closure([R.pblh(n, 1), R.ap(R.rounds(n), R.from_places(n, [0, 1] if n % 2 == 0 else [0, 1, n - 1]))], n)
    for q in s.hl:
        if q == "cyclic-hle" and cyc(hle): return True
        if q == "cyclic-hlh" and cyc(hlh): return True
        if q == "rev-cyclic-hle" and rcyc(hle): return True
        if q == "rev-cyclic-hlh" and rcyc(hlh): return True
        if q == "regular-hls" and hle[::-1] in D and hlh[::-1] in D: return True
    return False

def runs(m, n, places_too):
    """lengths of the times a pair of bells stays in two adjacent places; None if a pair never leaves"""
    L = len(m); out = []
    for i in range(n - 1):
        tog = [i in c[1] or places_too and i in pls(c) and i + 1 in pls(c) for c in m]
        if all(tog): return None
        k0 = tog.index(False); r = 0
        for k in range(L + 1):
            if tog[(k0 + k) % L]: r += 1
            else:
                if r: out.append(r)
                r = 0
    return out

def pts_ok(s, m):
    for q in s.pts:
        x = runs(m, s.n, "unpaired" in q)
        if x is None: return None
        y = any(k % 2 == 0 for k in x)
        if q.startswith("no") == y: return False
    return True

def truth(s, m):
    """True, False, or None where the manual does not say"""
    q = truth2(s, m, True)
    # The existing tests count methods in which rounds occurs again within the lead, when no start row is given.
    if q is False and not s.start and truth2(s, m, False) is not False: return None
    return q
def truth2(s, m, initial):
    L = len(m); cnt = {}
    if s.level in "nx": return True
    r = s.first
    def add(rows, cnt, bad=True):
        for x in rows:
            if x is None: continue
            x = label(s, x)
            if bad and x in s.bad: return False
            cnt[x] = cnt.get(x, 0) + 1
            if cnt[x] > s.N: return False
        return True
    if s.level == "c":
        x = r; rows = []
        while True:
            q = R.ring_rows(m, x); rows += q[:-1]; x = q[-1]
            if x == r: break
            if len(rows) > 20000: return None
        if not initial: rows[0] = None
        return add(rows, cnt)
    rows = R.ring_rows(m, r)
    if not initial: rows[0] = None
    if s.level == "l":
        if not add(rows[:-1], cnt): return False
        lh = label(s, rows[-1])
        if lh == label(s, r): return True
        return cnt.get(lh, 0) + 1 <= s.N
    h = L // 2
    c1 = {}; c2 = {}
    if not add(rows[:h], c1): return False
    grey = False
    hle, hlh = label(s, rows[h - 1]), label(s, rows[h])
    sec = add(rows[h:L], c2, False)
    if len(s.sym) and not s.floating and ("s" in s.sym or "d" in s.sym or len(s.sym) > 1):
        # only one half-lead is tested; the other follows when there is one part
        if len(s.P) > 1 or s.start: grey = grey or not sec
        elif not sec and initial: return False
    elif not sec: return False
    if any(label(s, x) in s.bad for x in rows[h:]): grey = True
    if hlh != hle and c1.get(hlh, 0) + 1 > s.N:
        if s.floating or s.sym in ("", "k", "d") or len(s.P) > 1 or s.U: grey = True
        else: return False
    lh = label(s, rows[L])
    if lh != label(s, r) and (c2.get(lh, 0) + 1 > s.N or c1.get(lh, 0) + 1 > s.N): grey = True
    return None if grey else True

def extent_ok(s, m):
    if not s.ext: return True
    n = s.n
    if n > 6: return None
    lead = R.ring_rows(m[:-1], R.rounds(n)); base = {}
    byt = {}
    for x in lead: byt.setdefault(x.index(0), []).append(x)
    F = set()
    for xs in byt.values():
        for a in xs:
            for b in xs:
                if a != b: F.add(R.mul(a, R.inv(b)))
    if s.ext == "e+": F = {f for f in F if R.sign(f) > 0}
    # two-colour the graph of lead heads with an edge between x and x*f... every component looks alike
    e = R.rounds(n); col = {e: 0}; todo = [e]
    while todo:
        x = todo.pop()
        for f in F:
            y = R.mul(x, f)
            if y not in col: col[y] = 1 - col[x]; todo.append(y)
            elif col[y] == col[x]: return False
    return True

_L8 = {}
def course_group(n):
    if n not in _L8: _L8[n] = R.closure([R.pblh(n, 1), R.ap(R.rounds(n), R.from_places(n, [0, 1] if n % 2 == 0 else [0, 1, n - 1]))], n)
    return _L8[n]
def false_heads(m, n):
    """all the false course heads with the treble fixed"""
    rows = []; x = R.rounds(n)
    while True:
        q = R.ring_rows(m, x); rows += q[:-1]; x = q[-1]
        if x == R.rounds(n): break
    byt = {}
    for x in rows: byt.setdefault(x.index(0), []).append(x)
    return {R.mul(a, R.inv(b)) for xs in byt.values() for a in xs for b in xs}
def groups_of(m, n):
    F = false_heads(m, n); out = set(); name = {}
    for g, rows in FCH.items():
        for r in rows.split(): name[R.ext(R.pr(r), n)] = g[0]
    L = sorted(course_group(n)); seen = set()
    for f in F:
        if f in seen: continue
        orb = {R.mul(R.mul(a, x), b) for a in L for b in L for x in (f, R.inv(f))}
        seen |= orb
        g = {name[x] for x in orb if x in name}
        if len(g) > 1: raise AssertionError("group")
        out.add(g.pop() if g else "X")
    return out
def cps(m, n): return not any(all(f[i] == i for i in range(6, n)) and f[0] == 0 and R.sign(f) > 0 and f != R.rounds(n) for f in false_heads(m, n))

def pat(p, r):
    """does the row match the music pattern?"""
    out = ""; i = 0
    for ch in p:
        out += {"*": ".*", "?": "."}.get(ch, ch)
    return re.fullmatch(out, R.rs(r)) is not None

def accept(s, m, forE=False):
    """does the method meet every requirement?  None: the manual leaves it open"""
    n = s.n; L = len(m); grey = False
    if L != s.L: return False
    for i, c in enumerate(m):
        if not allowed(s, c, i): return False
    if not s.x and any(m[i] == m[i - 1] for i in range(L)) and L > 1: return False
    if not symmetric(s, m): return False
    q = blows_ok(s, m)
    if q is False: return False
    grey |= q is None
    if s.cls and s.cls not in ("S", "T", "3", "4"):
        xs = [not inner(m[i]) for i in range(s.div - 1, L, s.div) if i != L - 1 and i != L // 2 - 1]
        ext = sum(xs); tot = len(xs)
        if ext == 0 or ext == tot: return False
        if s.cls != "delight":
            ext = sum(not inner(m[i]) for i in range(s.div - 1, L // 2 - 1, s.div))
            if not {"strict-delight": ext == 1, "exercise": ext >= 2, "strict-exercise": ext == 2, "pas-alla-tria": ext == 3, "pas-alla-tessera": ext == 4}[s.cls]: return False
    if s.y and s.U:
        for a in range(0, L, s.div):
            if any(m[a + k] != m[a + s.div - 2 - k] for k in range(s.div - 1)):
                # The existing tests count methods whose other half does not have them, when that half is determined by rotational symmetry.
                # With every symmetry at once, only the first quarter is searched.
                kept = L // 4 if len(s.sym) > 1 else L // 2
                if a + s.div <= kept or not ("k" in s.sym or len(s.sym) > 1): return False
                grey = True
    lh = R.leadhead(m, n)
    q = lh_ok(s, lh)
    if q is False: return False
    grey |= q is None
    if not hl_ok(s, m): return False
    q = pts_ok(s, m)
    if q is False: return False
    grey |= q is None
    if s.parity:
        rows = R.ring_rows(m[:-1], R.rounds(n))
        for a in range(0, L, s.div):
            for k in (0, 1):
                if sum(R.sign(x) for x in rows[a + k:a + s.div:2]): return False
    if s.offset:
        if s.U:
            a = R.ring_rows(m[:s.div - 2], R.rounds(n))[-1]; x = R.mul(R.mul(R.inv(a), lh), a)
            if lh == R.rounds(n): grey = True
            elif not cyclic_row(x, s.U): return False
        else:
            if not any(cyclic_row(R.leadhead(m[o:] + m[:o], n), 0) for o in range(L)): return False
    if s.rows:
        rows = R.ring_rows(m, s.first)
        for k, p in s.rows.items():
            if not any(pat(p, R.mul(q, rows[k])) for q in s.P): return False
    if forE: return None if grey else True
    q = truth(s, m)
    if q is False: return False
    grey |= q is None
    if s.cps and not cps(m, n): return False
    if s.groups is not None:
        if not groups_of(m, n) <= s.groups | {"A"}: return False
    q = extent_ok(s, m)
    if q is False: return False
    grey |= q is None
    if s.E and m[-1] not in limited(s) and not s.floating and s.sym.strip("s"): grey = True     # the half-lead would have to change too
    elif s.E and m[-1] not in limited(s):
        for a in limited(s):
            q = accept(s, m[:-1] + [a], True)
            if q: return None if grey and False else False
            grey |= q is None
    return None if grey else True

class TooMany(Exception): pass
def search(s, cap=60000):
    """every method, by brute force; returns (methods that must be found, methods that may be)"""
    n = s.n; L = s.L; cand = []
    for i in range(L):
        if s.rep[i][0] != i: cand.append(None); continue
        cand.append([c for c in changes(n) if (i not in s.selfrev or rev(c) == c) and all(allowed(s, rev(c) if r else c, j) for j, r in s.members[i])])
        if not cand[-1]: return [], [], 0
    must = []; may = []; nodes = [0]; m = []
    early = s.level in "lc"; rows = [label(s, s.first)] if early else None; cnt = {}
    if early:
        if s.start:
            if rows[0] in s.bad: return [], [], 0
            cnt[rows[0]] = 1
    cur = [s.first]
    def go(i):
        nodes[0] += 1
        if nodes[0] > cap: raise TooMany()
        if i == L:
            q = accept(s, m)
            if q: must.append(tuple(m))
            elif q is None: may.append(tuple(m))
            return
        rp, r = s.rep[i]
        if rp != i: opts = [rev(m[rp]) if r else m[rp]]
        else: opts = cand[i]
        for c in opts:
            if i and not s.x and c == m[-1]: continue
            if s.p and not s.long and i >= s.p - 1:
                w = m[len(m) - (s.p - 1):] if s.p > 1 else []
                if any(all(x in pls(y) for y in w) for x in pls(c)): continue
            m.append(c)
            if early and i + 1 < L:
                x = R.ap(cur[-1], c); y = label(s, x)
                if y in s.bad or cnt.get(y, 0) >= s.N: m.pop(); continue
                cnt[y] = cnt.get(y, 0) + 1; cur.append(x)
                go(i + 1)
                cur.pop(); cnt[y] -= 1
            else: go(i + 1)
            m.pop()
    go(0)
    return must, may, nodes[0]
