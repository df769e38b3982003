"""C22: methsearch finds exactly the methods asked for."""
import random, re, os
from concurrent.futures import ProcessPoolExecutor
from vt import ring as R, meth as M, msearch as S

def short(rng, c, n):
    """a change as a user might write it"""
    if not S.pls(c): return rng.choice("xX-")
    P = list(S.pls(c))
    for cut in (lambda p: p[1:], lambda p: p[:-1]):
        q = cut(P)
        if rng.random() < .4 and q:
            try:
                if R.from_places(n, q) == c: P = q
            except R.Bad: pass
    t = ""
    for i, x in enumerate(P):
        k = rng.random()
        if k < .04: t += "{%d}" % (x + 1)
        elif k < .08 and x == n - 1: t += "{N}"
        elif k < .1 and x < n - 1: t += "{N-%d}" % (n - 1 - x)
        else: t += rng.choice([R.ch(x), R.ch(x), R.ch(x).lower()])
    return t
def notate(rng, c, n):
    """the same, without bell expressions (which only masks have)"""
    if not S.pls(c): return rng.choice("xX-")
    return R.cs(c)

def render(rng, n, items, star):
    """items: strings, '?' for anything; possibly one run of '?' as '*'"""
    items = list(items); used = False
    if star and rng.random() < .8:
        runs = []; i = 0
        while i < len(items):
            j = i
            while j < len(items) and items[j] == "?": j += 1
            if j > i: runs.append((i, j))
            i = max(j, i + 1)
        if runs:
            a, b = rng.choice(runs); items[a:b] = ["*"]; used = True
    out = ""; dot = False
    for x in items:
        plain = x[0] not in "xX-?*("
        out += ("." if dot and plain or rng.random() < .05 and out and out[-1] != "." else "") + x; dot = plain
    return out, used

def make_mask(rng, s):
    """a mask met by some method of the shape wanted; sets s.mask and gives its text"""
    n = s.n; L = s.L
    base = skeleton(rng, s)
    if base is None: return None
    specs = [(None, None, None)] * L
    dens = rng.choice([.15, .3, .5, .8, 1])
    le = (L + s.so - 1) % L
    pal = s.so == 0 and L % 2 == 0 and all(base[i] == base[L - 2 - i] for i in range(L - 1)) and rng.random() < .8
    H = L // 2 if pal else L
    parts = []
    def path_ok(i): return [c for c in S.changes(n) if all(S.mv(c, h[i]) == h[i + 1] for h in s.hunts)] if s.U else list(S.changes(n))
    def spec(i, kind):
        """(text, spec)"""
        c = base[i]
        if rng.random() > dens: return "?", None
        if kind == "full":
            if rng.random() < .25:
                alts = [c] + rng.sample(path_ok(i), 1) + ([rng.choice(path_ok(i))] if rng.random() < .4 else [])
                rng.shuffle(alts)
                return "(" + "|".join(notate(rng, x, n) for x in alts) + ")", tuple(alts)
            return short(rng, c, n), (c,)
        k = 0 if kind == "above" else 1
        def other(c):
            o = [x for x in path_ok(i) if S.split(s, x, i)[k] == S.split(s, c, i)[k]]
            return rng.choice(o)
        alts = [c] + (rng.sample(path_ok(i), 1) if rng.random() < .25 else [])
        t = [notate(rng, other(x), n) for x in alts]
        return (t[0] if len(t) == 1 else "(" + "|".join(t) + ")"), tuple(S.split(s, x, i)[k] for x in alts)
    star = True; text = []
    cuts = [0] + sorted(rng.sample(range(1, H), rng.choice([0, 0, 0, 1]) if not pal and H > 2 else 0)) + [H]
    for a, b in zip(cuts, cuts[1:]):
        ab = s.U == 1 and rng.random() < .35
        if not ab:
            it = [spec(i, "full") for i in range(a, b)]
            t, u = render(rng, n, [x[0] for x in it], star); star = star and not u
            for i, x in zip(range(a, b), it): specs[i] = (x[1], None, None)
            text.append(("&" if pal else rng.choice(["", "", "+"])) + t)
        else:
            ia = [spec(i, "above") for i in range(a, b)]; ib = [spec(i, "below") for i in range(a, b)]
            ta, ua = render(rng, n, [x[0] for x in ia], star); tb, ub = render(rng, n, [x[0] for x in ib], star)
            star = star and not (ua and ub)
            for i, x, y in zip(range(a, b), ia, ib): specs[i] = (None, x[1], y[1])
            text.append(("&" if pal else "") + ta + "/" + ("&" if pal else "") + tb)
    if pal:
        for i in range(H, L - 1): specs[i] = specs[L - 2 - i]
        if any(x[1] is not None or x[2] is not None for x in specs):
            # the work above and below as the treble comes back is the same work
            pass
        t, sp = spec(L - 1, "full"); specs[L - 1] = (sp, None, None); text.append(t)
    s.mask = specs; s.ready()
    return ",".join(text)

def skeleton(rng, s):
    """some method of the shape wanted (its truth and so on are left to chance)"""
    L = s.L; m = [None] * L
    for _ in range(12):
        ok = True
        for i in range(L):
            rp, r = s.rep[i]
            if rp == i:
                o = [c for c in S.changes(s.n) if (i not in s.selfrev or S.rev(c) == c) and (s.x or i == 0 or c != m[i - 1]) and all(S.allowed(s, S.rev(c) if q else c, j) for j, q in s.members[i])]
                if not o: ok = False; break
                m[i] = rng.choice(o)
            else: m[i] = S.rev(m[rp]) if r else m[rp]
        if ok and (s.x or all(m[i] != m[i - 1] for i in range(1, L))): return m
    return None if not ok else m

def opt(rng, sh, lg, v=None, bare=False):
    if v is None: return [rng.choice([x for x in (sh and "-" + sh, "--" + lg) if x])]
    if bare and rng.random() < .5: return [rng.choice([x for x in (sh and "-" + sh, "--" + lg) if x])]
    o = [["--%s=%s" % (lg, v)]]
    if sh: o += [["-%s%s" % (sh, v)]]
    return rng.choice(o)

def config(rng, filt=False):
    s = S.Cfg(); a = []
    fam = rng.choice(["plain"] * 5 + ["td"] * 4 + ["multi"] * 2 + ["prin"] * 3 + ["little"] * 2)
    big = [8, 9, 10, 12] if filt else []
    if fam == "plain": s.n = rng.choice([3, 4, 4, 5, 5, 6, 6, 6, 7, 8] + big)
    elif fam == "td": s.n = rng.choice([4, 4, 6, 6, 6, 8] + [x for x in big if x % 2 == 0]); s.d = rng.choice([1, 1, 1, 1, 2, 3] if s.n <= 6 else [1])
    elif fam == "multi":
        s.n = rng.choice([4, 5, 5, 6, 6, 7, 8] + big[:2]); s.U = rng.choice([2, 2, 2, 3]); 
        if s.U > s.n // 2: s.U = 2
        if s.n % 2 == 0 and s.n >= 6 and s.U == 2 and rng.random() < .3: s.d = 1
    elif fam == "little":
        s.n = rng.choice([4, 5, 6, 6, 7, 8] + big[:1])
        while True:
            f, b = rng.randrange(s.n), rng.randrange(s.n)
            if rng.random() < .6: f = 0
            if b - f >= 1 and (f, b) != (0, s.n - 1): break
        s.f, s.b = f, b
        if (b - f) % 2 and rng.random() < .4: s.d = 1
        t = (R.ch(f) if f or rng.random() < .5 else "") + "-" + (R.ch(b) if b < s.n - 1 or rng.random() < .5 else "")
        a += rng.choice([["-Z" + t], ["--treble-path=" + t]])
    else:
        s.n = rng.choice([3, 4, 4, 5, 5, 6] + big[:1]); s.U = 0; s.L = rng.choice([2, 3, 4, 5, 6, 6, 8, 8, 10, 12] if s.n < 6 else [3, 4, 4, 5, 6, 6, 8])
        a += opt(rng, "U", "hunts", 0, True); a += opt(rng, "n", "changes-per-lead", s.L)
    n = s.n
    a = opt(rng, "b", "bells", n) + a
    if s.U > 1: a += opt(rng, "U", "hunts", s.U)
    if s.d: a += opt(rng, "G", "treble-dodges", s.d)
    L = s.L or 0
    mirrorable = not s.U or (s.n - 1 - (s.b if s.b is not None else s.n - 1)) == s.f
    evenL = not L or L % 2 == 0
    big_space = fam != "prin" and (n >= 6 or n == 5 and s.d) or fam == "prin" and (n >= 5 and s.L >= 8 or s.L >= 10)
    if evenL and rng.random() < (.95 if big_space else .6):
        o = ["s"] * 6 + (["k", "d", "sd", "skd", "kd"] if mirrorable and (L or 9) > 4 and n > 2 and s.U < 2 else ["d"] if mirrorable and s.U < 2 else [])
        s.sym = rng.choice(o)
        for q in s.sym: a += opt(rng, q, {"s": "symmetric", "k": "rotational", "d": "double"}[q])
    if mirrorable and rng.random() < .04: s.mirror = True; a.append("--mirror")
    if s.sym and not big_space and rng.random() < .12: s.floating = True; a.append("--floating-sym")
    if rng.random() < (.8 if n >= 6 or s.d else .4): s.p = rng.choice([2, 2, 2, 3, 4, 5]); a += opt(rng, "p", "blows-per-place", s.p, s.p == 2)
    if rng.random() < (.6 if n >= 6 else .25): s.l = rng.choice([2, 2, 2, 3, 4, 1]); a += opt(rng, "l", "places-per-change", s.l, s.l == 2)
    if rng.random() < .2: s.j = rng.choice([1, 2, 2, 3]); a += opt(rng, "j", "max-adj-places", s.j, s.j == 1)
    if rng.random() < .15 and not (s.U == 0 and n % 2) and not (fam == "little" and (s.b - s.f) % 2 == 0) and not (s.U > 1 and fam == "little"): s.w = True; a += opt(rng, "w", "right-place")
    if rng.random() < .3: s.fo = True; a += opt(rng, "f", "no-78s")
    if rng.random() < (.3 if s.d else .05): s.y = True; a += opt(rng, "y", "symmetric-sections")
    if s.p and rng.random() < .1: s.long = True; a.append("--long-le-place")
    if s.U and ((s.b if s.b is not None else n - 1) - s.f) % 2 and rng.random() < (.6 if s.d else .15):
        b = s.b if s.b is not None else n - 1
        o = ["S", "T", "delight"]
        if (s.f, b) == (0, 5): o += ["3", "4"]
        if s.sym in ("s", "sd", "skd", "kd") and (s.sym != "kd" ) and s.U % 2: o += ["strict-delight", "exercise", "strict-exercise", "pas-alla-tria", "pas-alla-tessera"]
        s.cls = rng.choice(o)
        a += {"S": opt(rng, "S", "surprise"), "T": opt(rng, "T", "treble-bob"), "3": ["--3rds-place-delight"], "4": ["--4ths-place-delight"]}.get(s.cls, ["--" + s.cls])
    q = rng.random()
    if q < .3 and s.U and s.f == 0: s.r = True; a += opt(rng, "r", "regular")
    elif q < .4 and s.f == 0: s.c = True; a += opt(rng, "c", "cyclic")
    elif q < .44 and s.f == 0: s.anyreg = True; a.append("--any-regular-hl")
    if s.U % 2 and rng.random() < .2: s.e = True; a += opt(rng, "e", "restricted-le")
    elif s.U % 2 and rng.random() < .2: s.E = True; a += opt(rng, "E", "prefer-restricted-le")
    if rng.random() < .45 or s.mirror or s.floating: s.A = True; a += opt(rng, "A", "all-methods")
    if s.d % 2 and s.sym and "s" in s.sym and s.U == 1 and rng.random() < .3: s.parity = True; a += opt(rng, "P", "parity-hack")
    if s.U == 1 and fam in ("plain", "td") and rng.random() < .12:
        o = ["cyclic-hle", "cyclic-hlh", "rev-cyclic-hle", "rev-cyclic-hlh"] + (["regular-hls"] * 3 if s.r else [])
        s.hl = tuple(set(rng.choice(o) for _ in range(rng.choice([1, 1, 2])))); a += ["--" + x for x in s.hl]
    if rng.random() < .04 and (s.d or not s.U) and s.f == 0: s.offset = True; a.append("--offset-cyclic")
    if rng.random() < .15:
        s.pts = tuple(rng.sample(["no-points", "has-points", "no-unpaired-points", "has-unpaired-points"], rng.choice([1, 1, 2]))); a += ["--" + x for x in s.pts]
    # truth
    q = rng.random()
    if q < .5: s.level = "l"; a += [] if rng.random() < .7 else opt(rng, "F", "falseness", rng.choice(["l", "lead"]))
    elif q < .72: s.level = "c"; a += opt(rng, "F", "falseness", rng.choice(["c", "course"]))
    elif q < .82 and not (L % 2): s.level = "h"; a += opt(rng, "F", "falseness", rng.choice(["h", "half-lead"]))
    elif q < .92: s.level = "n"; a += opt(rng, "F", "falseness", rng.choice(["n", "none"]))
    else:
        s.x = True; s.level = rng.choice(["n", "l", "c"])
        fx = opt(rng, "F", "falseness", rng.choice(["x", "really-none"])); a += fx
        if s.level != "n": a += ["-F" + s.level]
    if s.level in "lc" and rng.random() < .12: s.N = rng.choice([2, 2, 3]); a += ["-FN=%d" % s.N]
    if s.level in "lch" and rng.random() < .2:
        k = rng.random()
        if k < .6:
            g = R.rand_row(rng, n)
            if rng.random() < .7: w = list(range(1, n)); rng.shuffle(w); g = (0,) + tuple(w)
            if rng.random() < .4: g = R.power(R.pblh(n, 1), rng.randint(1, 3)) if n > 2 else g
            if R.order(g) <= 6: s.gens = (g,); a += ["-FP=" + R.rs(g)]
        if k > .4: s.start = R.rand_row(rng, n); a += ["-Fs=" + R.rs(s.start)]
    if s.level in "lc" and s.N == 1 and rng.random() < .15:
        s.avoid = tuple(R.rand_row(rng, n) for _ in range(rng.choice([1, 2, 4])))
        for x in s.avoid: a += ["-Fr=" + R.rs(x)]
    if s.U == 1 and fam == "plain" and n <= 6 and s.level in "lc" and not s.x and s.N == 1 and rng.random() < .12: s.ext = "e"; a += ["-F" + rng.choice(["e", "extent"])]; 
    elif s.U == 1 and fam in ("td", "plain") and n in (4, 5, 6) and s.level in "lc" and not s.x and s.N == 1 and rng.random() < .1: s.ext = "e+"; a += ["-F" + rng.choice(["e+", "positive-extent"])]
    if s.ext: 
        # (these say that a lead must be true; a course, only if -Fc comes as well)
        if s.level == "c" and "-Fc" not in a: a += ["-Fc"]
    if rng.random() < .08:
        k = rng.randint(1, 4); q = rng.sample(S.changes(n), min(len(S.changes(n)), k)); neg = rng.random() < .5
        if not neg: q = rng.sample(S.changes(n), max(1, len(S.changes(n)) * 2 // 3))
        if neg: s.never = set(q)
        else: s.only = set(q)
        a += ["--changes=" + ("!" if neg else "") + ",".join(notate(rng, c, n) for c in q)]
    s.ready()
    if s.start is None and rng.random() < .12 or s.start and rng.random() < .3:
        m = skeleton(rng, s)
        if m:
            for k in rng.sample(range(0, s.L + 1), rng.choice([1, 1, 2]) if s.L > 2 else 1):
                r = R.mul(rng.choice(s.P), R.ring_rows(m, s.first)[k]); p = ""
                i = 0; star = False
                while i < n:
                    z = rng.random()
                    if z < .25 and not star: j = rng.randint(i, n); p += "*"; i = j; star = True
                    elif z < .5: p += "?"; i += 1
                    else: p += R.ch(r[i]); i += 1
                s.rows[k] = p; a += ["--row-match=%d=%s" % (k, p)]
    if rng.random() < .08:
        m = skeleton(rng, s)
        if m: s.prefix = tuple(m[:rng.randint(1, len(m))]); a += ["--prefix=" + R.pns(s.prefix, "x")]
    # groups of falseness
    if filt and s.U == 1 and s.d == 1 and s.r and s.sym and "s" in s.sym and not s.A and s.f == 0 and (s.b == n - 1) and s.level == "c":
        if n == 8 and rng.random() < .7:
            g = set(rng.sample("BCDEFGHIKLMNOPRSTUabcdef", rng.choice([2, 5, 12, 20]))); s.groups = g | ({"X"} if rng.random() < .8 else set())
            a += ["-F:" + "".join(sorted(g)) + ("XYZ" if "X" in s.groups else "")]
        elif rng.random() < .6: s.cps = True; a += ["-FCPS"]
    a0 = a[:1]; rest = a
    return s, rest

def tame(rng, s, a):
    """narrow it with a mask"""
    t = make_mask(rng, s)
    if t is None: return None
    a += rng.choice([["-m" + t], ["--mask=" + t]])
    return True

def job(arg):
    seed, k, thorough = arg
    rng = random.Random("%s/%d" % (seed, k))
    cap = 200000 if thorough else 40000
    for _ in range(40):
        try: s, a = config(rng)
        except AssertionError: continue
        if rng.random() < .25:
            if not tame(rng, s, a): continue
        for t in range(4):
            try:
                must, may, nodes = S.search(s, cap); break
            except S.TooMany:
                if s.mask or not tame(rng, s, a): must = None; break
        else: continue
        if must is None or len(must) > 6000: continue
        if not must and rng.random() < .8: continue
        return s.n, s.L, a, must, may, nodes, s.U, s.sym, s.d
    return None

def fjob(arg):
    seed, k, thorough = arg
    rng = random.Random("%s/f%d" % (seed, k))
    for _ in range(40):
        try: s, a = config(rng, True)
        except AssertionError: continue
        if rng.random() < .3 and not tame(rng, s, a): continue
        pool = []
        keep = s.x
        for _ in range(rng.choice([5, 15, 40])):
            z = rng.random()
            if s.U == 1 and s.f == 0 and s.b == s.n - 1 and s.d < 2 and z < .5:
                m = M.regular_method(rng, s.n)
                if m is None or len(m) != s.L: m = skeleton(rng, s)
            else: m = skeleton(rng, s)
            if m is None: continue
            m = list(m)
            if rng.random() < .15: m[rng.randrange(len(m))] = rng.choice(S.changes(s.n))
            if rng.random() < .04: m = m[rng.randint(1, len(m) - 1):] if len(m) > 1 else m
            pool.append(m)
            if rng.random() < .05: pool.append(list(m))
        if not pool: continue
        v = [S.accept(s, m) for m in pool]
        if True not in v and rng.random() < .7: continue
        return s.n, s.L, a, pool, v, s.U, s.sym, s.d
    return None

def read(out, n):
    ms = []
    for l in out.split("\n"):
        if not l: continue
        p = l.split("\t")[0]
        ms.append(tuple(R.pn(n, p)))
    return ms

def run(ctx):
    ctx.need("methsearch")
    ctx.rule = ("random combinations of every search option over plain, treble-dodging, multi-hunt and little methods and principles, where an independent brute-force enumeration can decide exactly which methods qualify; and "
                "lists of methods on up to 12 bells given to the filter; the printed set must be exactly that, each method once. Non-trivial: distinct searches which find a method and filters which pass some and stop some")
    N = ctx.n(420, 3000); F = ctx.n(260, 1600); th = ctx.thorough
    with ProcessPoolExecutor(8) as ex:
        jobs = list(ex.map(job, [(ctx.seed, k, th) for k in range(N)], chunksize=4))
        fj = list(ex.map(fjob, [(ctx.seed, k, th) for k in range(F)], chunksize=4))
    def one(i):
        j = jobs[i]
        if j is None: return
        n, L, a, must, may, nodes, U, sym, d = j
        rng = random.Random("%s/run%d" % (ctx.seed, i))
        args = list(a); mode = rng.choice(["set"] * 6 + ["count", "raw", "limit", "start", "random"])
        mset = set(must); extra = []
        if mode == "count": extra = ["-C"]
        if mode == "raw": extra = ["-q", "--raw-count"]
        lim = None
        if mode == "limit": lim = rng.choice([1, 2, 3, 10, max(1, len(must)), len(must) + 1]); extra = ["--limit=%d" % lim]
        if mode == "random": extra = ["--random", "--seed=%d" % rng.randint(1, 9999)]
        r = ctx.app("methsearch", args + extra, "", timeout=180)
        if r is None: return
        def bad(c, rr=r, ar=None): ctx.appbad("methsearch", ar or args + extra, "", rr, c)
        ctx.count("searches"); ctx.count("nodes of the independent searches", nodes); ctx.count("methods required", len(must)); ctx.count("methods left open", len(may))
        if r.rc:
            if must: return bad("refused or failed, though %d methods qualify, such as %s" % (len(must), R.pns(must[0])))
            if r.out.strip(): return bad("methods printed and then a failure")
            ctx.count("searches refused as impossible"); return ctx.ok_case(None)
        if mode == "raw":
            t = r.out.strip()
            if not t.isdigit() or not len(must) <= int(t) <= len(must) + len(may): return bad("the count %r should be %d to %d" % (t, len(must), len(must) + len(may)))
            return ctx.ok_case(" ".join(args) if must else None)
        out = r.out
        if mode == "count":
            q = re.search(r"^Found (\d+) methods?\n\Z", out, re.M)
            q0 = q or re.search(r"(?i)^(No methods found|Found no methods|Found 0 methods)\n\Z", out, re.M)
            if not q0: return bad("no count at the end of the output")
            out = out[:q0.start()]; cnt = int(q[1]) if q else 0
        try: got = read(out, n)
        except R.Bad: return bad("unreadable place notation printed")
        gs = set(got)
        if len(gs) != len(got):
            dup = [m for m in gs if got.count(m) > 1][0]
            return bad("%s is printed %d times" % (R.pns(dup), got.count(dup)))
        if mode == "count" and cnt != len(got): return bad("the count is %d, but %d methods are printed" % (cnt, len(got)))
        extra_m = gs - mset - set(may)
        if extra_m: return bad("%s does not meet the requirements (%d such of %d)" % (R.pns(sorted(extra_m)[0]), len(extra_m), len(gs)))
        lack = mset - gs
        if lim is not None:
            if len(got) > lim: return bad("more methods than the limit of %d" % lim)
            if len(got) < min(lim, len(must)): return bad("%d methods printed, but the limit is %d and %d qualify" % (len(got), lim, len(must)))
        elif lack: return bad("%s meets the requirements but is not found (%d such of %d)" % (R.pns(sorted(lack)[0]), len(lack), len(mset)))
        if mode == "start" and got:
            k = rng.randrange(len(got)); ar = args + ["--start-at=" + R.pns(got[k])]
            r2 = ctx.app("methsearch", ar, "", timeout=180)
            if r2 is None: return
            if r2.rc: return bad("cannot be resumed", r2, ar)
            g2 = read(r2.out, n); ctx.count("resumed searches")
            if g2 != got[k:]: return bad("resumed at %s, the search should give the remaining %d methods but gives %d" % (R.pns(got[k]), len(got) - k, len(g2)), r2, ar)
        ctx.count("symmetric searches", bool(sym)); ctx.count("searches for principles", U == 0); ctx.count("searches with several hunt bells", U > 1); ctx.count("treble-dodging searches", d > 0)
        ctx.ok_case(" ".join(args) if must else None)
    ctx.map(one, range(N))
    def filt(i):
        j = fj[i]
        if j is None: return
        n, L, a, pool, v, U, sym, d = j
        rng = random.Random("%s/frun%d" % (ctx.seed, i))
        inv = rng.random() < .3; colon = rng.random() < .3
        args = list(a) + rng.choice([["-I"], ["--filter"]]) + (["--invert-filter"] if inv else [])
        if rng.random() < .5: rng.shuffle(args)
        else: args = args[::-1]
        # options which replace one another keep their order
        fo = [x for x in a if x.startswith("-F") or x.startswith("--falseness")]
        args = [x for x in args if x not in fo] + fo
        text = ""
        for q, m in enumerate(pool): text += ("%d:" % n if colon else "") + R.pns(m, rng.choice("xX-")) + rng.choice(["", " p%d" % q, "\tname %d" % q]) + "\n"
        r = ctx.app("methsearch", args, text, timeout=120)
        if r is None: return
        def bad(c): ctx.appbad("methsearch", args, text, r, c)
        ctx.count("filter runs"); ctx.count("methods filtered", len(pool)); ctx.count("methods left open", v.count(None))
        if inv: v2 = [None if x is None else not x for x in v]
        else: v2 = v
        if r.rc:
            if True in v: return bad("refused, though %s qualifies" % R.pns(pool[v.index(True)]))
            ctx.count("filters refused as impossible"); return ctx.ok_case(None)
        try: got = [list(x) for x in read(r.out, n)]
        except R.Bad: return bad("unreadable place notation printed")
        k = 0
        for m, x in zip(pool, v2):
            hit = k < len(got) and got[k] == list(m)
            if x is True:
                if not hit: return bad("%s should be passed" % R.pns(m))
                k += 1
            elif x is None and hit: k += 1
            elif x is False and hit and not (k + 1 <= len(got) and any(list(m) == list(y) for y in pool[pool.index(m) + 1:])): return bad("%s should be stopped" % R.pns(m))
        if k != len(got): return bad("%s should not be printed" % R.pns(got[k]))
        ctx.ok_case(" ".join(args) if True in v and False in v else None)
    ctx.map(filt, range(F))
    ctx.minimum = {"searches": N // 3, "filter runs": F // 3}
