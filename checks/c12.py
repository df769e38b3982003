"""C12: music and wildcards."""
import re
from math import factorial
from vt import ring as R
J = lambda r: ",".join(map(str, r))
VALID = set(R.SYM + R.SYM.lower() + "oOiI")

def parse(p):
    """tokens: None = *, 'any', or a set of bells"""
    t = []; i = 0
    while i < len(p):
        c = p[i]
        if c == "*": t.append(None)
        elif c == "?": t.append("any")
        elif c == "[":
            s = set(); i += 1
            while True:
                if i >= len(p): raise R.Bad("[")
                if p[i] == "]": break
                s.add(R.bell_of(p[i])); i += 1
            t.append(s)
        else: t.append({R.bell_of(c)})
        i += 1
    return t
def regex(p, n):
    """a regular expression over rows written with one chr(48+bell) per bell"""
    out = ""; stars = False
    for t in parse(p):
        if t is None: out += ".*"; stars = True
        elif t == "any": out += "."
        elif not t: out += "[^\\s\\S]"
        else: out += "[" + "".join("\\x%02x" % (48 + b) for b in sorted(t)) + "]"
    nt = sum(1 for t in parse(p) if t is not None)
    if not stars and nt < n: out += ".*"
    return re.compile(out + "\\Z", re.S)
def key(r): return "".join(chr(48 + b) for b in r)
def inrange(p, n):
    return all(b < n for t in parse(p) if isinstance(t, set) for b in t)
def wilds_ok(p, r, w):
    """some way of laying r against p leaves exactly w under the wildcards"""
    ts = parse(p)
    if None not in ts and len(ts) < len(r): ts = ts + [None]
    def go(i, j, k):
        if i == len(ts): return j == len(r) and k == len(w)
        t = ts[i]
        if t is None:
            if go(i + 1, j, k): return True
            return j < len(r) and k < len(w) and w[k] == r[j] and go(i, j + 1, k + 1)
        if j >= len(r): return False
        if t == "any": return k < len(w) and w[k] == r[j] and go(i + 1, j + 1, k + 1)
        return r[j] in t and go(i + 1, j + 1, k)
    return go(0, 0, 0)

def rand_pattern(rng, n, from_row=None):
    """patterns, mostly ones that some rows match"""
    k = rng.random()
    if k < .1:
        return "".join(rng.choice("123456*?[]8e0") for _ in range(rng.randint(0, 6)))
    r = from_row or R.rand_row(rng, n)
    out = ""; i = 0; lump = rng.choice([.1, .3, .6])
    stars = 0
    while i < n:
        q = rng.random()
        if q < lump and stars < 4:
            out += "*"; stars += 1; i += rng.randint(0, n - i) if rng.random() < .5 else rng.randint(0, min(3, n - i))
        elif q < lump + .15: out += "?"; i += 1
        elif q < lump + .35:
            s = [r[i]] + [rng.randrange(n) for _ in range(rng.randint(0, 3))]
            if rng.random() < .2: s = s[1:]
            rng.shuffle(s); out += "[" + "".join(R.ch(b) for b in s) + "]"; i += 1
        else:
            out += R.ch(r[i]); i += 1
        if rng.random() < .04: break
    if rng.random() < .25: out = "*" + out
    if rng.random() < .25: out += "*"
    while out.count('*') > (6 if n < 10 else 3):
        i = rng.choice([i for i, c in enumerate(out) if c == '*']); out = out[:i] + out[i + 1:]
    if rng.random() < .1: out = out.lower()
    if rng.random() < .05: out = out.replace("0", "O").replace("1", "I")
    return out

def named(n, name):
    """the patterns a name stands for, as predicates over rows (a list)"""
    row = {"rounds": R.rounds(n), "queens": tuple(range(0, n, 2)) + tuple(range(1, n, 2)),
           "kings": tuple(range(0, n, 2))[::-1] + tuple(range(1, n, 2)),
           "tittums": tuple(x for i in range((n + 1) // 2) for x in ([i, i + (n + 1) // 2] if i + (n + 1) // 2 < n else [i])),
           "reverse-rounds": R.rounds(n)[::-1]}.get(name)
    if row: return [lambda r: r == row]
    if name == "CRUs":
        if n < 6: return []
        tail = tuple(range(6, n))
        return [lambda r, x=x, y=y: r[n - len(tail) - 2:] == (x, y) + tail for x in (3, 4, 5) for y in (3, 4, 5) if x != y]
    m = re.match(r"(front-|back-|)(\d+)-runs\Z", name)
    if not m or not 3 <= int(m.group(2)) <= n: return None
    k = int(m.group(2)); out = []
    for up in (1, 0):
        for i in range(n - k + 1):
            run = tuple(range(i, i + k)); run = run if up else run[::-1]
            def f(r, run=run):
                if m.group(1) == "front-": return r[:k] == run
                if m.group(1) == "back-": return r[n - k:] == run
                return any(r[j:j + k] == run for j in range(n - k + 1))
            out.append(f)
    return out

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("random patterns (several stars, sets, question marks, bells used twice, either case, too long, malformed) on 1 to 20 bells; histories of adding patterns, scored "
                "strings and named music, processing rows and lists of rows at either stroke, resetting, clearing, copying, appending and changing the number of bells, compared with "
                "regular expressions; and the number of matches of a pattern on up to 7 bells (8 when thorough) counted over the whole extent. Non-trivial: distinct histories and patterns")
    ev = []
    def bad_pattern(p):
        # anything but bells, ? * and flat, closed sets of bells
        d = 0
        for c in p:
            if c == "[":
                if d: return True
                d = 1
            elif c == "]":
                if not d: return True
                d = 0
            elif c in "?*":
                if d: return True
            elif c not in VALID: return True
            else:
                try: R.bell_of(c)
                except R.Bad: return True
        return bool(d)
    ext = {n: [key(r) for r in R.perms(n)] for n in range(1, 9 if ctx.thorough else 8)}
    for _ in range(ctx.n(1500, 9000)):
        n = rng.choice([1, 2, 3, 4, 5, 5, 6, 6, 7] + ([8] if ctx.thorough else []))
        p = rand_pattern(rng, n)
        if rng.random() < .1: p = p + rng.choice("123?*")
        if rng.random() < .04:
            i = rng.randint(0, len(p)); p = p[:i] + rng.choice("]+{ .-(,x/$") + p[i:]
        bad = bad_pattern(p)
        if not bad:
            rx = regex(p, n); c = sum(1 for k in ext[n] if rx.match(k)); ir = inrange(p, n)
            ctx.count("patterns counted over an extent"); ctx.count("rows compared", len(ext[n])); ctx.count("patterns matching something", c > 0)
        else: ctx.count("malformed patterns")
        def j(o, bad=bad, p=p, n=n, c=None if bad else c, ir=None if bad else ir):
            if bad: return None if all(x == "!exception" for x in o) else "malformed pattern %r was accepted" % p
            w = [str(c), str(c), str(c), str(c), str(3 * c), "1"]
            if not ir:
                if o[0] != "!exception" or o[2] != "!exception": return "pattern %r with bells out of range was accepted" % p
                w = [o[0], str(c), o[2], str(c), str(3 * c), "1"]
                # counting on fewer bells than are mentioned: counted, or refused
                if o[1] == "!exception": w[1] = w[3] = w[4] = "!exception"
            for k, (x, y) in enumerate(zip(o, w)):
                if x != y: return "%r on %d bells matches %s rows, should be %s (%d)" % (p, n, x, y, k)
        ev.append((("wildcard", p, n), j, "w%s/%d" % (p, n)))
    for _ in range(ctx.n(150, 1000)):   # bigger stages, where the number is known
        n = rng.randint(8, 12); r = R.rand_row(rng, n); k = rng.randint(1, n); s = "".join(R.ch(b) for b in r[:k])
        a, b = rng.choice([(s + "*", 1), ("*" + s, 1), (s, 1), ("*" + s + "*", n - k + 1)])
        if k >= 2 and rng.random() < .3: i = rng.randint(1, k - 1); a = s[:i] + "*" + s[i:]; b = 1
        if rng.random() < .3 and a.count("*") == 1 and k < n: a = a.replace("*", "?*"); b = 1
        c = b * factorial(n - k)
        def j2(o, c=c, a=a, n=n):
            if o[0] != str(c) or o[1] != str(c) or o[3] != str(c): return "%r on %d bells matches %s rows, should be %d" % (a, n, o[0], c)
        ev.append((("wildcard", a, n), j2, "W%s/%d" % (a, n))); ctx.count("patterns on higher stages")
    for _ in range(ctx.n(1500, 15000)):
        n = rng.choice([3, 4, 5, 6, 6, 7, 8, 8, 9, 10, 12, 14, 16, 20]); n0 = n
        cmds = []; want = []; pats = []   # pats: [list of predicate, pattern or None, sh, sb, ch, cb, last]
        deferred = rng.random() < .1
        if deferred: n = 0
        base = [R.rand_row(rng, n0) for _ in range(3)] + [R.rounds(n0)]
        def newrow():
            q = rng.random(); m = n
            if len(base[0]) != m: return R.rand_row(rng, m)
            if q < .5: return rng.choice(base)
            if q < .8:
                r = rng.choice(base)
                for _ in range(rng.randint(1, 2)): r = R.ap(r, R.rand_change(rng, m, .4))
                return r
            if q < .9: i = rng.randint(0, m - 1); r = R.rounds(m); return r[i:] + r[:i]
            return R.rand_row(rng, m)
        def snap(head):
            want.append((head, n, [(p[1], p[2], p[3], p[4], p[5], p[6]) for p in pats]))
        def addpat(p, sh, sb): 
            rx = [regex(p, n)]
            pats.append([lambda r, p=p: bool(regex(p, len(r)).match(key(r))), p, sh, sb, 0, 0, None])
        for _ in range(rng.randint(2, 14)):
            k = rng.random()
            if k < .4 or not pats:
                p = rand_pattern(rng, n0, rng.choice(base) if rng.random() < .8 else None); sh, sb = rng.choice([(1, 1), (2, 2), (3, -1), (0, 5), (-7, 100)])
                form = rng.random(); okp = not bad_pattern(p) and (n == 0 or inrange(p, n))
                if form < .5: cmds.append("+%d,%d:%s" % (sh, sb, p))
                else:
                    if form < .6: sh = sb = 1; pre = ""
                    elif form < .8: sb = sh; pre = rng.choice(["", "", "+"] if sh >= 0 else [""]) + "%d:" % sh
                    else: pre = rng.choice(["", "+"] if sh >= 0 else [""]) + "%d," % sh + rng.choice(["", "+"] if sb >= 0 else [""]) + "%d:" % sb
                    if (pre and not p): continue
                    if not pre and ("," in p or ":" in p or p[:1] in "+-"): continue
                    cmds.append("s" + pre + p)
                if okp: addpat(p, sh, sb)
                snap("ok" if okp else "!"); ctx.count("patterns added", okp)
            elif k < .5 and n >= 3:
                nm = rng.choice(["rounds", "queens", "kings", "tittums", "reverse-rounds", "CRUs", "%d-runs" % rng.randint(2, n + 1), "front-%d-runs" % rng.randint(2, n), "back-%d-runs" % rng.randint(3, n), "3-runs", "4-runs", "4-runs", "nonsense", "-runs", "x-runs"])
                sh, sb = rng.choice([(1, 1), (2, 5)]); ps = named(n, nm)
                if rng.random() < .5: cmds.append("n%s %d %d" % (nm, sh, sb))
                else: cmds.append("s%d,%d:<%s>" % (sh, sb, nm))
                if ps is not None: pats += [[f, None, sh, sb, 0, 0, None] for f in ps]
                snap("!" if ps is None else "ok"); ctx.count("named music", ps is not None)
            elif k < .72 and n:
                rows = [newrow() for _ in range(rng.randint(600, 1500) if rng.random() < .015 and len(pats) < 12 else rng.randint(1, 12))]; back = rng.random() < .5
                ctx.count("compositions of hundreds of rows", len(rows) > 100)
                cmds.append(("R" if back else "r") + " ".join(map(J, rows)))
                for p in pats: p[4] = p[5] = 0
                for r in rows:
                    for p in pats:
                        g = p[0](r); p[4 + back] += g; p[6] = r if g else None
                        ctx.count("row/pattern matches", g); ctx.count("rows laid against patterns")
                    back = not back
                snap("ok")
            elif k < .88 and n:
                r = newrow(); back = rng.random() < .5; cmds.append(("P" if back else "p") + J(r)); hit = False
                for p in pats:
                    g = p[0](r); p[4 + back] += g; p[6] = r if g else None; hit |= g; ctx.count("row/pattern matches", g); ctx.count("rows laid against patterns")
                snap("1" if hit else "0")
            elif k < .91:
                cmds.append("z")
                for p in pats: p[4] = p[5] = 0
                snap("ok")
            elif k < .93: cmds.append("C"); snap("ok")
            elif k < .95:
                ps = [rand_pattern(rng, n0) for _ in range(2)]
                if any(bad_pattern(p) or not p or n and not inrange(p, n) for p in ps): continue
                cmds.append("A" + " ".join(ps))
                for p in ps: addpat(p, 2, 3)
                snap("ok")
            elif k < .97:
                cmds.append("c%d" % rng.choice([0, n])); pats.clear(); snap("ok")
            else:
                m = n0 if n == 0 else rng.choice([n, n + 1, n + 2])
                if any(p[1] is None for p in pats) or not all(inrange(p[1], m) for p in pats): continue
                cmds.append("b%d" % m); n = m; snap("ok"); ctx.count("changes of the number of bells")
        def j3(o, want=want, cmds=cmds):
            if o.exc: return "exception"
            for i, (head, n, ps) in enumerate(want):
                t = "step %d (%s)" % (i, cmds[i][:80])
                if o[2 * i] != head: return "%s gave %s, should be %s" % (t, o[2 * i], head)
                f = o[2 * i + 1].split(";"); g = f[0].split(" ")
                if g[0] != str(n): return "%s: %s bells" % (t, g[0])
                if g[1] != str(len(ps)) or len(f) != len(ps) + 1: return "%s: %s patterns, should be %d" % (t, g[1], len(ps))
                # named music may list its patterns in any order
                def fmt(p): return "%d %d %d %d %d %d" % (p[3], p[4], p[3] + p[4], p[3] * p[1], p[4] * p[2], p[3] * p[1] + p[4] * p[2])
                got = [x.split(" ") for x in f[1:]]
                exp = [(p[0], fmt((0,) + p[1:3] + p[3:5])) for p in ps]
                gf = [" ".join(x[-7:-1]) for x in got]
                if all(p[0] is not None for p in ps):
                    for (pt, e), x, y in zip(exp, got, gf):
                        if e != y: return "%s: pattern %r counted %s, should be %s" % (t, pt, y, e)
                        if x[0] != pt and pt: return "%s: pattern is %r" % (t, x[0])
                elif sorted(gf) != sorted(e for _, e in exp): return "%s: counts %s, should be %s" % (t, sorted(gf)[:20], sorted(e for _, e in exp)[:20])
                H = sum(p[3] for p in ps); B = sum(p[4] for p in ps); SH = sum(p[3] * p[1] for p in ps); SB = sum(p[4] * p[2] for p in ps)
                if g[2:] != [str(x) for x in (H, B, H + B, SH, SB, SH + SB)]: return "%s: totals %s, should be %s" % (t, g[2:], (H, B, H + B, SH, SB, SH + SB))
                if head in "01" or cmds[i][0] in "rR":
                    for p, x in zip(ps, got):
                        if p[0] is None: break
                        w = tuple(map(int, x[-1].split(","))) if x[-1] else ()
                        if p[5] is None:
                            if w: return "%s: bells under the wildcards of %r, which did not match" % (t, p[0])
                        elif not wilds_ok(p[0], p[5], w): return "%s: bells %s under the wildcards of %r for row %s" % (t, R.rs(w), p[0], R.rs(p[5]))
        ev.append((("music", 0 if deferred else n0) + tuple(cmds), j3, "%d %s" % (n0, cmds))); ctx.count("music histories")
    ctx.events(ev)
    ctx.minimum = {"patterns counted over an extent": 300, "patterns matching something": 150, "row/pattern matches": 1000, "music histories": 300, "compositions of hundreds of rows": 5, "malformed patterns": 10}
