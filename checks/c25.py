"""C25: musgrep selects and scores exactly the musical rows."""
import random
from vt import ring as R
from checks.c12 import regex, key, inrange, rand_pattern, named, VALID

NAMED = ["rounds", "queens", "kings", "tittums", "reverse-rounds", "CRUs", "3-runs", "4-runs", "5-runs", "front-4-runs", "back-4-runs", "front-3-runs", "back-5-runs"]

def bad_pattern(p):
    d = 0
    for c in p:
        if c == "[":
            if d: return True
            d = 1
        elif c == "]":
            if not d: return True
            d = 0
        elif c in "?*":
            if d: return True
        elif c not in VALID: return True
        else:
            try: R.bell_of(c)
            except R.Bad: return True
    return bool(d)

def run(ctx):
    ctx.need("musgrep"); rng = ctx.rng
    ctx.rule = ("streams of rows of which many are musical, on 1 to 32 bells, laid out with any white space, with rows on other numbers of bells among them, and ended by the end of file or something that is no row; "
                "several patterns, scores for each stroke and named music; every option. Non-trivial: distinct runs with a matching and a non-matching row")
    def one(k):
        rng = random.Random("%s/%d" % (ctx.seed, k))
        n = rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 8, 8, 8, 10, 12, 16, 20, 32])
        base = [R.rounds(n)] + [R.rand_row(rng, n) for _ in range(4)]
        def newrow():
            q = rng.random()
            if q < .4: return rng.choice(base)
            if q < .7:
                r = rng.choice(base)
                for _ in range(rng.randint(1, 3)): r = R.ap(r, R.rand_change(rng, n, .4))
                return r
            if q < .85:
                h = rng.randint(0, n); r = rng.choice(base); return R.rand_row(rng, h) + tuple(range(h, n))
            return R.rand_row(rng, n)
        pats = []; args = []   # pats: list of (predicates, score at hand, at back)
        bad = False
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
            sh = sb = 1; pre = ""; q = rng.random()
            if q < .25: sh = sb = rng.choice([1, 2, 5, 10, -1, -3, 0]); pre = rng.choice(["", "+"] if sh >= 0 else [""]) + "%d:" % sh
            elif q < .45: sh, sb = rng.choice([(1, 2), (2, -2), (0, 1), (3, 0), (-1, -5), (5, -1)]); pre = "%d,%d:" % (sh, sb)
            if rng.random() < .3 and n >= 3:
                nm = rng.choice(NAMED); ps = named(n, nm)
                args.append(pre + "<" + nm + ">")
                if ps is None: bad = True
                else: pats.append((ps, sh, sb))
                continue
            p = rand_pattern(rng, n, rng.choice(base) if rng.random() < .85 else None)
            if not p or not pre and ("," in p or ":" in p or p[:1] in "+-@"): continue
            if bad_pattern(p) or not inrange(p, n):
                if rng.random() < .7: continue
                bad = True; args.append(pre + p); continue
            rx = regex(p, n); args.append(pre + p); pats.append(([lambda r, rx=rx: bool(rx.match(key(r)))], sh, sb))
        opts = []; o = {}
        for f, l, pr in (("c", "--count", .3), ("s", "--score", .3), ("S", "--scores", .25), ("p", "--positive", .2), ("n", "--negative", .2), ("H", "--highlight", .25)):
            o[f] = rng.random() < pr * (.4 if rng.random() < .5 else 1.5)
            if o[f]: opts.append("-" + f if rng.random() < .7 else l)
        par = rng.choice(["", "", "", "i", "o"])
        if rng.random() < .01: par = "io"
        opts += {"": [], "i": ["-i"], "o": ["--out-of-course"], "io": ["-i", "-o"]}[par]
        opts += ["-b", str(n)] if rng.random() < .8 else ["--bells=%d" % n]
        rng.shuffle(opts) if opts[-2:-1] != ["-b"] else None
        rows = [newrow() for _ in range(rng.choice([0, 1, 2, 5, 12, 12, 30, 60]))]
        if rng.random() < .3:
            for _ in range(rng.randint(1, 4)):
                m = rng.choice([x for x in (n - 1, n + 1, n + 2, 1) if x > 0 and x != n]); rows.insert(rng.randint(0, len(rows)), R.rand_row(rng, m))
        text = "".join(rng.choice(["", " ", "\n"]) if i == 0 else rng.choice(["\n", "\n", "\n", " ", "\r\n", "\n\n", "\t"]) for i in [0])
        for i, r in enumerate(rows):
            t = R.rs(r)
            if rng.random() < .05: t = t.lower()
            text += t + rng.choice(["\n"] * 6 + [" ", "\r\n", "\n\n", "\t", "  \n"])
        stop = rng.random() < .08
        if stop: text += rng.choice(["*", "# comment", "x", "1123", "-"]) + "\n" + "\n".join(R.rs(newrow()) for _ in range(3)) + "\n"; ctx.count("streams with something that is no row")
        elif rng.random() < .3: text = text.rstrip()
        back = True; want = []; cnt = pos = neg = score = 0; each = [0] * len(pats); some = False
        for r in rows:
            if len(r) != n: ctx.count("rows on other numbers of bells"); continue
            back = not back
            if "i" in par and R.sign(r) < 0 or "o" in par and R.sign(r) > 0: continue
            hit = False; d = 0
            for i, (ps, sh, sb) in enumerate(pats):
                for f in ps:
                    if f(r): hit = True; d += sb if back else sh; each[i] += sb if back else sh; ctx.count("row/pattern matches")
            score += d
            if hit: cnt += 1; pos += d > 0; neg += d < 0
            some |= hit
            if hit or o["H"]: want.append(R.rs(r) + (" *" if hit and o["H"] else ""))
            ctx.count("rows"); ctx.count("rows at backstroke", back)
        if any(o[x] for x in "csSpn"):
            want = []
            l = [str(v) for f, v in (("p", pos), ("n", neg), ("c", cnt), ("s", score)) if o[f]]
            if l: want.append("\t".join(l))
            if o["S"] and pats: want.append("\t".join(map(str, each)))
        argv = opts + (["--"] if any(a[:1] in "-" for a in args) else []) + args
        r = ctx.app("musgrep", argv, text, env={"TERM": rng.choice(["xterm", "dumb", "nosuch", ""])})
        if r is None: return
        ctx.count("runs"); ctx.count("counting runs", any(o[x] for x in "csSpn"))
        if bad or par == "io":
            ctx.count("runs that must fail")
            if r.rc != 1 or r.out or not r.err: ctx.appbad("musgrep", argv, text, r, "a bad pattern or contradictory options must be reported with a failing status")
            return
        if r.rc or r.out.splitlines() != want: return ctx.appbad("musgrep", argv, text, r, "should print %s" % want[:40])
        ctx.ok_case("|".join(argv) + str(k) if some and pats else None)
    ctx.map(one, range(ctx.n(2500, 20000)))
    for argv in ([], ["*12"], ["-b", "0"], ["-b", "-3", "12"], ["-b", "33", "*"], ["-b", "6", "[12"], ["-b", "6", "<nonesuch>"], ["-b", "x"], ["-b", "6", "1,2,3:*"], ["-b", "4", "*5"], ["-b"], ["-b", "6", "-z"]):
        r = ctx.app("musgrep", argv, "123456\n")
        if r is None: continue
        ctx.count("runs that must fail")
        if r.rc != 1 or r.out or not r.err: ctx.appbad("musgrep", argv, "123456\n", r, "bad options must be reported with a failing status")
        else: ctx.ok_case("bad" + " ".join(argv))
    ctx.minimum = {"runs": 1000, "row/pattern matches": 3000, "counting runs": 300, "rows at backstroke": 3000, "rows on other numbers of bells": 100}
