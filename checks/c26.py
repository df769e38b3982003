"""C26: the extent and method printers print the right rows."""
import random, re
from math import factorial
from vt import ring as R, meth as M, libs as L

def run(ctx):
    ctx.need("extent", "printmethod"); rng = ctx.rng
    ctx.rule = ("every combination of bells, hunts and fixed tenors with at most 7 working bells (8 when thorough), in course or not; random methods of many forms in place notation on 2 to 20 bells, from rounds and other rows, with every option and with "
                "bells coloured. Non-trivial: distinct option sets and methods")
    cases = []
    W = 8 if ctx.thorough else 7
    for n in list(range(1, 13)) + [20, 32, 33]:
        for h in range(0, n + 1):
            for t in range(0, n + 1 - h):
                if n - h - t <= W and (n <= 7 or n - h - t < 4 or rng.random() < .1 or h in (0, 1) and t in (0, n - 7)):
                    for i in (0, 1): cases.append((n, h, t, i))
    def ext(c):
        n, h, t, i = c; w = n - h - t
        if w >= 7 and n > 9 and not ctx.thorough: return
        argv = ["-b", str(n)] + (["-h", str(h)] if h or rng.random() < .3 else []) + (["--tenors=%d" % t] if t else []) + (["-i"] if i else [])
        r = ctx.app("extent", argv)
        if r is None: return
        got = r.out.splitlines(); ctx.count("extents"); ctx.count("rows of extents", len(got))
        want = factorial(w) // (2 if i and w > 1 else 1)
        if r.rc: return ctx.appbad("extent", argv, "", r, "failed")
        if len(got) != want or len(set(got)) != want: return ctx.appbad("extent", argv, "", r, "%d rows, %d different; should be %d" % (len(got), len(set(got)), want))
        for x in got:
            try: row = R.pr(x)
            except R.Bad: return ctx.appbad("extent", argv, "", r, "%r is not a row" % x)
            if len(row) != n or row[:h] != tuple(range(h)) or row[n - t:] != tuple(range(n - t, n)) or i and R.sign(row) < 0:
                return ctx.appbad("extent", argv, "", r, "%s does not belong" % x)
        ctx.ok_case("extent %s" % (c,))
    ctx.map(ext, cases)
    for argv in (["-b", "3", "-h", "2", "-t", "2"], ["-b", "-1"], ["-b", "4", "--hunts=-1"], ["-b", "4", "--tenors=-1"], ["-b", "34"], ["-b", "2147483647", "-h", "2147483640"], ["-b", "3", "-h", "2147483647", "-t", "2147483647"], ["-b", "x"], ["-b", "4", "5"]):
        r = ctx.app("extent", argv)
        if r is None: continue
        ctx.count("runs that must fail")
        if r.rc != 1 or r.out or not r.err: ctx.appbad("extent", argv, "", r, "bad options must be reported with a failing status")
        else: ctx.ok_case("bad" + " ".join(argv))
    COL = {"R": 1, "G": 2, "B": 4}
    def meth(k):
        rng = random.Random("%s/%d" % (ctx.seed, k))
        n = rng.choice([2, 3, 4, 5, 6, 6, 7, 8, 8, 9, 10, 12, 14, 16, 20])
        m = L.some_method(rng, n) if n <= 14 and n >= 3 and rng.random() < .7 else M.random_method(rng, n, 10) if n > 2 else [R.rand_change(rng, n, .6) for _ in range(rng.randint(1, 5))]
        pn = L.pn_text(rng, m); argv = []; start = R.rounds(n); col = {}
        if rng.random() < .3:
            start = R.rand_row(rng, n); argv += ["-s", R.rs(start)]
        c = rng.random() < .4; F = rng.random() < .3; S = rng.random() < .3; ir = rng.choice([0, 0, 0, 1, 2, 3]); fr = rng.choice([0, 0, 0, 1, 2, 4])
        if c: argv.append(rng.choice(["-c", "--course"]))
        if F: argv.append(rng.choice(["-F", "--omit-final"]))
        if S: argv.append(rng.choice(["-S", "--omit-start"]))
        if ir: argv += ["-r", str(ir)]
        if fr: argv += ["--final-rounds=%d" % fr]
        lh = R.rounds(n)
        for x in m: lh = R.ap(lh, x)
        if c and R.order(lh) * len(m) > 3000: return
        term = "xterm"
        if rng.random() < .3:
            for f in "RGB":
                if rng.random() < .6:
                    s = ""; bold = False
                    for _ in range(rng.randint(1, 3)):
                        if rng.random() < .3: s += "*"; bold = not bold
                        b = rng.randrange(n); s += R.ch(b); col[b] = (COL[f], bold)
                    argv += ["-" + f, s]
            term = rng.choice(["xterm", "xterm", "xterm", "dumb", "nosuch", ""])
        q = rng.random(); argv2 = argv[:]
        if q < .4: argv2 = ["-b", str(n)] + argv + ["--", pn]
        elif q < .8: argv2 = argv + ["%d:%s" % (n, pn)]
        else: argv2 = argv + ["-b", str(n), "%d:%s" % (n, pn)]
        want = [start] * (2 * ir); r = start; first = True
        while True:
            for x in m:
                if not (first and (S or ir)): want.append(r)
                first = False; r = R.ap(r, x)
            if not c or r == start: break
        if not F: want.append(r)
        want += [r] * (2 * fr)
        res = ctx.app("printmethod", argv2, env={"TERM": term})
        if res is None: return
        ctx.count("methods printed"); ctx.count("rows of methods", len(want)); ctx.count("whole courses", c); ctx.count("coloured", bool(col)); ctx.count("unusual starting rows", start != R.rounds(n))
        if res.rc: return ctx.appbad("printmethod", argv2, "", res, "failed")
        text = res.out
        if col and term == "xterm":
            lines = []
            for line in text.splitlines():
                out = ""; fg = None; bold = False
                for tok in re.findall(r"\x1b\[[0-9;]*m|\x1b\(B|\x0f|.", line):
                    if tok[0] == "\x1b":
                        if tok[1:3] == "(B": continue
                        for a in (tok[2:-1] or "0").split(";"):
                            if a == "0": fg = None; bold = False
                            elif a == "1": bold = True
                            elif 30 <= int(a) <= 37: fg = int(a) - 30
                            elif a == "39": fg = None
                    elif tok == "\x0f": pass
                    else:
                        b = R.SYM.find(tok)
                        if (fg, bold) != col.get(b, (None, False)): return ctx.appbad("printmethod", argv2, "", res, "bell %s is printed in colour %s%s, should be %s" % (tok, fg, " bold" if bold else "", col.get(b)))
                        out += tok; ctx.count("bells whose colour was checked")
                if fg is not None or bold: return ctx.appbad("printmethod", argv2, "", res, "the colour runs on past the end of a line")
                lines.append(out)
        else: lines = text.splitlines(); lines = [re.sub(r"\x1b\[[0-9;]*m|\x1b\(B|\x0f", "", l) for l in lines] if col else lines
        if lines != [R.rs(x) for x in want]:
            i = next((i for i, (a, b) in enumerate(zip(lines, want)) if a != R.rs(b)), min(len(lines), len(want)))
            return ctx.appbad("printmethod", argv2, "", res, "%d rows, should be %d; the first wrong one is number %d, which should be %s" % (len(lines), len(want), i + 1, R.rs(want[i]) if i < len(want) else "absent"))
        ctx.ok_case("|".join(argv2))
    ctx.map(meth, range(ctx.n(1200, 9000)))
    for argv in ([], ["x.14"], ["-b", "4", "x.1z"], ["-b", "4", "x.15"], ["-b", "5", "4:x"], ["-s", "123", "4:x"], ["-s", "1224", "4:x"], ["-s", "12x4", "4:x"], ["abc:x"],
                 ["99999999999:x"], [":x"], ["-b", "-3", "x"], ["300:x"], ["-b", "2147483647", "x"], ["-R", "!", "4:x"], ["-r", "x", "4:x"]):
        r = ctx.app("printmethod", argv)
        if r is None: continue
        ctx.count("runs that must fail")
        if r.rc != 1 or r.out or not r.err: ctx.appbad("printmethod", argv, "", r, "bad options must be reported with a failing status")
        else: ctx.ok_case("bad" + " ".join(argv))
    ctx.minimum = {"extents": 200, "methods printed": 600, "whole courses": 200, "coloured": 100, "bells whose colour was checked": 1000}
