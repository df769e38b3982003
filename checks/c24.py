"""C24: rowcalc computes row expressions by row algebra."""
import os
from collections import Counter
from vt import ring as R

class Fail(Exception): pass
SEPS = " ,;:\t\r\n"

def literal(text, b, C):
    """the row that a token denotes"""
    if C:
        try: return R.ext(R.ap(R.rounds(b), R.pc(b, text)), b)
        except R.Bad: pass
        r = R.pr(text)
        if len(r) != b: raise R.Bad(text)
        return r
    if "1" not in text and "I" not in text.upper(): text = "1" + text
    return R.pr(text)

class N:
    """a node: text, precedence (0 difference, 1 product, 2 power, 3 atom), rows, vector, ordered, stdin, single token"""
    def __init__(s, text, prec, rows, vec, ordered=True, stdin=False, nums=False): s.t, s.p, s.rows, s.vec, s.o, s.i, s.nums = text, prec, rows, vec, ordered, stdin, nums

def sp(rng): return " " if rng.random() < .15 else ""
def par(rng, x, need):
    if x.p < need or rng.random() < .08: return "(" + sp(rng) + x.t + sp(rng) + ")"
    return x.t

def cross(A, B, f):
    if A.i: return [f(a, b) for a in A.rows for b in B.rows]
    return [f(a, b) for b in B.rows for a in A.rows]

def closure(gens, n, most=130):
    e = R.rounds(n); S = {e}; todo = [e]; gens = [R.ext(g, n) for g in gens]
    while todo:
        x = todo.pop()
        for g in gens:
            y = R.mul(x, g)
            if y not in S:
                S.add(y); todo.append(y)
                if len(S) > most: return None
    return S

class Gen:
    def __init__(s, rng, n, b, C, scratch):
        s.rng, s.n, s.b, s.C, s.dir = rng, n, b, C, scratch; s.stdin = None; s.files = 0; s.trim = rng.random() < .5; s.size = 0; s.kinds = Counter()
    def rowtext(s):
        rng = s.rng; n = s.n
        while True:
            if s.C:
                if rng.random() < .5:
                    c = R.rand_change(rng, n); t = R.cs(c, rng.choice("xX"))
                    if t not in "xX" and rng.random() < .4:
                        for u in (t.strip("1"), t.rstrip(R.ch(n - 1)), t.strip("1" + R.ch(n - 1))):
                            try:
                                if u and R.pc(n, u) == c: t = u
                            except R.Bad: pass
                else: t = R.rs(R.rand_row(rng, n))
            else:
                r = R.rand_row(rng, n)
                if rng.random() < .4: r = (0,) + tuple(x + 1 for x in R.rand_row(rng, n - 1))
                if rng.random() < .3:
                    k = rng.randint(1, n); r = R.rand_row(rng, k) + tuple(range(k, n))
                t = R.rs(r)
                if r[0] == 0 and n > 2 and rng.random() < .7: t = t[1:]
                if s.trim:
                    k = len(r)
                    while k > 2 and r[k - 1] == k - 1 and rng.random() < .7: k -= 1; t = t[:-1]
                if rng.random() < .1: t = t.lower()
            if not t: continue
            try: return t, literal(t, s.b, s.C)
            except R.Bad: raise RuntimeError("generator " + t)
    def words(s, k):
        rows = []; out = s.rng.choice(["", "", " ", "\n", ",\t"])
        for _ in range(k):
            r = R.rand_row(s.rng, s.n); rows.append(r)
            out += (R.rs(r) if s.rng.random() < .8 else R.rs(r).lower()) + "".join(s.rng.choice(SEPS) for _ in range(s.rng.choice([1, 1, 1, 2, 3])))
        if s.rng.random() < .4: out = out.rstrip(SEPS)
        return out, rows
    def atom(s, d):
        rng = s.rng; k = rng.random()
        if d <= 0 or k < .34:
            t, r = s.rowtext(); s.kinds["row"] += 1; return N(t, 3, [r], False)
        if k < .6:
            el = [s.expr(d - 1) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            s.kinds["nested set" if any(e.vec for e in el) else "set"] += 1
            return N("{" + sp(rng) + ("," + sp(rng)).join(e.t for e in el) + "}", 3, [r for e in el for r in e.rows], True, all(e.o for e in el), any(e.i for e in el))
        if k < .74:
            el = [s.expr(d - 2) for _ in range(rng.choice([1, 1, 2]))]; gens = [r for e in el for r in e.rows]
            if gens and len(gens) < 10:
                m = max(map(len, gens)); g = closure(gens, m)
                if g: s.kinds["group"] += 1; return N("<" + ("," + sp(rng)).join(" " * (e.t[0] == "(") + e.t for e in el) + ">", 3, sorted(g), True, False, any(e.i for e in el))
            return s.atom(0)
        if k < .82:
            t, rows = s.words(rng.choice([0, 1, 2, 3, 5])); s.kinds["command"] += 1
            t = t.replace("\n", " ").replace("\r", " ").replace("\t", " ")
            return N("$(" + rng.choice(["echo '%s'", "printf '%s'"]) % t + ")", 3, rows, True)
        if k < .91 or s.stdin is not None:
            t, rows = s.words(rng.choice([0, 1, 2, 3, 5])); s.files += 1; f = "f%d" % s.files; s.kinds["file"] += 1
            with open(os.path.join(s.dir, f), "wb") as h: h.write((b"\xef\xbb\xbf" if rng.random() < .2 else b"") + t.encode())
            return N("<(" + sp(rng) + f + sp(rng) + ")", 3, rows, True)
        t, rows = s.words(rng.choice([0, 1, 2, 3, 5])); s.stdin = t; s.kinds["standard input"] += 1
        return N("<(-)", 3, rows, True, True, True)
    def power(s, a):
        rng = s.rng
        while True:
            v = rng.choice([0, 1, 2, 3, 5, 6, 9, 10, 13, 24, 100, 999, rng.randint(0, 9)]); t = str(v); k = rng.random()
            if k < .25: t = "-" + sp(rng) + t; v = -v
            elif k < .4: t = "+" + t
            elif len(t) > 1:
                try: literal(t, s.b, s.C); continue
                except R.Bad: pass
            return t, v
    def expr(s, d):
        rng = s.rng
        if d <= 0 or rng.random() < .3: return s.atom(d)
        k = rng.random(); a = s.expr(d - 1)
        if k < .3:
            t, v = s.power(a); s.kinds["power"] += 1
            return N(par(rng, a, 3) + sp(rng) + "^" + sp(rng) + t, 2, [R.power(r, v) for r in a.rows], a.vec, a.o, a.i)
        b = s.expr(d - 1)
        if len(a.rows) * len(b.rows) > 400: return a if rng.random() < .5 else b
        vec = a.vec or b.vec; o = a.o and b.o; i = a.i or b.i
        if k < .45:
            rows = cross(a, b, lambda x, y: R.mul(R.inv(y), R.mul(x, y)))
            tb = par(rng, b, 2)
            if len(tb) == 1: tb = "(" + tb + ")"      # a single character would be a number
            s.kinds["conjugation"] += 1
            return N(par(rng, a, 3) + "^" + sp(rng) + tb, 2, rows, vec, o, i)
        if k < .85:
            op = rng.choice("**/\\"); s.kinds["product"] += 1
            f = {"*": R.mul, "/": R.div, "\\": lambda x, y: R.mul(R.inv(x), y)}[op]
            if vec and a.vec and b.vec: s.kinds["product of sets"] += 1
            return N(par(rng, a, 1) + sp(rng) + op + sp(rng) + par(rng, b, 2), 1, cross(a, b, f), vec, o, i)
        s.kinds["difference"] += 1
        if s.trim: return a
        if rng.random() < .5 and a.rows and not s.C:
            x = rng.choice(a.rows)
            b = N("{" + R.rs(x) + "," + b.t + "}", 3, [x] + b.rows, True, b.o, b.i) if rng.random() < .5 else N(R.rs(x), 3, [x], False)
        ex = set(b.rows)
        return N(par(rng, a, 0) + sp(rng) + "-" + sp(rng) + par(rng, b, 1), 0, [r for r in a.rows if r not in ex], a.vec, a.o, a.i or b.i)

def out_rows(rows, b, C):
    """(printed rows, failed)"""
    out = []
    for r in rows:
        if b and C and len(r) != b: return out, True
        if b:
            if len(r) > b and sorted(r[:b]) != list(range(b)): return out, True
            r = R.ext(r, b)[:b]
        out.append(R.rs(r))
    return out, False

MALFORMED = ["{2143,1342", "2143}", "(2143", "2143)", ")2143(", "<2143", "2143>", "{}", "()", "<>", "2143*", "*2143", "2143-", "-2143", "2143^", "^2143", "2143/", "/2143", "2143**1342", "2143^^2", "{,21}", "{21,}", "{21,,12}",
             "2143 1342", "22", "1123", "2143*22", "2143^99999999999999", "#", "2143 # 2", "2143,1342", "{2143}{1342}", "(2143)(1342)", "2143(2)", "2143^(-1)", "2143^-", "2143^--1", "2143^-1342z!", "1.2", "$(echo 2143", "<(file", "$", "{2143)", "(2143}", "<2143}",
             "2143^-{21}", "2143^+", "2143 +", "2143 + 1342", "+2143", "2 1 4 3", "12a4", "(2143)^(2)(", "~2143", "2143'", "2143@", "2143^{2,3}"]

def run(ctx):
    ctx.need("rowcalc"); rng = ctx.rng
    ctx.rule = ("random expression trees over rows, changes, nested sets, generated groups, command output, files and standard input, with products, both divisions, powers, conjugation and set difference, with and without a stage; "
                "malformed expressions; several expressions per run and expressions read from standard input. Non-trivial: distinct expressions with more than one row or operator")
    def one(k):
        rng = __import__("random").Random("%s/%d" % (ctx.seed, k))
        d = os.path.join(ctx.scratch, "e%d" % k); os.makedirs(d)
        n = rng.choice([2, 3, 4, 4, 5, 6, 8, 11]); C = rng.random() < .2; b = n if C else rng.choice([0, 0, n, n, n + 2])
        mode = "stdin" if rng.random() < .15 else "args"; cnt = rng.random() < .15
        args = []; want = []; fail = False; exact = True; texts = []; kinds = Counter(); feed = None
        if b: args += ["-b", str(b)]
        if C: args.append("-C")
        if cnt: args.append("-c")
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            g = Gen(rng, n, b, C, d); g.files = len(os.listdir(d))
            if mode == "stdin" or feed is not None: g.stdin = ""
            while True:
                x = g.expr(rng.choice([1, 2, 2, 3, 3, 4]))
                if len(x.rows) <= 3000: break
            if mode == "args" and g.stdin is not None and feed is None: feed = g.stdin
            if mode == "stdin" and "\n" in x.t: continue
            rows, f = out_rows(x.rows, b, C)
            kinds.update(g.kinds)
            texts.append(x.t)
            if f and rows and not x.o: fail = None; break
            exact = exact and x.o
            if not (f and cnt): want += [str(len(rows))] if cnt else rows
            if f and mode == "args": fail = True; break
            if rng.random() < .15:
                t = rng.choice(MALFORMED if not C and b != 2 else MALFORMED[:31]); texts.append(t); kinds["malformed"] += 1
                if mode == "args": fail = True; break
        if not texts or fail is None: return
        if mode == "stdin":
            feed = "".join(rng.choice(["", "", "\n", "  "]) + t + rng.choice(["\n", " \n", "\n\n"]) for t in texts)
            if rng.random() < .3: feed = feed.rstrip("\n")
            argv = args
        else: argv = args + (["--"] if any(t.startswith("-") for t in texts) else []) + texts
        # an expression that needs the input only sees it once
        r = ctx.app("rowcalc", argv, feed or "", cwd=d)
        if r is None: return
        got = r.out.splitlines()
        for kk, v in kinds.items(): ctx.count(kk, v)
        ctx.count("expressions", len(texts)); ctx.count("rows printed", len(got)); ctx.count("runs that must fail", bool(fail)); ctx.count("counted", cnt); ctx.count("lines from standard input", mode == "stdin")
        if mode == "args" and (r.rc != 0) != bool(fail): return ctx.appbad("rowcalc", argv, feed or "", r, "the status should be %s" % ("a failure" if fail else "success"))
        if mode == "stdin" and r.rc not in (0, 1): return ctx.appbad("rowcalc", argv, feed, r, "the status is not normal")
        if fail and not r.err.strip(): return ctx.appbad("rowcalc", argv, feed or "", r, "nothing was reported")
        ok = got == want if exact or cnt else Counter(got) == Counter(want)
        if not ok: return ctx.appbad("rowcalc", argv, feed or "", r, "should print %s" % want[:60])
        ctx.ok_case("|".join(argv) if len(want) > 1 else None)
    ctx.map(one, range(ctx.n(3000, 20000)))
    def bad(t):
        for args in ([], ["-b", "6"]):
            argv = args + ["--", t]
            r = ctx.app("rowcalc", argv)
            if r is None: continue
            ctx.count("malformed expressions")
            if r.rc != 1 or r.out or not r.err.strip(): ctx.appbad("rowcalc", argv, "", r, "a malformed expression must be reported with a failing status and print nothing")
            else: ctx.ok_case("bad " + t)
    ctx.map(bad, MALFORMED)
    for argv, what in ((["-b", "99", "21"], "too many bells"), (["-b", "-1", "21"], "a negative number of bells"), (["-C", "21"], "-C without -b"), (["<(nosuchfile)"], "a missing file"), (["{21,<(nosuchfile)}"], "a missing file"),
                       (["$(echo 22)"], "an invalid row"), (["$(echo 1x3)"], "an unreadable row"), (["-b", "4", "-C", "$(echo 12345)"], "a row on too many bells"), (["-b", "3", "1324"], None), (["-b", "3", "1342"], "a row that does not fit"),
                       (["<(-)*<(-)"], "standard input read twice")):
        r = ctx.app("rowcalc", argv, "2143 1324\n1342\n")
        if r is None: continue
        ctx.count("bad input")
        if what is None: continue
        if r.rc != 1 or not r.err.strip(): ctx.appbad("rowcalc", argv, "2143 1324\n1342\n", r, "%s must be reported with a failing status" % what)
        else: ctx.ok_case("bad " + " ".join(argv))
    ctx.minimum = {"expressions": 500, "nested set": 50, "product of sets": 50, "runs that must fail": 20}
