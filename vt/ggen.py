"""Random gsiril programs, as trees of vt.gsir"""
import random, re
from . import ring as R, gsir as G

def pntext(rng, ch):
    """a place-notation literal: changes -> text"""
    n = ch[0][0]
    if len(ch) % 2 and len(ch) > 1 and ch == ch[::-1] and rng.random() < .8:
        h = ch[:len(ch) // 2 + 1]
        return "&" + R.pns(h, rng.choice("X-x") if n % 2 == 0 else "X")
    return "+" + R.pns(ch, rng.choice("X-x") if n % 2 == 0 else "X")

def rchange(rng, n):
    if n % 2 == 0 and rng.random() < .35: return R.pc(n, "X")
    return R.rand_change(rng, n, rng.choice([.75, .9, 1]))

def pal(rng, n, k):
    h = []
    while len(h) < k:
        c = rchange(rng, n)
        if not h or c != h[-1]: h.append(c)
    return h + h[-2::-1]

class Gen:
    def __init__(s, rng, n):
        s.rng, s.n = rng, n
        s.t = {k: [] for k in "iblsexpr"}    # names by type: i ints, b bools, s strings, p blocks, x executable
        s.t["p"] = []; s.t["x"] = []
        s.inloop = 0; s.pure = 0; s.k = 0; s.music = False
    def pick(s, *opts):
        """(weight, thunk) pairs"""
        tot = sum(w for w, _ in opts); k = s.rng.random() * tot
        for w, f in opts:
            k -= w
            if k < 0: return f()
        return opts[-1][1]()
    def new(s, kind):
        s.k += 1
        nm = s.rng.choice(["a", "zz", "Q_", "sym", "x1_", "P", "_q"]) + str(s.k)
        return nm
    def some(s, kind):
        return G.Sym(s.rng.choice(s.t[kind]))
    # ------------------------------------------------------------ by type
    def num(s):
        r = s.rng.random()
        if r < .8: return G.Num(s.rng.randint(0, 9))
        if r < .97: return G.Num(s.rng.randint(0, 300))
        return G.Num(s.rng.choice([2**31 - 1, 2**31, 2**32, 2**62, 2**63 - 1, 10**12]))
    def int(s, d):
        r = s.rng
        if d <= 0: return s.some("i") if s.t["i"] and r.random() < .3 else s.num() if r.random() < .75 else G.IWord(r.choice(["bells", "length"])) if r.random() < .6 else G.Call("rowno")
        o = [(2, s.num), (5, lambda: G.Arith(r.choice("++--**/%"), s.int(d - 1), s.int(d - 1))),
             (2, lambda: G.Call(r.choice(["at", "pos"]), G.Num(r.randint(1, s.n)) if r.random() < .8 else s.int(d - 1))),
             (1, lambda: G.IWord(r.choice(["bells", "length"]))), (.7, lambda: s.alt(s.int, d))]
        if s.t["i"]: o.append((2, lambda: s.some("i")))
        if s.t["i"] and not s.pure: o.append((.6, lambda: G.Inc(r.choice(s.t["i"]), r.choice([1, -1]))))
        if s.music: o.append((.5, lambda: G.Call("music")))
        return s.pick(*o)
    def pat(s):
        r = s.rng; n = s.n
        row = R.rand_row(r, n) if r.random() < .7 else R.rounds(n)
        if r.random() < .5:
            out = []
            for b in row:
                k = r.random()
                out.append("?" if k < .5 else frozenset([b, r.randrange(n)]) if k < .65 else b)
            i = r.randrange(n); 
            if r.random() < .7: j = r.randint(i, n); out[i:j] = ["*"]
        else:
            k = r.randint(1, 3); i = r.randrange(max(1, n - k)); out = list(row[i:i + k])
            if r.random() < .8: out = ["*"] + out
            if r.random() < .8 or out[0] != "*": out = out + ["*"]
        return G.Pat(out)
    def bool(s, d):
        r = s.rng
        o = [(1, lambda: G.Bool(r.random() < .5)), (1.5, lambda: G.Word("rounds")), (.5, lambda: G.Word("proving")), (3, s.pat),
             (.6, lambda: G.Defined(r.choice(sum(s.t.values(), []) + ["nosuch", "rounds_", "everyrow", "at", "music", "true", "max_length"]), r.random() < .7))]
        if d > 0:
            o += [(4, lambda: G.Cmp(r.choice(["==", "!=", "<", ">", "<=", ">="]), s.int(d - 1), s.int(d - 1))), (3, lambda: G.Logic(r.choice(["&&", "||"]), s.bool(d - 1), s.bool(d - 1))),
                  (1.5, lambda: G.Not(s.bool(d - 1))), (1, lambda: G.Cmp(r.choice(["==", "!=", "<", ">", "<=", ">="]), s.str(d - 1), s.str(d - 1))), (.3, lambda: G.Cmp("==", s.bool(d - 1), s.bool(d - 1))),
                  (.3, lambda: G.Cmp(r.choice(["==", "!="]), s.int(d - 1), s.str(d - 1))), (.5, lambda: s.alt(s.bool, d))]
        if s.t["b"]: o.append((1.5, lambda: s.some("b")))
        return s.pick(*o)
    def lit(s, esc=True, ab=True):
        r = s.rng; t = ""
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            k = r.random()
            if k < .3: t += r.choice(["foo", " ", "it's", "a, b", "(x)", "; y", "//", "é", "%", "{", "}", "x = 1"])
            elif k < .55: t += "@"
            elif k < .65: t += "#"
            elif k < .75: t += "$ "
            elif k < .87 and any(s.t[c] for c in "ibs"): t += "${" + r.choice(s.t["i"] + s.t["s"]) + "}" if s.t["i"] + s.t["s"] else "z"
            elif k < .97 and esc: t += r.choice(["\\n", "\\t", "\\\\", "\\'", "\\$", "\\@", "\\#", "\\x41", "\\x7E", "\\u00e9", "\\U0001F514", "\\q", "\\u2207"])
            elif k > .985 and ab: t += "$$"
        if esc and r.random() < .1: t += "\\"
        if t.endswith("$"): t += " "
        return t
    def str(s, d):
        r = s.rng
        o = [(4, lambda: G.Str(s.lit(esc=False, ab=False)))]
        if d > 0: o += [(1.5, lambda: G.Append(s.str(d - 1), s.str(d - 1))), (.5, lambda: G.Append(s.str(d - 1), s.int(d - 1))), (.5, lambda: G.Call("pnstr", *[s.pn(d - 1) for _ in range(r.choice([1, 1, 2]))])),
                        (.4, lambda: G.Call("stagename", G.Num(r.randint(3, 12)) if r.random() < .8 else G.IWord("bells"))), (.5, lambda: s.alt(s.str, d))]
        if s.t["s"]: o.append((2, lambda: s.some("s")))
        return s.pick(*o)
    def block(s, lo=1, hi=6):
        r = s.rng
        if r.random() < .5: ch = pal(r, s.n, r.randint(1, max(1, hi // 2)))
        else: ch = [rchange(r, s.n) for _ in range(r.randint(lo, hi))]
        return G.PN(pntext(r, ch), ch)
    def rep(s, d):
        """a replacement for &"""
        r = s.rng
        if r.random() < .5: return s.block(1, 2)
        return G.Shift(s.block(1, 2), G.Num(r.randint(0, 3)) if r.random() < .9 else s.int(1), r.random() < .4)
    def pn(s, d):
        r = s.rng
        o = [(4, s.block)]
        if d > 0: o += [(2, lambda: G.List(*[s.pn(d - 1) for _ in range(r.choice([2, 2, 3]))])), (1, lambda: G.Rep(r.randint(0, 3), s.pn(d - 1), r.choice([None, None, "l", "r"]))),
                        (1, lambda: G.Rev(s.pn(d - 1))), (1.5, lambda: G.Merge(s.pn(d - 1), s.rep(d)))]
        if s.t["p"]: o.append((4, lambda: s.some("p")))
        return s.pick(*o)
    def alt(s, f, d):
        r = s.rng; al = []
        s.pure += 0
        for _ in range(r.choice([1, 1, 2])): al.append((s.bool(d - 1), f(d - 1)))
        if r.random() < .85: al.append((None, f(d - 1)))
        return G.Alt(al)
    def exe(s, d):
        r = s.rng
        o = [(3, lambda: s.pn(min(d, 1))), (1.5, lambda: G.Str(s.lit()))]
        if s.t["x"]: o.append((3, lambda: s.some("x")))
        if d > 0:
            o += [(4, lambda: G.List(*[s.exe(d - 1) for _ in range(r.choice([2, 2, 3]))])), (1.5, lambda: G.Rep(r.randint(0, 4), s.exe(d - 1), r.choice([None, None, "l", "r"]))),
                  (1, lambda: s.loop(d)), (2, lambda: s.alt(s.exe, d)), (.5, lambda: G.Transp(R.rand_row(r, s.n if r.random() < .7 else r.randint(2, s.n)))),
                  (.4, lambda: G.Rev(s.exe(d - 1))), (.25, lambda: G.EndProof()), (.3, lambda: s.bool(1)), (.3, lambda: s.int(1)), (.5, lambda: G.Call("swap", *[G.Num(r.randint(1, s.n)) for _ in range(r.choice([1, 2, 2]))])),
                  (.5, lambda: s.vrep(d)), (.4, lambda: G.Str(s.lit(), parent=True))]
            if not s.pure:
                if s.t["i"]: o += [(1, lambda: G.Assign(r.choice(s.t["i"]), s.int(d - 1), r.choice(["=", ":="]))), (.6, lambda: G.Inc(r.choice(s.t["i"]), r.choice([1, 1, -1])))]
                if s.t["s"]: o += [(.6, lambda: G.Assign(r.choice(s.t["s"]), s.str(d - 1), r.choice([":=", ":=", ".="])))]
                if s.t["b"]: o += [(.4, lambda: G.Assign(r.choice(s.t["b"]), s.bool(d - 1), r.choice(["=", ":="])))]
                if s.t["i"] + s.t["s"]: o += [(.3, lambda: G.Save(r.choice(s.t["i"] + s.t["s"])))]
            if s.inloop: o.append((.6, lambda: G.BreakE()))
        return s.pick(*o)
    def vrep(s, d):
        """a block times a computed number"""
        s.inloop += 1
        try: return G.Rep(G.Arith("%", s.int(d - 1), G.Num(s.rng.randint(2, 4))), s.exe(d - 1), s.rng.choice("lr"))
        finally: s.inloop -= 1
    def loop(s, d):
        s.inloop += 1
        try:
            r = s.rng
            brk = G.Alt([(r.choice([G.Word("rounds"), s.pat(), G.Cmp(">=", G.IWord("length"), G.Num(r.randint(1, 60))), G.Cmp("==", G.Sym("loop_counter"), G.Num(r.randint(1, 5)))]), G.BreakE())])
            body = [s.exe(d - 1), brk]
            if r.random() < .2: body.reverse()
            return G.Rep(None, G.List(*body))
        finally: s.inloop -= 1

def wrap(rng, line):
    """break a line after commas, or in brackets, outside strings, or add a comment"""
    out = ""; q = None; i = 0
    while i < len(line):
        c = line[i]
        if q:
            out += c
            if c == q: q = None
        else:
            out += c
            if c == '"' or c == "'": q = c
            elif c == "/" and line[i:i + 2] != "/ " : # a pattern
                j = line.find("/", i + 1)
                if j > 0: out += line[i + 1:j + 1]; i = j
            elif c == "," and rng.random() < .15: out += "\n" + " " * rng.randint(0, 4)
        i += 1
    return out

def source(rng, stmts, plain=False):
    """text, and the number of the last line of each statement"""
    out = []; last = []
    for st in stmts:
        if not plain and rng.random() < .1: out.append(rng.choice(["", "// a comment", "   ", "\t// prove nothing"]))
        for l in st.lines(): out += (l if plain else wrap(rng, l) + (rng.choice([" // note", "  ", ""]) if rng.random() < .1 else "")).split("\n")
        last.append(len(out))
    # two strokes on a line could be a pattern
    if any(" / " in l and l.count("/") > 1 for l in out): raise G.Open
    return "\n".join(out) + "\n", last

def play(w, stmts, last, start=()):
    """(stdout, status, line of the error or None); START: definitions etc made before the program"""
    try:
        for st in start: st.ex(w)
        for st, ln in zip(stmts, last):
            try: st.ex(w)
            except G.Err: return "".join(w.out), 2, ln
    except G.Exit as e: return "".join(w.out), e.rc, None
    except RecursionError: raise G.Open
    return "".join(w.out), 1 if w.failed else 0, None

def language(rng):
    """a program about the language: (world, statements, options)"""
    n = rng.choice([4, 5, 6, 6, 6, 7, 8, 8, 10, 12])
    g = Gen(rng, n); st = [G.st_bells(n)]; w = G.World(); G.init(w); args = []
    if rng.random() < .1: st.append(G.st_extents(rng.choice([2, 3, 6])))
    if rng.random() < .1:
        g.music = True; st.append(G.st_music([g.pat() for _ in range(rng.randint(1, 3))]))
    def define(kind, op=None):
        nm = g.new(kind) if not g.t[kind] or rng.random() < .8 else rng.choice(g.t[kind])
        e = {"i": g.int, "b": g.bool, "s": g.str, "p": g.pn, "x": g.exe}[kind]
        g.pure = kind in "ib"
        x = e(rng.choice([0, 1, 2, 3])); g.pure = 0
        o = op or (rng.choice(["=", "=", "=", ":=", "?="]) if kind in "ib" else rng.choice(["=", "=", "?=", ":="]) if kind == "s" else rng.choice(["=", "=", "=", "?="]))
        if nm not in g.t[kind]: g.t[kind].append(nm)
        return G.st_def(nm, x, o)
    for k in "ibsp":
        for _ in range(rng.choice([0, 1, 2])): st.append(define(k))
    if rng.random() < .8: g.t["x"] = []
    for _ in range(rng.choice([0, 1, 2])): st.append(define("x"))
    for s in ("start", "finish", "rounds", "everyrow", "true", "false", "notround", "abort", "conflict"):
        if rng.random() < .12:
            x = g.exe(1 if s != "everyrow" else 0) if s not in ("everyrow", "rounds", "conflict") else G.Str(g.lit(ab=rng.random() < .2))
            st.append(G.st_def(s, x))
    def body(d):
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < .35: out.append(G.st_prove(g.exe(rng.choice([1, 2, 3, 3]))))
            elif k < .6: out.append(G.st_echo(g.str(rng.choice([0, 1, 2]))))
            elif k < .75: out.append(define(rng.choice("ibspx")))
            elif k < .85 and d: out.append(G.If([(g.bool(2), body(d - 1)) for _ in range(rng.choice([1, 1, 2]))] + ([(None, body(d - 1))] if rng.random() < .5 else [])))
            elif k < .93 and d:
                kind = rng.choice("ispb"); e = {"i": g.int, "b": g.bool, "s": g.str, "p": g.pn}[kind]; nm = g.new(kind)
                arr = G.Arr([e(1) for _ in range(rng.randint(0, 4))]); g.t[kind].append(nm)
                out.append(G.For(nm, arr, body(d - 1))); 
            else: out.append(G.st_echo(G.Str(g.lit(esc=False, ab=False)), "warn"))
        return out
    st += body(2)
    while len(st) < 14 and rng.random() < .6: st += body(2)
    return w, st, args

# ---------------------------------------------------------------- compositions

def xf(ch):
    r = R.rounds(ch[0][0])
    for c in ch: r = R.ap(r, c)
    return r

def composition(rng, big=1):
    """(world, statements, options, info): touches made of leads and calls"""
    n = rng.choice([4, 4, 5, 5, 6, 6, 6, 7, 8, 8, 10, 12]); w = G.World(); G.init(w); w.steps = 30000 * big; st = []; args = []
    PN = lambda ch: G.PN(pntext(rng, ch), ch)
    everyrow = rng.random(); post = []
    # the conditions of the proof, from the command line or in the program
    def either(name, stmt, opt):
        if rng.random() < .35: args.append(opt); post.append(stmt)
        else: st.append(stmt)
    either("bells", G.st_bells(n), rng.choice(["-b%d", "--bells=%d"]) % n)
    ext = rng.choice([1, 1, 1, 1, 2, 2, 3])
    if ext > 1 or rng.random() < .05: either("extents", G.st_extents(ext), rng.choice(["-n%d", "--extents=%d"]) % ext)
    q = rng.choice([0] * 8 + [1, 1, 2]); E = rng.random() < .12
    w.q = q; w.E = E
    if q: args += rng.choice([["-q"] * q, ["-" + "q" * q], ["--quiet"] * q])
    if E: w.syms['everyrow'] = G.Str('@'); args.append(rng.choice(["-E", "--everyrow-only"]))
    if rng.random() < .15:
        k = n if "-b%d" % n in args or "--bells=%d" % n in args or rng.random() < .5 else rng.randint(2, n)
        r = R.rand_row(rng, k); x = G.st_rounds(r)
        if args and args[0] in ("-b%d" % n, "--bells=%d" % n) and rng.random() < .5: args.append(rng.choice(["-r", "--rounds="]) + R.rs(r)); post.append(x)
        else: st.append(x)
    if rng.random() < .2:
        pat = []; 
        for b in range(n): pat.append("?" if rng.random() < .6 else b)
        if rng.random() < .5: pat = ["*"] + ([n - 1] if rng.random() < .5 else [])
        elif rng.random() < .4: i = rng.randrange(n); pat[i:] = ["*"]
        if rng.random() < .4: args.append("--row-mask=" + G.pat_str(pat)); w.mask = pat; w.maskopt = True
        else: st.append(G.st_mask(pat))
    # leads and calls
    lead = pal(rng, n, rng.choice([1, 2, 3, n, n]))
    if rng.random() < .5:   # plain hunting
        a = [R.pc(n, "X" if n % 2 == 0 else R.ch(n - 1)), R.pc(n, "1" + R.ch(n - 1)) if n % 2 == 0 else R.pc(n, "1")]
        lead = (a * n)[:2 * n - 1]
    ends = []
    while len(ends) < 3:
        c = R.rand_change(rng, n, .95, cross=False) if rng.random() < .5 else R.pc(n, rng.choice(["12", "14", "1234"] if n % 2 == 0 else ["1", "3", "123", "125" if n > 5 else "145"]))
        if c not in ends: ends.append(c)
    if rng.random() < .25: st.append(G.st_def('conflict', G.Str(rng.choice(['', '\\\\', 'again: @ #']))))
    names = rng.choice([["p", "b", "s"], ["P", "B", "S"], ["plain", "bob", "single"]])
    form = rng.random()
    if form < .4:
        st.append(G.st_def("lead", PN(lead)))
        for nm, c in zip(names, ends): st.append(G.st_def(nm, G.List(G.Sym("lead"), PN([c]))))
    elif form < .7:
        st.append(G.st_def(names[0], G.List(PN(lead), PN([ends[0]]))))
        for nm, c in zip(names[1:], ends[1:]): st.append(G.st_def(nm, G.Merge(G.Sym(names[0]), PN([c])) if rng.random() < .6 else G.Merge(G.Sym(names[0]), G.Shift(PN([c]), G.Num(0), False))))
    else:
        for nm, c in zip(names, ends): st.append(G.st_def(nm, PN(lead + [c])))
    eff = [xf(lead + [c]) for c in ends]
    # what to say
    everyr = None
    if rng.random() < .5:
        everyr = rng.choice([G.Str("@"), G.Str("@ #"), G.Str("@\\"), G.Str("  @\\t$ "), G.Alt([(Gen(rng, n).pat(), G.Str("@ ${n}") if False else G.Str("@*"))]), G.Alt([(G.Cmp("==", G.Arith("%", G.IWord("length"), G.Num(4)), G.Num(0)), G.Str("#")), (None, G.Str("@"))])])
        st.append(G.st_def("everyrow", everyr))
    if rng.random() < .12: g = Gen(rng, n); st.append(G.st_music([g.pat() for _ in range(rng.randint(1, 4))]))
    for s, txts in [("conflict", ["false: @ (#)", "", "@ again", "@$$", "oh\\"]), ("true", ["yes #", "# changes, $ repeats", ""]), ("false", ["no: $ of #", "#"]), ("notround", ["@ at #"]), ("rounds", ["that's all, #", "stop$$", "="]),
                    ("start", ["go @"]), ("finish", ["end @ #"]), ("abort", ["aborted at # @"]), ("toolong", ["# is too long$$", "#\\"]), ("tooshort", ["# is too short"])]:
        if rng.random() < .15: st.append(G.st_def(s, G.Str(rng.choice(txts))))
    parts = [lead + [c] for c in ends]
    def istrue(t, o):
        r = R.rounds(n); seen = {}
        for x in t * o:
            for c in parts[x]:
                r = R.ap(r, c); seen[r] = seen.get(r, 0) + 1
                if seen[r] > ext: return False
        return True
    def touch():
        """a list of leads and calls, and how many times it takes to come round"""
        want = rng.random() < .75
        for z in range(40 if want else 6):
            k = rng.choice([1, 2, 3, 3, 4, 5, 6, 8]); t = [rng.choice([0, 0, 0, 1, 1, 2]) for _ in range(k)]
            if rng.random() < .2: t = [rng.choice([0, 1, 2])]
            r = R.rounds(n)
            for x in t: r = R.mul(r, eff[x])
            o = R.order(r); size = len(t) * o * (len(lead) + 1)
            if size * 2.5 < 20000 * big and (not want or z == 39 or istrue(t, o)): return t, o, size
        return [0], 1, len(lead) + 1
    def comp():
        t, o, size = touch()
        items = []
        for x in t:
            e = G.Sym(names[x])
            if items and rng.random() < .3 and isinstance(items[-1], G.Sym) and items[-1].n == e.n: items[-1] = G.Rep(2, e)
            else: items.append(e)
        if len(items) > 3 and rng.random() < .3:
            i = rng.randint(1, len(items) - 2); items[i:i + 2] = [G.List(*items[i:i + 2])]
        x = G.List(*items) if len(items) > 1 else items[0]
        if rng.random() < .1: x = G.Rev(x)
        k = rng.random()
        if k < .6: x = G.Rep(o, x) if o > 1 or rng.random() < .1 else x
        elif k < .7: x = G.Rep(o * ext, x)
        elif k < .78: x = G.Rep(max(1, o + rng.choice([-1, 1])), x)
        elif k < .86: x = G.Rep(None, G.List(x, G.Alt([(rng.choice([G.Word("rounds"), G.Cmp(">", G.IWord("length"), G.Num(rng.choice([size, size * 2, 10])))]), G.BreakE())])))
        elif k < .9: x = G.List(G.Rep(None, G.List(x, G.Alt([(G.Word("rounds"), G.EndProof()), (G.Not(G.Word("proving")), G.BreakE())]))))
        elif k < .94:
            g = Gen(rng, n); x = G.Rep(None, G.List(G.Alt([(g.pat(), G.Sym(names[1])), (None, G.Sym(names[0]))]), G.Alt([(G.Logic("||", G.Word("rounds"), G.Cmp(">", G.IWord("length"), G.Num(size))), G.BreakE())])))
        if rng.random() < .1: x = G.List(x, rng.choice([G.Transp(R.rand_row(rng, n)), PN([rng.choice(ends)]), G.Sym(names[0]), G.Rep(0, G.Sym(names[1]))]))
        if rng.random() < .07: x = G.List(PN([rng.choice(ends)]), x)
        return x, size
    proofs = []; sizes = []
    if rng.random() < .4:
        x, size = comp(); st.append(G.st_def("comp", x)); proofs.append(G.Sym("comp")); sizes.append(size)
    for _ in range(rng.choice([1, 1, 2, 3])):
        x, size = comp(); proofs.append(x); sizes.append(size)
    if rng.random() < .35:
        a = rng.choice(sizes) * rng.choice([1, 1, ext]) + rng.choice([0, 0, -1, 1, 5, -9]); b = a + rng.choice([0, 0, 1, 30])
        if a > 0:
            s = G.st_rows(a, b) if a != b or rng.random() < .3 else G.st_rows(a)
            if rng.random() < .5: args.append("--length=%s" % ("%d" % a if a == b and rng.random() < .5 else "%d-%d" % (a, b))); post.append(s)
            else: st.append(s)
    if rng.random() < .15: st.insert(rng.randint(0, len(st)), G.st_music([]) if False else G.S("// Composition", lambda w: None, None))
    for k, x in enumerate(proofs):
        if rng.random() < .15 and k: st.append(rng.choice([G.st_extents(rng.choice([1, 2])), G.st_def(names[1], PN(lead + [R.rand_change(rng, n, .95)])), G.st_rows(rng.choice([1, 24, 100]), 5000), G.st_def("everyrow", G.Str("#:@"))]))
        st.append(G.st_prove(x))
    if rng.random() < .08: w.trace = rng.sample(names + ["lead", "rounds", "start", "conflict"], rng.choice([1, 1, 2])); args += ["--trace-symbol=" + t for t in w.trace]
    elif rng.random() < .04: w.trace_all = True; args.append("--trace-all-symbols")
    return w, st, args, post
