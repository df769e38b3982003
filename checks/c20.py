"""gsiril's proofs, against an independent interpreter."""
import os, random, re
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
from vt import ggen, gsir as G, ring as R, libs as L

def job(a):
    seed, k, big = a
    rng = random.Random("%s/c20/%d" % (seed, k))
    if rng.random() < .1: return filt(rng)
    try:
        w, st, args, post = ggen.composition(rng, big)
        src, last = ggen.source(rng, st); exp = ggen.play(w, st, last, post)
    except (G.Open, G.TooLong): return None
    except G.Err: return None
    how = rng.choice(["stdin", "stdin", "file", "-e"])
    return dict(kind="proof", args=args, src=src, exp=exp, how=how, v=dict(w.verdicts), rows=w.rows, proofs=w.proofs)

def filt(rng):
    """proving each method of a stream"""
    n = rng.choice([4, 5, 6, 6, 8]); w = G.World(filt=True); G.init(w); G.st_bells(n).ex(w)
    args = ["-b%d" % n, "--filter"]; w.q = rng.choice([0, 0, 0, 2])
    if w.q: args.append("-qq")
    lead, lh = "m", "lh"; whole = rng.random() < .2; pay = None
    if rng.random() < .3: lead = "L1"; args.append("--lead-symbol=L1")
    if rng.random() < .3: lh = "LE"; args.append("--lh-symbol=LE")
    if whole: args.append("--lead-includes-lh")
    if rng.random() < .4: pay = "tail"; args.append("--payload-symbol=tail")
    ex = rng.choice([1, 1, 2]); k = rng.randint(1, 6)
    body = [G.Sym(lead)] + ([] if whole else [G.Sym(lh)])
    if rng.random() < .3: body = body + body[:1] + [G.PN("+" + R.pns([R.pc(n, "14")], "X"), [R.pc(n, "14")])] if not whole else body
    st = []
    if ex > 1: st.append(G.st_extents(2))
    if rng.random() < .3: st.append(G.st_def("everyrow", G.Str("@")))
    if rng.random() < .3: st.append(G.st_echo(G.Str("on # rows")))
    if rng.random() < .3: st.append(G.st_rows(1, rng.choice([24, 48, 100])))
    x = G.List(*body) if len(body) > 1 else body[0]
    st.append(G.st_prove(G.Rep(None, G.List(*body, G.Alt([(G.Word("rounds"), G.BreakE())]))) if rng.random() < .6 else G.Rep(k, x)))
    src = "\n".join("\n".join(s.lines()) for s in st) + "\n"
    text = ""; out = ""; proofs = 0
    for _ in range(rng.randint(1, 8)):
        ch = ggen.pal(rng, n, rng.choice([2, 3, n])) + [R.rand_change(rng, n, .95)]
        if rng.random() < .5: a = R.pc(n, "X" if n % 2 == 0 else R.ch(n - 1)); b = R.pc(n, "1" + R.ch(n - 1)) if n % 2 == 0 else R.pc(n, "1"); ch = ([a, b] * n)[:2 * n - 1] + [rng.choice([R.pc(n, "12"), R.pc(n, "1"), R.pc(n, "125")]) if n % 2 else rng.choice([R.pc(n, "12"), R.pc(n, "14"), R.pc(n, "1" + R.ch(n - 1))])]
        p = rng.choice(["", "hello", "two words", "12"])
        text += L.pn_text(rng, ch) + ("\t" + p if p else "") + "\n"
        for nm, e in ((lead, ch if whole else ch[:-1]), (lh, ch[-1:])): w.define(nm, G.PN(None, e))
        if pay: w.define(pay, G.Str(p, done=True))
        w.failed = False; w.out = []; w.steps = 20000
        try:
            for s in st: s.ex(w)
        except (G.Open, G.TooLong, G.Err): return None
        proofs += w.proofs; w.proofs = 0
        out += "".join(w.out)
        if not w.failed: out += "\0" + repr((ch, p)) + "\n"
    return dict(kind="filter", args=args, src=src, text=text, out=out, rows=w.rows, proofs=proofs, v=dict(w.verdicts), n=n)

def run(ctx):
    ctx.need("gsiril")
    ctx.rule = ("random compositions (leads, calls, repeats, conditions; right, false, unfinished, over-long) with random proof conditions and output settings; output, verdict and exit status must be those of an independent "
                "interpreter which rings every row. Non-trivial: distinct programs with at least one proof")
    k = ctx.n(2500, 26000); d = os.path.join(ctx.scratch, "g"); os.makedirs(d)
    with ProcessPoolExecutor(8) as ex: js = list(ex.map(job, [(ctx.seed, i, 10 if ctx.thorough and i % 10 == 0 else 1) for i in range(k)], chunksize=16))
    def one(i):
        j = js[i]
        if j is None: return
        args = list(j["args"]); stdin = ""
        if j["kind"] == "filter":
            args += ["-e", j["src"]]; stdin = j["text"]
            r = ctx.app("gsiril", args, stdin)
            if r is None: return
            if r.rc: return ctx.appbad("gsiril", args, stdin, r, "the filter failed: " + r.err[-150:])
            c = None; got = r.out.split("\n"); want = j["out"].split("\n")
            if len(got) != len(want): c = "%d lines printed rather than %d" % (len(got), len(want))
            for a, b in zip(got, want):
                if b[:1] == "\0":
                    ch, p = eval(b[1:])
                    try: g = L.parse_pn(j["n"], a.split("\t")[0])
                    except Exception: g = None
                    if g != ch or a.split("\t", 1)[1:] != [p]: c = c or "%r printed rather than the method %s and %r" % (a, R.pns(ch), p)
                elif a != b: c = c or "%r printed rather than %r" % (a, b)
            if c: return ctx.appbad("gsiril", args, stdin, r, c)
            ctx.count("methods filtered", j["text"].count("\n"))
        else:
            out, rc, line = j["exp"]; name = "<input>"
            if j["how"] == "stdin": stdin = j["src"]
            elif j["how"] == "-e": args += ["-e", j["src"]]
            else:
                name = os.path.join(d, "%d.siril" % i); open(name, "wb").write(j["src"].encode()); args += ["-f", name]
            r = ctx.app("gsiril", args, stdin)
            if r is None: return
            want = out.encode("utf-8").decode("latin-1")
            if r.rc != rc: return ctx.appbad("gsiril", args, j["src"], r, "exit status %d, should be %d; %s" % (r.rc, rc, r.err[-150:]))
            if r.out != want:
                p = next((x for x in range(min(len(want), len(r.out))) if want[x] != r.out[x]), min(len(want), len(r.out)))
                return ctx.appbad("gsiril", args, j["src"], r, "after %r, %r printed where %r was due" % (r.out[max(0, p - 40):p], r.out[p:p + 40], want[p:p + 40]))
            if line and j["how"] != "-e":
                m = re.search(re.escape(name) + r":(\d+): ", r.err)
                if not m or int(m.group(1)) != line: return ctx.appbad("gsiril", args, j["src"], r, "the error should be at line %d: %s" % (line, r.err[-150:]))
            ctx.count("programs")
        ctx.count("proofs", j["proofs"]); ctx.count("rows rung", j["rows"])
        for v, c in j["v"].items(): ctx.count("verdict " + v, c)
        ctx.ok_case(" ".join(args) + stdin if j["proofs"] else None)
    ctx.map(one, range(k))
    ctx.minimum.update({"programs": 1500, "methods filtered": 200, "rows rung": 100000, "verdict true": 500, "verdict false": 120, "verdict abort": 400, "verdict notround": 150, "verdict tooshort": 80})
