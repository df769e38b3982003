"""gsiril's language, against an independent interpreter."""
import os, random, re, resource
from concurrent.futures import ProcessPoolExecutor
from vt import ggen, gsir as G, ring as R

def recase(rng, src, names):
    """vary the case of the names, outside strings"""
    def f(m):
        t = m.group(0)
        if t[0] == '"':
            return re.sub(r"\$\{(\w+)\}", lambda k: "${" + (k.group(1).swapcase() if rng.random() < .5 else k.group(1)) + "}", t)
        return t.swapcase() if t in names and rng.random() < .5 else t
    return re.sub(r'"[^"]*"|(?<![+&\w])[A-Za-z_]\w*', f, src)

def cyclic(text):
    """whether some symbol may be defined in terms of itself"""
    g = {}
    for m in re.finditer(r"(?m)^\s*(\w+)\s*(?:\?|\.)?=(?!=)(?=((?:.*\n?){1,4}))", text):
        g.setdefault(m.group(1), set()).update(re.findall(r"[A-Za-z_]\w*", m.group(2)))
    for a in g:
        seen = set(); todo = [a]
        while todo:
            for y in g.get(todo.pop(), ()):
                if y == a: return True
                if y not in seen: seen.add(y); todo.append(y)
    return False

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

def job(a):
    try: return job1(a)
    except MemoryError: return None

def job1(a):
    seed, k, thorough = a
    rng = random.Random("%s/c21/%d" % (seed, k))
    try: w, st, args = ggen.language(rng)
    except G.Open: return None
    start = []; files = []; n = None
    w.steps = 20000
    if rng.random() < .5:      # the number of bells as an option
        n = int(st[0].text.split()[0]); start.append(st.pop(0)); args.append("-b%d" % n)
        while st and rng.random() < .5 and st[0].kind == "def" and re.match(r"\w+ = ", st[0].text) and rng.random() < .8:
            s = st.pop(0); start.append(s); args.append(rng.choice(["-D", "--define="]) + s.text.replace(" = ", "=", 1))
        if rng.random() < .2:
            nm = rng.choice(["true", "everyrow", "zs1"]); t = rng.choice(["all well", "@ it's \"so\"", "#\\t@", "x = 2"])
            start.append(G.st_def(nm, G.Str(t, done=True))); args.append(rng.choice(["-S", "--string="]) + nm + "=" + t)
    # definitions moved to a file
    i = next((i for i, s in enumerate(st) if s.kind == "def"), None)
    imp = None
    if i is not None and rng.random() < .25 and (n or i > 0):
        j = i
        while j < len(st) and st[j].kind == "def" and rng.random() < .8: j += 1
        if j > i: imp = G.Import("F%d" % k, st[i:j]); st[i:j] = [imp]
    prove = None
    if rng.random() < .15:
        if rng.random() < .5: prove = ""; args.append(rng.choice(["-P", "--prove"]))
        else:
            d = [s for s in st if s.kind == "def"]
            d = [s for s in d if s.text.split()[0] not in ('true', 'false', 'rounds')]
            if d: prove = rng.choice(d).text.split()[0]; args.append("-P" + prove)
        if prove == "" and rng.random() < .7: st = [s for s in st if s.kind in ("def", "echo", "bells", "extents", "import", "music")]
    w.q = rng.choice([0] * 9 + [1, 2]); args += ["-q"] * w.q
    insens = rng.random() < .12
    limit = rng.random() < .12
    one = rng.random() < .05; w.prove_one = one
    if one: args.append("--prove-one")
    how = rng.choice(["stdin", "stdin", "stdin", "file", "-e"])
    try:
        src, last = ggen.source(rng, st)
        for s in start: s.ex(w)
        w.first = None
        out, rc, line = ggen.play(w, st, last)
        errs = "".join(w.err)
        if rc != 2 and prove is not None and not (line is None and rc == 1 and not w.failed):
            try:
                if prove: ggen_prove(w, prove)
                elif not w.done and w.first: ggen_prove(w, w.first)
                rc = 1 if w.failed else 0
            except G.Err: rc = 2; line = 0
            out = "".join(w.out)
        if rc != 2 and one and not w.done: rc = 2; line = 0
    except (G.Open, G.TooLong, RecursionError): return None
    except G.Err: return None
    if imp is not None:
        
        try: t, _ = ggen.source(rng, imp.body)
        except G.Open: return None
        files.append((imp.fname, t))
    names = set(re.findall(r"[A-Za-z_]\w*", " ".join(s.text.split()[0] for s in st + start if getattr(s, "kind", "") == "def"))) | {"everyrow", "bells", "prove", "rounds", "repeat", "true", "length", "echo", "if", "endif"}
    if insens:
        if len({x.lower() for x in names}) != len(names): return None
        src = recase(rng, src, names); args.append("-I"); files = [(f, recase(rng, t, names)) for f, t in files]
        if any(f.lower() != f for f, _ in files): return None
    if any(x[:2] in ("-D", "--") and x.count("/") > 1 for x in args): return None
    cyc = cyclic((src + "\n" + "\n".join(t for _, t in files) + "\n" + "\n".join(x.split("--define=")[-1].replace("-D", "", 1) for x in args)).lower())
    return dict(cyc=cyc, args=args, src=src, exp=(out, rc, line), err=errs, how=how, files=files, limit=limit, nproofs=w.proofs, v=dict(w.verdicts), stm=[s.kind for s in st], prove=prove, insens=insens, words=re.findall(r"<<|>>|\|\||&&|[<>=!:?.]=|==|[<>~%*]|\b[a-z]+\b", src))

def ggen_prove(w, nm):
    G.prove(w, G.Sym(nm))

def run(ctx):
    ctx.need("gsiril")
    ctx.rule = ("random programs in the gsiril language (every operator, statement and type nested at random, strings with escapes and interpolation, imports and options); output, verdicts, exit status and the line of the first error must "
                "be those of an independent interpreter. Non-trivial: distinct programs which print something or fail")
    k = ctx.n(2600, 40000); d = os.path.join(ctx.scratch, "g"); os.makedirs(d)
    with ProcessPoolExecutor(8, initializer=limits) as ex: js = list(ex.map(job, [(ctx.seed, i, ctx.thorough) for i in range(k)], chunksize=16))
    def one(i):
        j = js[i]
        if j is None: return
        args = list(j["args"]); stdin = ""; src = j["src"]; name = "<input>"
        for f, t in j["files"]:
            p = os.path.join(d, f); open(p, "wb").write(t.encode()); src = src.replace('"%s"' % f, '"%s"' % p)
        src = src.encode().decode("latin-1"); args = [x.encode().decode("latin-1") for x in args]
        if j["how"] == "stdin": stdin = src
        elif j["how"] == "-e": args += ["-e", src]
        else:
            name = os.path.join(d, "%d.siril" % i); open(name, "wb").write(src.encode("latin-1")); args += ["-f", name]
        r = ctx.app("gsiril", args, stdin)
        if r is None: return
        out, rc, line = j["exp"]
        def bad(c, r=r, args=args): return ctx.appbad("gsiril", args, src, r, c)
        want = out.encode("utf-8").decode("latin-1")
        # finding the type of a symbol defined in terms of itself may be endless even where its value is not wanted
        if j["cyc"] and r.rc == 2 and "nested too deeply" in r.err: return ctx.count("cyclic definitions left out")
        if r.rc != rc: return bad("exit status %d, should be %d; %s" % (r.rc, rc, r.err[-150:]))
        if r.out != want:
            p = next((x for x in range(min(len(want), len(r.out))) if want[x] != r.out[x]), min(len(want), len(r.out)))
            return bad("after %r, %r printed where %r was due" % (r.out[max(0, p - 40):p], r.out[p:p + 40], want[p:p + 40]))
        e = j["err"].encode("utf-8").decode("latin-1")
        if (r.err != e if rc != 2 else not r.err.startswith(e)): return bad("on standard error %r, which should be %r" % (r.err[:80], e[:80]))
        if line and j["how"] != "-e":
            m = re.search(re.escape(name) + r":(\d+): ", r.err)
            if not m or int(m.group(1)) != line: return bad("the error should be at line %d: %s" % (line, r.err[-150:]))
            ctx.count("error lines")
        if j["limit"] and j["how"] != "stdin":
            r2 = ctx.app("gsiril", args + ["--print-node-count"], "")
            if r2 is None: return
            m = re.search(r"Executed (\d+) nodes", r2.err)
            if rc != 2 and not m: return bad("no node count printed", r2, args + ["--print-node-count"])
            if r2.out != r.out or r2.rc != r.rc: return bad("--print-node-count changed the output", r2, args + ["--print-node-count"])
            if m:
                N = int(m.group(1)); ctx.count("node counts")
                for lim in {N + 1, N, max(1, N // 2), 1 + i % max(N, 1)}:
                    a3 = args + ["--node-limit=%d" % lim]; r3 = ctx.app("gsiril", a3, "")
                    if r3 is None: return
                    if N >= lim > 0:
                        if r3.rc != 2: return bad("%d nodes are executed, but --node-limit=%d did not stop it" % (N, lim), r3, a3)
                        if not r.out.startswith(r3.out): return bad("--node-limit changed the output", r3, a3)
                        ctx.count("node limits reached")
                    elif r3.rc != r.rc or r3.out != r.out: return bad("only %d nodes are executed, but --node-limit=%d had an effect" % (N, lim), r3, a3)
        ctx.count("programs"); ctx.count("proofs", j["nproofs"])
        ctx.count("errors" if rc == 2 else "verdict failed" if rc else "verdict right")
        for s in j["stm"]: ctx.count("statement " + str(s))
        for s in set(j["words"]): 
            if s in WORDS: ctx.count(s)
        if j["files"]: ctx.count("imports")
        if j["prove"] is not None: ctx.count("-P")
        if j["insens"]: ctx.count("-I")
        ctx.ok_case(" ".join(args) + src if out or rc else None)
    ctx.map(one, range(k))
    # symbols defined in terms of themselves are an error
    def rec(i):
        rng = random.Random("%s/c21r/%d" % (ctx.seed, i)); a, b = rng.choice(["a", "rec", "_"]), rng.choice(["b", "other"])
        body = ['%s', '+X, %s', '"x${%s}"', '1 + %s', '{ %s: +X; +16 }', 'repeat %s', '2%s', '+X16 & %s', 'pnstr(%s)', '!%s', '%s . "a"', '%s && true', '%s == 1', '~%s', '%s << 1', 'at(%s)', 'at(1) * %s', 'methname(%s)'][i % 18]
        src = "%d bells\nconflict =\n%s = %s\n%s = %s\nprove %s\n" % (rng.choice([6, 8]), a, body % b, b, rng.choice(["%s", "%s, %s" % ("+X", "%s"), body]) % a, rng.choice([a, b]))
        r = ctx.app("gsiril", [], src)
        if r is None: return
        if r.rc not in (1, 2): return ctx.appbad("gsiril", [], src, r, "exit status %d from an endless definition" % r.rc)
        ctx.count("endless definitions"); ctx.ok_case("rec" + src)
    ctx.map(rec, range(ctx.n(48, 320)))
    ctx.minimum.update({"programs": 1500, "errors": 250, "error lines": 150, "verdict failed": 300, "verdict right": 300, "imports": 60, "-P": 60, "-I": 25, "node counts": 15, "node limits reached": 30})
    for w in WORDS: ctx.minimum[w] = 10
WORDS = "<< >> || && <= >= == != < > := ?= .= ~ % * at pos rowno swap stagename music pnstr repeat break rounds proving bells length endproof save defined echo warn if elseif else foreach".split()
