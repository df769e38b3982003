"""C23: methsearch reports the true facts about each method."""
import random, re, os, tempfile
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
from vt import ring as R, meth as M, msearch as S, libs as L, mfmt as F

def shape_ok(m): return all(m[i] != m[i - 1] for i in range(len(m))) and len(m) > 1

def methods(rng, n, k, regular):
    out = []
    for _ in range(k * 30):
        if len(out) >= k: break
        if regular: m = M.regular_method(rng, n)
        else: m = M.regular_method(rng, n) if rng.random() < .4 and n > 3 else M.random_method(rng, n, 14)
        m = list(m)
        if not shape_ok(m) or len(m) > 64: continue
        if regular and (not S.regular_row(R.leadhead(m, n), 1) or not S.has_P(m)): continue
        if m not in out: out.append(m)
    return out

SEPS = ["|", "\t", " # ", "~", "\n ", "::", "^ "]
def esc(rng, s):
    out = ""
    for c in s:
        k = rng.random()
        if c in "$%": out += rng.choice(["\\" + c, "$" + c, "\\x%02x" % ord(c)])
        elif c == "\\": out += "\\\\"
        elif c == "\n": out += rng.choice(["\\n", "\\x0a", "\\x0A"])
        elif c == "\t": out += rng.choice(["\\t", "\\x09", "\t"])
        elif c == ")" and k < .3: out += "$)"
        elif k < .04 and c not in "abfnrtvx": out += "\\" + c
        elif k < .08: out += "\\x%02x" % ord(c)
        else: out += c
    return out

def pieces(rng, c, lib, stats, flags):
    """[(text, kind, what)] of a format"""
    fs = []; Lm = len(c.m)
    for i in range(rng.randint(1, 7)):
        if fs: s = rng.choice(SEPS + ["$ ", "100% ", "(x)", "[y]\\", "\x1b[1m", "\x07"]); fs.append((esc(rng, s), "lit", s))
        k = rng.random()
        if k < .3:
            e = F.gen(rng, c, rng.choice([0, 1, 2, 2, 3, 4]), None, lib); t = F.text(rng, e)
            if rng.random() < .07 and not stats:
                k2 = rng.choice(["suppress", "suppress", "abort"])
                e = ("?:", (rng.choice(["==", "<", ">"]), ("var", rng.choice("Lob")), ("int", rng.choice([Lm, 2, 4, 5]))), (k2,), e); t = F.text(rng, e)
            fs.append(("$[" + t + "]", "expr", e)); continue
        ch = rng.choice("lLbouBGdDySPrhOsaC" + ("VUVU"[:0 if stats else 2]) + ("" if stats else "ppqqQ##") + ("nN" if lib and not stats else "") + ("F" * 4 if flags.get("F") and not stats else "") + ("M" * 3 if c.music else ""))
        a = b = 0
        if ch in "rhP": a = rng.randint(0 if ch == "r" else 1, {"r": Lm, "h": Lm, "P": c.n}[ch] + (rng.random() < .15))
        elif ch in "pq" and rng.random() < .4:
            a = rng.randint(1, Lm + (rng.random() < .1))
            if rng.random() < .6: b = rng.randint(a, max(a, Lm))
        elif ch in "LboBuGMs#" and rng.random() < .3: a = rng.randint(1, 9)
        pre = "$" if rng.random() < .9 else "%"
        fs.append((pre + F.num(("", ch, a, b)) + ch, "var", (ch, a, b)))
    return fs

def spread(fs, c):
    """what a format gives for one method: a list of strings and Anys; raises Stop"""
    out = []
    for t, k, w in fs:
        if k == "lit": out.append(w); continue
        try: v = F.ev(w, c) if k == "expr" else F.var(c, *w)
        except F.Err: v = "<ERROR>"
        out.append(v if isinstance(v, F.Any) else str(v))
    return out
def match(parts, out, pos, deep=None):
    """position after the parts, or a complaint: that of the attempt which got furthest"""
    top = deep is None
    if top: deep = [-1, None]
    def no(p, why):
        if p > deep[0]: deep[:] = [p, why]
        return deep[1]
    i = 0
    while i < len(parts):
        p = parts[i]
        if isinstance(p, F.Any):
            nxt = parts[i + 1] if i + 1 < len(parts) and not isinstance(parts[i + 1], F.Any) and parts[i + 1] else None
            ends = []
            if nxt is not None:
                j = out.find(nxt, pos)
                while j >= 0 and len(ends) < 60: ends.append(j); j = out.find(nxt, j + 1)
            else: ends = list(range(pos, min(len(out), pos + 500) + 1))
            for j in ends:
                if p.ok(out[pos:j]):
                    q = match(parts[i + 1:], out, j, deep)
                    if not isinstance(q, str): return q
            return no(pos, "%r is not %s" % (out[pos:pos + 60], p.what))
        if not out.startswith(p, pos): return no(pos, "%r printed where %r was due" % (out[pos:pos + max(20, len(p) + 5)], p))
        pos += len(p); i += 1
    return pos

def bellrow(rng, n): return R.rand_row(rng, n) if rng.random() < .6 else R.rounds(n)
def musicopts(rng, n, odd):
    if rng.random() < .3: return [], [([("course", R.rounds(n))], [("<CRUs>", 1, 1)])]
    from checks import c12
    args, batches = [], []; last = R.rounds(n)
    for bi in range(rng.choice([1, 1, 2, 3])):
        bl = []
        if bi or rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(["course", "lead", "lead"] if odd else ["course", "lead", "lead", "halflead", "2halflead", "rhalflead", "2rhalflead"])
                if rng.random() < .7:
                    last = bellrow(rng, n); args.append("-M%s=%s" % (k, R.rs(last)))
                else: args.append("-M" + k)
                bl.append((k, last))
        else: bl = [("course", R.rounds(n))]
        ps = []
        if bi == 0 and not bl or rng.random() < .93 or bi == 0:
            for _ in range(rng.randint(1, 3)):
                if rng.random() < .5 and n >= 4:
                    p = "<%s>" % rng.choice(["rounds", "queens", "kings", "tittums", "reverse-rounds", "CRUs", "3-runs", "4-runs", "front-3-runs", "back-3-runs", "back-4-runs", "front-4-runs"])
                else:
                    p = c12.rand_pattern(rng, n, R.rand_row(rng, n))
                    if not re.fullmatch(r"[1-9\dETA-D*?]*[1-9\dETA-D*?](\[[1-9\dETA-D]+\][1-9\dETA-D*?]*)*", p) or "I" in p: p = "*" + R.ch(rng.randrange(n)) + R.ch(rng.randrange(n)) + "*"
                    if not c12.inrange(p, n): p = "*" + R.ch(n - 1)
                h = rng.choice([1, 1, 2, 5, 10]); b = h if rng.random() < .6 else rng.choice([0, -7, 3, -100])
                if h == b == 1 and rng.random() < .7: args.append("-M" + p)
                elif h == b and rng.random() < .8: args.append("-M%d:%s" % (h, p))
                else: args.append("-M%d,%d:%s" % (h, b, p))
                ps.append((p, h, b))
        if not ps: args2 = None; batches.append((bl, [("<CRUs>", 1, 1)])); break
        batches.append((bl, ps))
    return args, batches

def job(arg):
    seed, k, thorough = arg
    rng = random.Random("%s/c23/%d" % (seed, k))
    n = rng.choice([4, 5, 5, 6, 6, 6, 7, 8, 8, 9, 10, 12]); flags = {}
    if rng.random() < .2: n = rng.choice([6, 8, 8, 10, 12]); flags["F"] = True
    ms = methods(rng, n, rng.randint(3, 9), flags.get("F"))
    if not ms: return None
    colon = rng.random() < .3
    args = ["-I", "-A", "-U0", "-Fx", "-Fn"] if not flags.get("F") else ["-I", "-U1", "-r", "-s", "-Fx", "-Fn"]
    if flags.get("F"):
        Ls = Counter(len(m) for m in ms); keep = Ls.most_common(1)[0][0]
        if keep % (2 * n): return None
        # the leads a treble dodging this much has
        if keep // (2 * n) > 1:
            if n % 2: return None
            args.append("-G%d" % (keep // (2 * n) - 1))
        def hunts(m):
            p = M.lead_path(m, 0); q = []
            d = keep // (2 * n) - 1
            if d == 0: q = list(range(n)) + list(range(n - 1, -1, -1)) + [0]
            else:
                for x in range(0, n, 2): q += [x, x + 1] * (d + 1)
                q = q + q[::-1] + [0]
            return p == q and S.has_P(m) and R.order(R.leadhead(m, n)) == n - 1 and all(m[i] == m[keep - 2 - i] for i in range(keep - 1))
        ms = [m for m in ms if len(m) == keep and hunts(m) and m[-1] in (R.pc(n, "12"), R.pc(n, "1" + R.ch(n - 1)))]
        if not ms: return None
    if not colon or flags.get("F"): args.append("-b%d" % n)
    libname = None; lib = False; libtext = None; names = {}; unnamed = "Untitled"
    if rng.random() < .3:
        lib = True; form = rng.choice(["xml", "cc", "xml"])
        recs = []; used = set()
        for m in ms:
            if rng.random() < .7:
                b = L.some_name(rng)
                if b in used: continue
                used.add(b); r = L.Rec(m, b)
                if len(r.classes) == 1: recs.append(r)
        others = [L.Rec(m, "Other%d" % i) for i, m in enumerate(methods(rng, n, 3, False)) if m not in ms]
        recs += [r for r in others if len(r.classes) == 1]; rng.shuffle(recs)
        if form == "xml": libtext, ex = L.xml(rng, recs); libname = "lib.xml"
        else: libtext, ex = L.cc(rng, recs); libname = "lib.txt"
        names = {tuple(r.m): r.base for r in ex}
        if rng.random() < .3: unnamed = rng.choice(["Unrung", "No name", "?"]); args.append("--unnamed-name=" + unnamed)
        if any(len(M.methclass(m)) != 1 for m in ms): ms = [m for m in ms if len(M.methclass(m)) == 1]
        # the name of Little Bob and the like
        if not ms or not recs: return None
    if not lib: ms = [m for m in ms if len(M.methclass(m)) == 1 or rng.random() < .3]
    if not ms: return None
    pays = [rng.choice(["", "", "x", "12", "foo bar", "-3", "007", "a: b", "0", "%d", "$l"]) for m in ms]
    o = set(); po = []
    if rng.random() < .35:
        for words, kk in [(["dots", "."], "dots"), (["external", "ext"], "external"), (["lower-case", "lcross", "x"], "lower"), (["upper-case", "ucross", "X"], "upper"), (["no-symmetry", "no-sym"], "nosym"), (["std-symmetry", "std-sym"], "std"), (["plus-prefix", "plus", "+"], "plus")]:
            if rng.random() < .3 and not (kk == "upper" and "lower" in o) and not (kk == "std" and "nosym" in o): o.add(kk); po.append(rng.choice(words))
        rng.shuffle(po)
        if po: args.append("--pn-format=" + ",".join(po))
    utf8 = rng.random() < .15
    ma, batches = musicopts(rng, n, any(len(m) % 2 for m in ms))
    args += ma; music = F.scorer(n, batches) if not colon or ma == [] or True else None
    if utf8: args += ["-Outf8"]
    cs = [F.Ctx(m, p, o, utf8, names.get(tuple(m)), unnamed, music) for m, p in zip(ms, pays)]
    static_inf = any(F.static(m) is None for m in ms); amb = any(not c.usual for c in cs)
    def fair(fs):
        for t, kk, w in fs:
            def walk(e):
                if isinstance(e, tuple) and e and e[0] == "var":
                    if e[1] == "s" and static_inf or e[1] in "CN" and amb: return False
                    return True
                return all(walk(x) for x in e[1:] if isinstance(x, tuple)) if isinstance(e, tuple) else True
            if kk == "expr" and not walk(w): return False
            if kk == "var" and (w[0] == "s" and static_inf or w[0] in "CN" and amb): return False
        return True
    ref = rng.choice(cs)
    # requirements
    reqs = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        for _ in range(20):
            e = F.gen(rng, ref, rng.choice([1, 2, 3]), "i", lib)
            if not fair([("", "expr", e)]): continue
            reqs.append(e); args += rng.choice([["-Q" + F.text(rng, e)], ["--require=" + F.text(rng, e)]]); break
    inv = rng.random() < .15
    if inv: args.append("--invert-filter")
    passed = []
    for c in cs:
        ok = True
        for e in reqs:
            try: ok = bool(F.toint(F.ev(e, c)))
            except F.Err: ok = False
            if not ok: break
        if ok != inv: passed.append(c)
    fmt = None; parts = []; quiet = rng.random() < .1; stopped = False; nums = 0
    hist = rng.random() < .3; hf = None
    if rng.random() < .9:
        for _ in range(20):
            fmt = pieces(rng, ref, lib, False, flags)
            if fair(fmt): break
        else: return None
        nonl = rng.random() < .1
        ft = "".join(t for t, _, _ in fmt) + ("\\n\\" if nonl else "")
        if ft[-1:] == "\\" and not nonl: return None
        args += rng.choice([["-R" + ft], ["--format=" + ft]])
    if hist:
        for _ in range(20):
            hf = pieces(rng, ref, lib, True, flags)
            if fair(hf) and len(hf) < 6: break
        else: return None
        wd = rng.choice([0, 0, 3, 5])
        args += rng.choice([["-H"], ["--frequencies="]]); args[-1] += "$%sc " % (wd or "") + "".join(t for t, _, _ in hf)
    if quiet: args.append("-q")
    cnt = rng.choice([None, None, "C", "raw"])
    if cnt: args.append("-C" if cnt == "C" else "--raw-count")
    hists = []; found = 0
    for c in passed:
        found += 1; c.num = found
        if hist:
            try: hists.append(spread(hf, c))
            except F.Stop: return None
        if quiet: continue
        if fmt is None:
            t = [F.var(c, "q") if po else F.var(c, "p"), "\t", c.pay, "\n"]
        else:
            try: t = spread(fmt, c) + ["\n"]
            except F.Stop as e:
                if e.kind == "suppress": continue
                stopped = True; break
        parts.append(t)
    if stopped and (hist or cnt): return None
    if hist and any(isinstance(x, F.Any) for h in hists for x in h): return None    # several spellings could share a line
    if hist and any(isinstance(x, str) for h in hists for x in h):
        # whether the same text made of different values is one entry is not said
        t = {}
        for h in hists:
            if any(t.setdefault("".join(x if isinstance(x, str) else x.what for x in h), str(h2)) != str(h2) for h2 in [[x if isinstance(x, str) else x.what for x in h]]): return None
    stdin = ""
    for m, p in zip(ms, pays): stdin += ("%d:" % n if colon else "") + L.pn_text(rng, m) + (rng.choice([" ", "\t", "  "]) + p if p else "") + rng.choice(["\n", "\n", "\r\n"] if False else ["\n"])
    heads = [a for a in args if a.startswith("-F") or a.startswith("-M") or a[:2] in ("-I", "-A")]
    rest = [a for a in args if a not in heads]; rng.shuffle(rest)
    if any("\x00" in a for a in args): return None
    # with the length of lead fixed, offsets beyond it are refused
    if flags.get("F") and any(int(x) > keep for a in args for x in re.findall(r"(\d+)[rh]", a)): return None
    args = heads + rest
    stat = ["expressions" if kk == "expr" else "variables" for _, kk, _ in (fmt or []) + (hf or []) if kk != "lit"]
    return dict(args=args, stdin=stdin, parts=parts, hists=hists, hist=hist, wd=wd if hist else 0, cnt=cnt, found=found, lib=(libname, libtext) if lib else None, stat=stat,
                vars=[w[0] for _, kk, w in (fmt or []) if kk == "var"], errors=sum(x.count("<ERROR>") for p in parts for x in p if isinstance(x, str)), req=len(reqs), npass=len(passed), n=len(cs), printed=not quiet and bool(parts))

def complain(j, out):
    pos = 0
    for i, t in enumerate(j["parts"]):
        q = match(t, out, pos)
        if isinstance(q, str): return "method %d of those printed: %s" % (i + 1, q)
        pos = q
    rest = out[pos:]
    if j["hist"]:
        if j["hists"]:
            if j["parts"]:
                if not rest.startswith("\n"): return "no blank line before the frequencies, but %r" % rest[:40]
                rest = rest[1:]
            elif rest.startswith("\n"): rest = rest[1:]   # everything was suppressed
            groups = []
            for h in j["hists"]:
                key = [x if isinstance(x, str) else ("?", x.what) for x in h]
                groups.append((str(key), h))
            c = Counter(k for k, _ in groups); byk = dict(groups); todo = dict(c)
            # values with several spellings are told apart by their meaning
            while todo:
                for k in list(todo):
                    q = match([str(todo[k]).rjust(j["wd"]) + " "] + byk[k] + ["\n"], rest, 0)
                    if not isinstance(q, str): rest = rest[q:]; del todo[k]; break
                else: return "the frequencies go on %r, where one of %s was due" % (rest[:60], [(v, k[:60]) for k, v in list(todo.items())[:4]])
    if j["cnt"]:
        w = ("Found %d methods\n" % j["found"]) if j["cnt"] == "C" else "%d\n" % j["found"]
        alt = {w, w.replace("methods", "method")} if j["found"] == 1 else {w}
        if rest not in alt and not (rest[:1] == "\n" and rest[1:] in alt): return "count printed as %r, should be %r" % (rest[:60], w)
        return None
    if rest: return "%r printed after everything due" % rest[:60]


def run(ctx):
    ctx.need("methsearch")
    ctx.rule = ("random methods (most given to the filter, so that arbitrary methods are reached) printed with random formats, expressions, requirements, frequency tables, music, name libraries and notation styles; "
                "each value printed must be what ringing the method by an independent implementation gives. Non-trivial: distinct runs which print a method or a frequency")
    k = ctx.n(900, 12000); d = os.path.join(ctx.scratch, "fmt"); os.makedirs(d)
    with ProcessPoolExecutor(8) as ex: js = [j for j in ex.map(job, [(ctx.seed, i, ctx.thorough) for i in range(k)], chunksize=8)]
    def one(i):
        j = js[i]
        if j is None: return
        args = list(j["args"])
        if j["lib"]:
            p = os.path.join(d, "%d%s" % (i, j["lib"][0])); t = j["lib"][1]
            open(p, "wb").write(t.encode("utf-8") if isinstance(t, str) else t); args.append("-L" + p)
        r = ctx.app("methsearch", args, j["stdin"], timeout=120)
        if r is None: return
        ctx.count("runs"); ctx.count("methods given", j["n"]); ctx.count("methods expected", len(j["parts"]))
        if r.rc: return ctx.appbad("methsearch", args, j["stdin"], r, "the run failed: " + r.err[-150:])
        c = complain(j, r.out)
        if c: return ctx.appbad("methsearch", args, j["stdin"], r, c)
        for v in j["vars"]: ctx.count("$" + v)
        for v in j["stat"]: ctx.count(v)
        if j["errors"]: ctx.count("<ERROR> values", j["errors"])
        if j["req"]: ctx.count("runs with requirements")
        if j["req"] and 0 < j["npass"] < j["n"]: ctx.count("requirements which chose")
        if j["hist"]: ctx.count("frequency lines", len(j["hists"]))
        if j["cnt"]: ctx.count("counts")
        if j["lib"]: ctx.count("runs with libraries")
        ctx.ok_case(" ".join(args) + j["stdin"] if j["printed"] or j["hists"] else None)
    ctx.map(one, range(k))
    for what, q, t in [("runs", 600, 8000), ("methods expected", 1500, 20000), ("expressions", 500, 7000), ("<ERROR> values", 100, 1300), ("frequency lines", 400, 6000), ("counts", 200, 3000),
                       ("runs with libraries", 100, 1500), ("requirements which chose", 12, 200), ("$N", 4, 60), ("$n", 4, 60)]: ctx.minimum[what] = q if not ctx.thorough else t
    for v in "#BCDFGLMOPQSUVabdhlopqrsuy": ctx.minimum["$" + v] = 15
