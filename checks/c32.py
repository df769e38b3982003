"""C32: no input makes a program crash or hang."""
import os, random, re, resource, shutil, signal, subprocess, tempfile
from vt import libs as L, ring as R
from vt.check import BASE_ENV, SAN_ENV, diagnose
from vt.mutate import garble, soup, hostile, NUMS

OPTS = {
    "extent": """b bells BELLS; h hunts NUM; t tenors NUM; i in-course""",
    "fextent": """b bells BELLS; n iterations NUM; c whole-courses; t tenors-together; i in-course; p principle; l loop ?NUM; P part-end ROW; r required ROW; k linkage; C call CHANGE; . seed NUM; q quiet; u status; . print-leads; . min-leads NUM; W weighting OPTION=WEIGHT""",
    "gsiril": """b bells BELLS; n extents NUM; r rounds ROW; i interactive; v verbose; q quiet; . length RANGE; E everyrow-only; . row-mask MASK; I case-insensitive; P prove ?EXPR; D define NAME=EXPR; S string NAME=VALUE; m module MODULE; . msiril; . sirilic; e expression STMTS; f script-file FILENAME; N no-read; . disable-import; . no-init-file; . node-limit NUM; . print-node-count; . determine-bells; . prove-one; L library LIB; . filter; . lead-symbol SYM; . lead-includes-lh; . lh-symbol SYM; . payload-symbol SYM; . trace-all-symbols; . trace-symbol SYM; R red BELLS; G green BELLS; B blue BELLS""",
    "methodlib": """b bells BELLS; l length N; t title TITLE; . starts-with STR; T read-titles; B print-bells; a copy-payload; f full-title; P pn-only; S method-suffixes STRS""",
    "methsearch": """b bells BELLS; c cyclic; r regular; . any-regular-hl; A all-methods; p blows-per-place ?NUM; l places-per-change ?NUM; . long-le-place; n changes-per-lead NUM; q quiet; H frequencies FMT; R format FMT; Q require EXPR; e restricted-le; E prefer-restricted-le; w right-place; . no-points; . has-points; . no-unpaired-points; . has-unpaired-points; f no-78s; j max-adj-places ?NUM; y symmetric-sections; s symmetric; k rotational; d double; . mirror; . floating-sym; S surprise; T treble-bob; . delight; . 3rds-place-delight; . 4ths-place-delight; . strict-delight; . exercise; . strict-exercise; . pas-alla-tria; . pas-alla-tessera; G treble-dodges NUM; U hunts ?NUM; Z treble-path PATH; u status; . status-freq NUM; . limit NUM; . random; . loop ?NUM; . seed NUM; C count; . raw-count; . node-count; I filter; . filter-lib; . invert-filter; . timeout NUM; . named; . unnamed; P parity-hack; L library LIB; F falseness TYPE; m mask PATTERN; . changes CHANGES; M music PATTERN; . row-match NUM=PATTERN; . start-at PN; . prefix PN; . cyclic-hle; . cyclic-hlh; . rev-cyclic-hle; . rev-cyclic-hlh; . regular-hls; . offset-cyclic; o out-file FILENAME; O out-format FMTTYPE; . pn-format FMT; . unnamed-name NAME; . overwork-map FILE; . underwork-map FILE""",
    "musgrep": """b bells BELLS; c count; s score; S scores; p positive; n negative; H highlight; i in-course; o out-of-course""",
    "printmethod": """b bells BELLS; c course; F omit-final; S omit-start; r init-rounds NUM; f final-rounds NUM; s start ROW; R red BELLS; G green BELLS; B blue BELLS""",
    "psline": """o output-file FILE; e eps; P pdf; t title ?TITLE[,FONT[,SIZE[,COLOUR]]]; . title-font FONT; . title-size SIZE; . title-colour COLOUR; f font FONT; s font-size SIZE; c colour COLOUR; l line ?BELL[x][,COLOUR[,DIMENSION]]; G guides ?STYLE[,COLOUR[,DIMENSION]]; n no-numbers; b place-bells ?BELL|x; p place-notation ?first|all|none[,nox]; r rule ?A[,B]; m miss-numbers ?always|never|lead|column; q calls CALLS; R rounds ROUNDS; L landscape; S paper-size DIMENSION,DIMENSION; F fit ?DIMENSION,DIMENSION; a across-first; g pages NUMBER; x xspace DIMENSION; y yspace DIMENSION; h hgap DIMENSION; v vgap DIMENSION; i leads-per-column NUMBER; I rows-per-column NUMBER; j total-leads NUMBER; J total-rows NUMBER; k columns-across NUMBER; d columns-down NUMBER""",
    "ringmethod": """b bells BELLS; r sample-rate NUM; s peal-speed TIME; f frequency FREQ; h handstroke-lead VAL; d deviation VAL; o offset BELL=OFFSET,STDDEV; . seed NUM""",
    "rowcalc": """b bells BELLS; c count; i interactive; C accept-changes""",
    "spliceplan": """b bells BELLS; i in-course; r ignore-rotations; P part-end ROW; q quiet; v verbose; O output-plans FILE""",
    "splices": """b bells BELLS; n null-splice; i in-course; o out-of-course; h half-lead; e same-lead-ends; p place-notation; g group-together; G print-group; F print-falseness; l leads NUM; I filter; . read-rows; . rows-file FILE""",
    "touchsearch": """b bells BELLS; C call CHANGE; r ignore-rotations; l length MIN-MAX; P part-end ROW; m mutually-true-parts; R allow-non-round-blocks; a use-plan; q quiet; g comma-separate; p plain-name STR; c count; . raw-count; . limit NUM; . filter""",
}
OPTS = {a: [(f[0].strip("."), f[1], (f[2].lstrip("?") if len(f) > 2 else None), len(f) > 2 and f[2][0] == "?") for f in (o.split(" ", 2) for o in s.split("; "))] for a, s in OPTS.items()}
SEARCH = {"extent", "fextent", "touchsearch", "splices", "spliceplan", "methsearch", "gsiril", "ringmethod"}   # may honestly take long
WRITES = {("psline", "output-file"), ("spliceplan", "output-plans")}
FILES = ["lib", "lib.xml", "cclib", "empty", "dir", "missing", "prog.siril", "rows", "args"]
PN = ["&-1-1-1,2", "&x1x4x5,2", "&-5-4.5-5.36.4-4.5-4-1,8", "&3,&1.5.1.5.1", "+3.1.3.1,1", "x12", "34x1x1", "&x3x4x25x36x4x5x6x7,2", "8:&-5-4.5-5.36.4-4.5-4-1,8", "6:x1x1x1,2", "1"]
VALS = {"BELLS": ["3", "4", "5", "6", "8", "8", "10", "12"], "NUM": ["0", "1", "2", "3", "5", "10"], "N": ["1", "2", "60"], "NUMBER": ["1", "2", "3"], "ROW": ["2143", "13425", "135264", "12345678", "21436587"], "CHANGE": ["14", "1234", "S=1234", "-=14", "x"],
  "FMT": ["$p", "$n:$b", "$q $l", "%$o", "$C$d$$", "$[length]", "$(1+2)", "$y $F", "$r*$T", "$M"], "EXPR": ["$L > 1", "1", "$b == 6 && $n", "prove +x14", "a", "!$q"], "PATH": ["12", "1234", "&12,1"], "TYPE": ["CPS", "s", "h", "no", "x", "c"],
  "PATTERN": ["*5678", "&-1-.,2", "x?x?", "<queens>", "1*", "[12]3*", "+5:*78"], "NUM=PATTERN": ["2=*65", "1=*", "x"], "CHANGES": ["x,14,16", "1,3,5"], "PN": ["x1", "-3-", "14"], "LIB": ["lib", "lib.xml", "cclib", "missing", "empty"],
  "RANGE": ["100", "10-20", "-5", "5-", "20-10"], "MIN-MAX": ["100", "10-20", "-60", "60-"], "MASK": ["*", "1*", "x*", "*x"], "NAME=EXPR": ["a=+x1", "b=2a", "true=", "=x"], "NAME=VALUE": ["a=b", "true=yes", "x"], "MODULE": ["mod", "dir", "missing"], "STMTS": ["6 bells; prove +x1x1", "echo \"x\"", "bells"],
  "FILENAME": ["prog.siril", "missing", "empty"], "FILE": ["out"], "SYM": ["a", "everyrow", "lead"], "STR": ["A", "Cam", "PB"], "STRS": ["a,b", "x"], "TITLE": ["Plain Bob Minor", "X"], "OPTION=WEIGHT": ["a=1", "queens=2", "music=0.5"], "TIME": ["3h", "180", "3:05"], "FREQ": ["440", "1000"], "VAL": ["0.5", "1", "-1"],
  "BELL=OFFSET,STDDEV": ["1=0.1,0.2", "2=1,0"], "FONT": ["Times-Roman", "Nonesuch", "Helvetica"], "SIZE": ["10", "7.5"], "COLOUR": ["red", "0.5", "0,0,1", "nocolour"], "CALLS": ["-", " s", "-s- "], "ROUNDS": ["12345678", "21436587"], "DIMENSION": ["1in", "12", "0.5cm", "3/4in"],
  "DIMENSION,DIMENSION": ["10cm,15cm", "4in,6in"], "TITLE[,FONT[,SIZE[,COLOUR": ["T", "My $ title,Times-Bold,20,red", ""], "BELL[x][,COLOUR[,DIMENSION": ["1", "2x,red", "3,0.5,1pt"], "A[,B]": ["2", "2,6", "0", "1,0"], "always|never|lead|column": ["always", "never", "lead", "column"], "first|all|none[,nox]": ["first", "all", "none", "all,nox"], "BELL|x": ["1", "x", "3"], "FMTTYPE": ["lines", "x"], "NAME": ["a"], "STYLE[,COLOUR[,DIME": ["lines", "dots", "x"]}
ALPHA = list("1234567890ETxX-.,&+*?[]{}()$%=:;<>!|~^'\" \\ab") + ["%d", "$$", "99999", "12"]

def value(rng, app, long, meta, bad):
    if (app, long) in WRITES or long in ("script-file", "rows-file"): return rng.choice(VALS["FILE"] + FILES[:1] if (app, long) in WRITES and 0 else VALS["FILE"] if (app, long) in WRITES else FILES)
    pool = VALS.get(meta) or next((VALS[k] for k in sorted(VALS, key=len, reverse=True) if meta.startswith(k)), ["1", "x", "a"])
    v = rng.choice(pool)
    if long in ("rounds", "part-end", "required", "start") and rng.random() < .8: v = rng.choice(["12345678", "21345678", "13425", "134256", "123456"])
    if rng.random() < bad:
        v = rng.choice(NUMS) if rng.random() < .4 else hostile(rng, v, ALPHA, pool)
        v = clean(v)
    return v
def clean(v):
    v = v.replace("\0", "0")[:400]
    return v if re.match(r"[\w. ]*(/[\d]+[\w ]*)?$", v) and not v.startswith("-") else v.replace("/", "_")

def rows(rng, n): return "".join("".join(rng.sample("1234567890ETABCD"[:n], n)) + "\n" for _ in range(rng.randint(0, 12)))
def recs(rng): return [L.Rec(L.some_method(rng, None, None, 12), L.some_name(rng)) for _ in range(rng.choice([1, 2, 4]))]
def lite(rng, n=None): return "".join("%s\t%s\n" % (L.pn_text(rng, L.some_method(rng, n)), L.some_name(rng)) for _ in range(rng.randint(0, 6)))
SIRIL = ["6 bells\np = x16x16x16\nprove 3(p, +12), 2p\n", "8 bells; a = &-1-4-16,12; prove 2a, { 18 }\n", "5 bells\nx := 5 + 2 * 3\necho \"x is ${x} $$ @\"\nif ( x > 3 ) prove repeat { +1.3; rounds: break }\nelse\nwarn \"a\"\nendif\n",
   "6 bells\ny = (\"@ $ \\n\", +x)\neveryrow = \"@\"\nprove y, y\n", "6 bells\nextents 2\nrows 1 to 60\nmusic *56\nprove 2{ +x14, /*3456/: \"m\"; else: break }\n"]
def stdin(rng, app):
    n = rng.choice([4, 5, 6, 8, 8])
    if app in ("musgrep", "ringmethod"): return rows(rng, n)
    if app == "rowcalc": return rng.choice(["1234 * 2143\n", "(13524)^3 / 21435\n", "2143\n1342\n", "QS ^ 2\n[1234,2143] * 1\n", rows(rng, n)])
    if app == "gsiril": return rng.choice(SIRIL)
    if app in ("methsearch", "touchsearch", "splices", "spliceplan", "methodlib"): return lite(rng, n)
    return ""
def positional(rng, app):
    if app in ("fextent", "printmethod", "touchsearch"): return [rng.choice(PN)] if rng.random() < .85 else []
    if app == "musgrep": return [rng.choice(VALS["PATTERN"]) for _ in range(rng.choice([0, 1, 1, 2]))]
    if app == "rowcalc": return rng.choice([[], ["2143*1324"], ["2143", "*", "13*"], ["x", "y"]])
    if app == "methodlib": return [rng.choice(FILES) for _ in range(rng.choice([0, 1, 1, 2]))]
    if app == "psline": return rng.choice([["8:&-5-4.5-5.36.4-4.5-4-1,8"], ["6:&-1-1-1,2"], ["5:+3.1"], ["lib", "Plain Bob Minor"], ["lib"], [], ["missing", "X"], ["10:x1,2"]])
    if app == "splices": return rng.sample(PN, rng.choice([0, 1, 2, 2]))
    return [] if rng.random() < .97 else ["stray"]
NEED = {"extent": [("b", "bells")], "fextent": [("b", "bells")], "methsearch": [("b", "bells")], "printmethod": [("b", "bells")], "splices": [("b", "bells")], "spliceplan": [("b", "bells")], "touchsearch": [("b", "bells")]}

def spell(rng, opts, pos, plain=False):
    """an argument list saying opts and pos in one of the ways it may be said; opts must stay in order"""
    out = []; j = 0; seq = list(opts)
    pend = ""      # short options being collected
    for s, l, meta, optional, v in seq:
        if s and (plain or rng.random() < .5):
            if v is None:
                if pend and not optional: pend += s
                else:
                    if pend: out.append("-" + pend); 
                    pend = s
                if optional: out.append("-" + pend); pend = ""
            else:
                if pend and rng.random() < .5: head = "-" + pend + s; pend = ""
                else:
                    if pend: out.append("-" + pend); pend = ""
                    head = "-" + s
                if optional or v and rng.random() < .6: out.append(head + v)
                else: out += [head, v]
        else:
            if pend: out.append("-" + pend); pend = ""
            if v is None: out.append("--" + l)
            else: out.append("--" + l + "=" + v)
    if pend: out.append("-" + pend)
    k = 0
    return pos[:k] + out + pos[k:]

def options(rng, app, bad):
    o = []
    table = OPTS[app]
    for s, l, meta, opt in rng.sample(table, min(len(table), rng.choice([0, 1, 1, 2, 2, 3, 5]))):
        if app in ("gsiril", "rowcalc") and l == "interactive" and rng.random() < .8: continue
        for _ in range(1 if rng.random() < .93 else 2):
            v = value(rng, app, l, meta, bad) if meta and not (opt and rng.random() < .4) else None
            if opt and v == "": v = None
            o.append((s, l, meta, opt, v))
    if app in NEED and rng.random() < .9 and not any(x[1] == "bells" for x in o): o.insert(rng.randint(0, len(o)), ("b", "bells", "BELLS", False, value(rng, app, "bells", "BELLS", bad / 3)))
    if app == "methsearch" and rng.random() < .8: o.append(("", "limit", "NUM", False, "3")); o.append(("", "timeout", "NUM", False, "2"))
    if app == "methsearch" and rng.random() < .5: o.append(("m", "mask", "PATTERN", False, rng.choice(["&x1x1x1,2", "&?x1x?,2", "&x?x?x?,2"])))
    if app == "fextent" and rng.random() < .9: o.append(("n", "iterations", "NUM", False, "20"))
    if app == "touchsearch" and rng.random() < .8: o.append(("l", "length", "MIN-MAX", False, "0-80")); o.append(("", "limit", "NUM", False, "5"))
    return o

def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (12, 14)); resource.setrlimit(resource.RLIMIT_FSIZE, (48 << 20, 48 << 20))
def briefly():
    resource.setrlimit(resource.RLIMIT_CPU, (4, 5)); resource.setrlimit(resource.RLIMIT_FSIZE, (24 << 20, 24 << 20))
def longer():
    resource.setrlimit(resource.RLIMIT_CPU, (90, 95)); resource.setrlimit(resource.RLIMIT_FSIZE, (400 << 20, 400 << 20))

def run(ctx):
    apps = sorted(OPTS); ctx.need(*apps)
    ctx.rule = ("every program with random options in every spelling, good and hostile values, response files, environment settings, libraries and input streams, under address and undefined-behaviour sanitizers; exit status, messages, "
                "termination, equality of the spellings, refusal of unknown or malformed options. Non-trivial: distinct invocations which get past the options")
    def world(rng, d):
        os.makedirs(d, exist_ok=True); w = lambda f, t: open(os.path.join(d, f), "wb").write(t if isinstance(t, bytes) else t.encode("latin-1", "replace"))
        w("lib", "&-1-1-1,2\tPlain Bob Minor\n&-3-4-2-3-4-5,2 Cambridge Surprise Minor\n" if rng.random() < .6 else garble(rng, lite(rng), ALPHA))
        x = L.xml(rng, recs(rng))[0]; w("lib.xml", x if rng.random() < .6 else garble(rng, x if isinstance(x, str) else x.decode("latin-1"), ALPHA + ["<", ">"]))
        x = L.cc(rng, recs(rng))[0]; w("cclib", x if rng.random() < .6 else garble(rng, x if isinstance(x, str) else x.decode("latin-1"), ALPHA))
        w("empty", ""); os.makedirs(os.path.join(d, "dir"), exist_ok=True); w("rows", rows(rng, 6)); w("prog.siril", rng.choice(SIRIL)); w("args", rng.choice(["-b 6", "--bells=6 -q", "-b\n8", "", "\"-b6\" 'x'", "@args2", "\\", "'"]))
    def go(app, args, inp, rng, env=None, fill=None):
        b = ctx.bins[(app, "san")]; e = dict(BASE_ENV); e.update(SAN_ENV)
        if env: e.update(env)
        if fill is not None: e["ASAN_OPTIONS"] += ":malloc_fill_byte=%d:max_malloc_fill_size=65536" % fill
        for lim, tmo in ((briefly if app in SEARCH else limits, 60), (longer, 200)):
            d = tempfile.mkdtemp(dir=ctx.scratch); world(random.Random(rng), d); e["HOME"] = d
            try:
                with open(os.path.join(d, ".o"), "wb") as fo, open(os.path.join(d, ".e"), "wb") as fe:
                    p = subprocess.Popen([b] + [a.encode("latin-1") for a in args], stdin=subprocess.PIPE, stdout=fo, stderr=fe, cwd=d, env=e, start_new_session=True, preexec_fn=lim)
                    try: p.communicate(inp.encode("latin-1", "replace"), timeout=tmo)
                    except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.wait(); p.returncode = -signal.SIGXCPU
                out = open(os.path.join(d, ".o"), "rb").read(4 << 20); err = open(os.path.join(d, ".e"), "rb").read(1 << 20).decode("latin-1")
                if os.path.exists(os.path.join(d, "out")): out += open(os.path.join(d, "out"), "rb").read(1 << 20)
            finally: shutil.rmtree(d, ignore_errors=True)
            long = p.returncode in (-signal.SIGXCPU, -signal.SIGXFSZ, -signal.SIGKILL) or "allocation-size-too-big" in err or "out-of-memory" in err or "hard rss limit" in err or "SIGXFSZ" in err
            if not long: break
            if app in SEARCH or p.returncode != -signal.SIGXCPU: ctx.count("too long to tell"); return None
        else:
            report(app, args, inp, "does not end"); return None
        if p.returncode < 0 or p.returncode == 99 or "runtime error:" in err or "AddressSanitizer" in err or "terminate called" in err:
            k, wh = diagnose(err, p.returncode); report(app, args, inp, "%s at %s\n%s" % (k, wh, err[-1200:])); return None
        if p.returncode not in (0, 1, 2, 3): report(app, args, inp, "exit status %d" % p.returncode); return None
        return p.returncode, out, err
    places = {}
    def report(app, args, inp, what):
        k = app + re.sub(r"\d+", "N", what.split("\n")[0])
        with ctx.lock: places[k] = places.get(k, 0) + 1
        if places[k] > 3: return
        ctx.bad("%s %s <<< %s" % (app, " ".join(args), inp[:150]), "%s: %s\n  args=%r\n  stdin=%r" % (app, what, args, inp[:500]), {"program": app, "args": args, "stdin": inp[:5000], "complaint": what})
    def one(i):
        rng = random.Random("%s/c32/%d" % (ctx.seed, i)); app = apps[i % len(apps)]; bad = rng.choice([0, 0, .3, .8]); seed = "%s/%d" % (ctx.seed, i)
        o = options(rng, app, bad); pos = positional(rng, app); inp = stdin(rng, app)
        if bad and rng.random() < .4: pos = [clean(hostile(rng, p, ALPHA, PN)) for p in pos]
        pos = [p for p in pos if p[:1] not in "-@" or p[:1] == "-" and 0]
        if bad and rng.random() < .6: inp = hostile(rng, inp, ALPHA + ["\n", "\n", " ", "\t"], [inp])
        if len(inp) > 50000: inp = inp[:50000]
        o = [x for x in o if x[4] is None or not x[4].startswith(("-", "@"))] if rng.random() < .7 else [x for x in o if x[4] is None or not x[4].startswith("@")]
        env = {"METHOD_LIBRARY": rng.choice(["lib", "lib.xml", "missing", ":", "dir"])} if rng.random() < .1 else None
        if app == "gsiril" and rng.random() < .15: o.append(("L", "library", "LIB", False, rng.choice(["lib", "lib.xml"])))
        args = spell(rng, o, pos)
        if rng.random() < .03: args.insert(rng.randint(0, len(args)), "@" + rng.choice(["args", "missing", "empty", "dir"]))
        r = go(app, args, inp, seed, env)
        if r is None: return
        rc, out, err = r
        ctx.count(app); ctx.count("status %d" % rc)
        for x in o: ctx.count("%s --%s" % (app, x[1])) if x[4] is not None or not x[2] else None
        if rc and not err.strip() and not (rc == 1 and app in ("gsiril", "musgrep", "rowcalc", "methodlib")): report(app, args, inp, "exit status %d without a message" % rc); return
        ctx.ok_case(app + " ".join(args) + inp if out else None)
        k = rng.random()
        safe = not any(x[4] is not None and x[4].startswith("-") for x in o) and not any(x.startswith("@") for x in args) and not any(x[1] in ("random", "loop", "timeout", "status", "interactive") for x in o)
        if k < .25 and safe:    # another spelling of the same; and other rubbish in memory
            o2 = o + [("", "seed", "NUM", False, "7")] if app in ("fextent", "ringmethod") else o
            a1, a2 = spell(rng, o2, pos), spell(rng, o2, pos)
            x = go(app, a1, inp, seed, env, 0); y = go(app, a2, inp, seed, env, 255)
            if x is None or y is None: return
            ctx.count("spellings")
            if x[:2] != y[:2] or x[2] != y[2]:
                report(app, a1, inp, "is not the same as %r: %d %r %r, then %d %r %r" % (a2, x[0], x[1][-80:], x[2][-80:], y[0], y[1][-80:], y[2][-80:]))
        elif k < .45:           # something wrong on the command line
            w = rng.choice(["unknown", "unknown short", "no argument", "no short argument", "unwanted"])
            t = [x for x in OPTS[app] if x[2] and not x[3]]; f = [x for x in OPTS[app] if not x[2]]
            b = None
            if w == "unknown": b = ["--" + rng.choice(["nosuch", "xyzzy=3", "bell", "bells2=5", "helpme", "-"])]
            elif w == "unknown short": b = ["-" + rng.choice([c for c in "0123456789#~.XYZ=+" if c not in [x[0] for x in OPTS[app]]])]
            elif w == "no argument" and t: b = ["--" + rng.choice(t)[1]]
            elif w == "no short argument" and [x for x in t if x[0]]: b = ["-" + rng.choice([x for x in t if x[0]])[0]]
            elif w == "unwanted" and f and app != "psline": b = ["--" + rng.choice(f)[1] + "=1"]
            if b is None: return
            good = spell(rng, [x for x in o if x[4] is None or not x[4].startswith("-")], [])
            if w.startswith("no "): a = good + b
            else: i = rng.choice([0, len(good)]); a = good[:i] + b + good[i:]
            if any(x.startswith("@") for x in a): return
            if w == "no argument" and b[0] == "--help": return
            r = go(app, a + (pos if w.startswith("unk") else []), inp, seed, env)
            if r is None: return
            ctx.count("bad options: " + w)
            if r[0] == 0 or not r[2].strip(): report(app, a, inp, "%r on the command line (%s) was not refused: %d %r" % (b, w, r[0], r[2][-100:]))
        elif k < .50:           # requests for help succeed and mention every option
            a = [rng.choice(["--help", "-?", "--version", "-V"])]
            r = go(app, a, inp, seed, env)
            if r is None: return
            ctx.count("help and version")
            t = r[1].decode("latin-1")
            if r[0] or not t or r[2].strip(): report(app, a, inp, "exit status %d, %r on standard error" % (r[0], r[2][:100])); return
            if "elp" in a[0] or a[0] == "-?":
                miss = [x[1] for x in OPTS[app] if "--" + x[1] not in t]
                if miss: report(app, a, inp, "the help does not mention --%s" % miss[0])
            elif "0.4.0" not in t: report(app, a, inp, "the version is not given: %r" % t[:60])
    k = ctx.n(2800, 80000); ctx.map(one, range(k))
    ctx.minimum.update({"spellings": 250, "help and version": 40})
    for a in apps: ctx.minimum[a] = 70
    for w in ("unknown", "unknown short", "no argument", "unwanted"): ctx.minimum["bad options: " + w] = 30
