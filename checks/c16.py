"""C16: printed methods."""
from vt import ring as R, meth as M, psdoc as P, printed as D
from vt.libs import some_method, pn_text
FONTS = sorted(D.W); PSF = FONTS + ["Palatino-Roman", "Bookman-Demi"]

def colour(rng): return (rng.choice([0.0, .5, .25, .9, 1.0]),) if rng.random() < .5 else tuple(rng.choice([0.0, .5, 1.0, .75, .2]) for _ in range(3))
def ct(c): return ",".join("%g" % x for x in c)

def spec(rng, frac):
    while True:
        m = some_method(rng, maxn=12)
        if 4 <= len(m) <= 60: break
    n, L = m[0][0], len(m)
    d = lambda a, b: rng.randint(a, b) + (rng.choice([0, .5, .25, .75]) if frac else 0)
    S = dict(m=m, total=rng.choice([L, 2 * L, rng.randint(1, 4 * L)]), xs=d(9, 15), ys=d(8, 16), hgap=d(15, 50), vgap=d(3, 30), mode=rng.randrange(4), pn=rng.choice([0, 1, 2, 17, 18, 16]),
             pb=rng.choice([-1, -1] + list(range(n))), calls=rng.choice(["", "", "B", "BS", " BSP", "- SS"]), numbers=rng.random() < .75, rules=[], lines={}, grid=None,
             font=rng.choice(FONTS), size=rng.choice([80, 100, 95, 120, 77]), col=colour(rng), start=R.rounds(n) if rng.random() < .6 else R.rand_row(rng, n))
    S["rpc"] = min(rng.choice([L, 2 * L, L // 2 or 1, rng.randint(1, 2 * L + 3)]), S["total"] + 3); S["cps"] = rng.randint(1, 4); S["spp"] = rng.choice([0, 1, 1, 2, 3])
    if rng.random() < .5:
        for _ in range(rng.randint(1, 2)):
            a = rng.randint(1, L); S["rules"].append((a, rng.choice([0, rng.randint(a, L)])))
    for b in rng.sample(range(n), rng.randint(0, min(4, n))): S["lines"][b] = (rng.choice([.25, .5, 1, 2, 1.5]), colour(rng), rng.random() < .3)
    if rng.random() < .4: S["grid"] = (rng.choice([1, 2]), colour(rng), rng.choice([.25, .5, 3]))
    S["x0"] = rng.randint(20, 200); S["y0"] = rng.randint(300, 800)
    if not S["numbers"] and not S["lines"]: S["lines"][0] = (1, (0.0, 0.0, 1.0), False)
    return S
def args(S, rng):
    dim = lambda x: ("%g pt" % x) if rng.random() < .7 or x != int(x) else "%d/72 in" % x
    a = ["font=%s|%d|%s" % (S["font"], S["size"], ct(S["col"])), "flags=%d" % (1 if S["numbers"] else 0), "xs=" + dim(S["xs"]), "ys=" + dim(S["ys"]), "hgap=" + dim(S["hgap"]), "vgap=" + dim(S["vgap"]),
         "rows=%d" % S["total"], "rpc=%d" % S["rpc"], "cps=%d" % S["cps"], "spp=%d" % S["spp"], "xoff=" + dim(S["x0"]), "yoff=" + dim(S["y0"]), "mode=%d" % S["mode"], "pn=%d" % S["pn"], "pb=%d" % S["pb"], "calls=" + S["calls"], "start=" + ",".join(map(str, S["start"]))]
    a += ["rule=%d|%d" % r for r in S["rules"]] + ["line=%d|%s|%g pt|%d" % (b, ct(l[1]), l[0], l[2]) for b, l in S["lines"].items()]
    if S["grid"]: a.append("grid=%d|%s|%g pt" % (S["grid"][0], ct(S["grid"][1]), S["grid"][2]))
    return a
def some_text(rng):
    k = rng.random()
    if k < .3: return rng.choice(["Plain Bob Minor", "a(b)c", "((", ")", "\\", "a\\(b", "\\n", "100%", "%%EOF", "() ()", "x\ty", "two\nlines", "a\rb", "[x] {y} <z> /w"])
    return "".join(chr(rng.choice([rng.randint(32, 126), rng.randint(128, 254), rng.randint(1, 31), 127, 40, 41, 92])) for _ in range(rng.randint(1, 12))).replace("|", "!")

def run(ctx):
    ctx.need("driver"); ctx.need("psline"); rng = ctx.rng
    ctx.rule = ("methods laid out over columns, sets and pages with every style of numbers, lines, guides, rule-offs, place bells, calls and place notation, as PostScript, EPS and PDF, portrait and landscape; every document is executed (PostScript) or resolved "
                "object by object (PDF) and every mark it leaves on each page is compared with the marks the method's rows require")
    ev = []
    for _ in range(ctx.n(900, 9000)):
        frac = rng.random() < .25; S = spec(rng, frac); n, L = S["m"][0][0], len(S["m"])
        ncols = -(-S["total"] // S["rpc"]); nsets = -(-ncols // S["cps"]); npages = -(-nsets // S["spp"]) if S["spp"] else 1
        kind = rng.choice(["ps", "psl", "pdf", "pdfl", "pdf", "eps" if npages == 1 else "ps"])
        w, h = rng.randint(300, 900), rng.randint(300, 900); T = None; head = kind
        if kind in ("psl", "pdfl"):
            head += " %d" % w if kind == "psl" else " %d %d" % (w, h); T = lambda x, y, w=w: (y, w - x)
        elif kind == "eps": head += " 0 0 %d %d" % (w, h)
        elif kind == "pdf" and rng.random() < .7: head += " %d %d" % (w, h)
        a = args(S, rng); S["texts"] = []
        fam = "pdf" if "pdf" in kind else "ps"
        if fam == "ps" and rng.random() < .1: S["font"] = rng.choice(PSF); a[0] = "font=%s|%d|%s" % (S["font"], S["size"], ct(S["col"]))
        for q in range(rng.choice([0, 0, 1, 2])):
            t, f, z, c, x, y, al = some_text(rng), rng.choice(FONTS), rng.choice([100, 180, 65]), colour(rng), rng.randint(10, 300), rng.randint(820, 900), rng.randrange(3)
            after = q == 1 or (rng.random() < .2 and q == 0)
            if after and any(z.startswith("after") for z in a): continue
            a.append("%s=%s|%s|%d|%s|%d pt|%d pt|%d" % ("after" if after else "text", t, f, z, ct(c), x, y, al))
            S["texts"].append((t, x, "lrc"[al], y, z / 10, f, c, "text", npages - 1 if after else 0))
        tol = .1 + .012 * S["rpc"] + (0 if not frac else 3 + S["cps"] * 2)
        if frac and tol >= min(S["xs"], S["ys"]) * .9: continue
        def j(o, S=S, fam=fam, tol=tol, T=T, head=head, w=w, h=h):
            if o.exc: return "exception"
            doc = P.read_ps(o[-1]) if fam == "ps" else P.read_pdf(o[-1], D.WIDTHS)
            c = D.compare(S, doc, fam, tol, T)
            ctx.count("marks compared", S.get("seen", 0)); ctx.count("pages", len(doc.pages))
            if c: return c
            i = doc.info; f = head.split()
            if f[0] == "eps" and i["bbox"] != [float(x) for x in f[1:]]: return "the bounding box is %s" % i["bbox"]
            if fam == "ps" and f[0] != "eps" and i["orientation"] != ("Landscape" if f[0] == "psl" else "Portrait"): return "declares orientation %s" % i["orientation"]
            if fam == "pdf":
                if i["rotate"] != (90 if f[0] == "pdfl" else 0): return "rotated by %s" % i["rotate"]
                if len(f) > 1 and i["box"] != [0, 0, w, h]: return "the page is %s, should be %d by %d" % (i["box"], w, h)
            ex = [e for e in D.extent_of(doc, T) if e]
            if ex and not S["texts"]:
                b = [float(x) for x in o[:4]]; t = 1.01 + (tol if tol > 1 else .5); u = max(e[2] for e in ex) - S["x0"]; v = [min(e[0] for e in ex) - S["x0"], min(e[1] for e in ex) - S["y0"], u, max(e[3] for e in ex) - S["y0"]]
                if v[0] < b[0] - t or v[1] < b[1] - t or v[2] > b[2] + t or v[3] > b[3] + t: return "draws %s, outside its bounding box %s" % (["%.1f" % x for x in v], b)
        ev.append((["printm", head, n, pn_text(rng, S["m"])] + a, j, tuple(a) + (head,))); ctx.count(kind + " documents")
    # text alone, and documents of several pages with nothing on some of them
    for _ in range(ctx.n(300, 2000)):
        kind = rng.choice(["ps", "psl 595", "pdf", "pdfl 600 800", "eps 0 0 300 300"]); a = ["noprint"]; want = [[]]
        for _ in range(rng.randint(0, 4)):
            if rng.random() < .3 and kind[:3] != "eps": a.append("newpage"); want.append([]); continue
            t, f, z, c, x, y, al = some_text(rng), rng.choice(FONTS), rng.choice([100, 180, 65]), colour(rng), rng.randint(10, 300), rng.randint(10, 500), rng.randrange(3)
            a.append("text=%s|%s|%d|%s|%d pt|%d pt|%d" % (t, f, z, ct(c), x, y, al)); want[-1].append((t, x, y, z / 10, f, c, al))
        if kind[:3] == "pdf" and not any(want): pass
        def j(o, kind=kind, want=want):
            if o.exc: return "exception"
            pdf = kind[:3] == "pdf"; doc = P.read_pdf(o[-1], D.WIDTHS) if pdf else P.read_ps(o[-1])
            if doc.errors: return "the document is not well-formed: " + "; ".join(doc.errors[:3])
            if len(doc.pages) != len(want): return "%d pages, should be %d" % (len(doc.pages), len(want))
            for pg, ws in zip(doc.pages, want):
                if len(pg) != len(ws): return "%d texts on a page, should be %d" % (len(pg), len(ws))
                for g, (t, x, y, z, f, c, al) in zip(pg, ws):
                    if g[1] != t: return "text %r is shown as %r" % (t, g[1])
                    if g[5] != z or g[6] != f or not D.closec(c, g[7]): return "text %r is in font %s %s %s" % (t, g[5], g[6], g[7])
                    gx, gy, wx, wy = g[2], g[3], g[4][0], g[4][1]
                    if kind[:3] == "psl" or kind[:4] == "pdfl": W = int(kind.split()[1]); gx, gy, wx = gy, W - gx, wy
                    ax = gx + (0, wx, wx / 2)[al]
                    if abs(ax - x) > .06 or abs(gy - y) > .06: return "text %r is at %.2f,%.2f, should be at %d,%d" % (t, ax, gy, x, y)
        ev.append((["printm", kind, 4, "x1"] + a, j, tuple(a) + (kind,))); ctx.count("text documents")
    # fitting to a space
    for _ in range(ctx.n(400, 3000)):
        m = some_method(rng, maxn=12); n, L = m[0][0], len(m); rows = rng.choice([L, L * rng.randint(1, 12)]); w, h = rng.randint(200, 900), rng.randint(200, 900); pnm, pb = rng.choice([0, 1, 2, 17]), rng.choice([-1, 1])
        vg = rng.random() < .5; asp = rng.choice([1, 2])
        def j(o, w=w, h=h, rows=rows, L=L, n=n, vg=vg):
            xs, ys, hg, vgap = map(float, o[:4]); rpc, cps, spp = map(int, o[4:7])
            if min(xs, ys) <= 0 or min(rpc, cps, spp) < 1: return "laid out as %s" % list(o)
            if rpc * cps * spp < rows: return "%d rows do not fit in %d columns of %d in %d sets on one page" % (rows, cps, rpc, spp)
            if rpc % L: return "columns of %d rows, leads of %d" % (rpc, L)
            if float(o[7]) > w * 1.02 + 2 * xs or float(o[8]) > h * 1.02 + 2 * ys: return "%s by %s, does not fit %d by %d" % (o[7], o[8], w, h)
        ev.append((["fitm", n, pn_text(rng, m), rows, "%d pt" % w, "%d pt" % h, int(vg), asp, pnm, pb], j, (R.pns(m), rows, w, h))); ctx.count("fits")
    ctx.events(ev)
    psline(ctx)
    ctx.minimum = {"marks compared": 50000, "pages": 600, "ps documents": 100, "pdf documents": 100, "eps documents": 20, "text documents": 100, "fits": 200, "psline documents": 100, "psline fitted documents": 40}

def cli(c): return "-".join("%d" % round(x * 100) for x in c)
def default_lines(m):
    n = m[0][0]; lh = R.leadhead(m, n); out = {}; found = False
    for b in range(n):
        if lh[b] == b: out[b] = (.25, (1.0, 0.0, 0.0), False)
        elif not found and b in R.places(m[-1]): out[b] = (.5, (0.0, 0.0, 1.0), False); found = True
    if not found:
        for b in range(n):
            if lh[b] != b: out[b] = (.5, (0.0, 0.0, 1.0), False); break
    return out
def anchor(S, doc, T):
    """move S to where the document has its right-hand top corner"""
    S["x0"] = S["y0"] = 0; e = [x for x in D.expected(S)[0]]; half = S["half"]
    ex = [(x[2], x[4]) for x in e if x[0] == "t" and len(x[1]) == 1 and x[3] == "c"] + [q for x in e if x[0] in ("l", "l*") for q in (x[1:3], x[3:5])] + [q for x in e if x[0] == "r" for q in ((x[1], x[3]), (x[2], x[3]))]
    ac = []
    for a in doc.pages[0]:
        if a[0] == "text" and len(a[1]) == 1 and a[1] != " " and a[5] == S["size"] / 10:
            p, q = T(a[2], a[3]), T(a[2] + a[4][0], a[3] + a[4][1]); ac.append(((p[0] + q[0]) / 2, p[1] + half * a[5]))
        elif a[0] == "line": ac += [T(*q) for q in a[1]]
    if not ex: return None
    if not ac: return False
    S["x0"] = max(q[0] for q in ac) - max(q[0] for q in ex); S["y0"] = max(q[1] for q in ac) - max(q[1] for q in ex)
    return True
def psline(ctx):
    rng = ctx.rng; jobs = []
    for _ in range(ctx.n(260, 2500)):
        S = spec(rng, False); S["texts"] = []; m, n, L = S["m"], S["m"][0][0], len(S["m"]); S["size"] = rng.choice([80, 100, 95]); S["spp"] = S["spp"] or 1
        if n < 5: S["numbers"] = True
        ncols = -(-S["total"] // S["rpc"]); nsets = -(-ncols // S["cps"]); np = -(-nsets // S["spp"])
        fmt = rng.choice(["ps", "pdf", "eps"]); land = fmt != "eps" and rng.random() < .4
        W, H = rng.choice([(595, 842), (612, 792), (2000, 3000)]); a = []
        if fmt != "ps": a.append({"pdf": "-P", "eps": "-e"}[fmt])
        if land: a.append("-L")
        a += ["--paper-size=%d pt,%d pt" % (W, H), "-f", S["font"], "-s", "%g" % (S["size"] / 10), "-x", "%d pt" % S["xs"], "-y", "%d pt" % S["ys"], "-h", "%d pt" % S["hgap"], "-v", "%d pt" % S["vgap"], "-k", str(S["cps"]), "-d", str(S["spp"])]
        if fmt == "eps": S["spp"] = 0
        if S["rpc"] % L == 0 and rng.random() < .5: a += ["-i", str(S["rpc"] // L)]
        else: a += ["-I", str(S["rpc"])]
        if S["total"] % L == 0 and rng.random() < .5: a += ["-j", str(S["total"] // L)]
        else: a += ["-J", str(S["total"])]
        if S["col"] == (0.0,) and rng.random() < .5: pass
        else: a += ["-c", cli(S["col"])]
        if not S["numbers"]: a.append("-n")
        style = rng.random()
        if style < .4: S["lines"] = default_lines(m)
        elif not S["lines"]: a.append("--line")
        elif style < .6:
            S["lines"] = {b: S["lines"][min(S["lines"])] for b in S["lines"]}; l = S["lines"][min(S["lines"])]; a.append("--line=%s%s,%s,%g pt" % ("".join(R.ch(b) for b in S["lines"]), "x" if l[2] else "", cli(l[1]), l[0]))
        elif style < .7:
            l = S["lines"][min(S["lines"])]; lh = R.leadhead(m, n); w = rng.choice("ahw"); S["lines"] = {b: l for b in range(n) if w == "a" or (w == "h") == (lh[b] == b)}; a.append("--line=:%s%s,%s,%g pt" % (w, "x" if l[2] else "", cli(l[1]), l[0]))
        else: a += ["--line=%s%s,%s,%g pt" % (R.ch(b), "x" if l[2] else "", cli(l[1]), l[0]) for b, l in S["lines"].items()]
        if not S["numbers"] and not S["lines"]: continue
        if S["grid"]: a.append("--guides=%d,%s,%g pt" % (S["grid"][0], cli(S["grid"][1]), S["grid"][2]))
        if rng.random() < .3:
            work = [b for b in S["lines"] if R.leadhead(m, n)[b] != b]; S["pb"] = work[0] if len(work) == 1 else -1
        else: a.append("--place-bells=%s" % ("x" if S["pb"] < 0 else R.ch(S["pb"])))
        if S["pn"] == 1 and rng.random() < .5: pass
        else: a.append("--place-notation=" + ["none", "first", "all"][S["pn"] & 15] + (",nox" if S["pn"] & 16 else ""))
        if S["mode"] == 3 and rng.random() < .5: pass
        else: a.append("--miss-numbers=" + ["never", "always", "column", "lead"][S["mode"]])
        cls = M.methclass(m); sure = len(cls) == 1 and min(cls) < 16
        if sure and (rng.random() < .3 or (not S["rules"] and rng.random() < .5)):
            S["rules"] = []
            if S["numbers"]: S["rules"] = [(4, 4)] if min(cls) in (4, 5, 6) else [(L, 0)]
        elif not S["rules"]: a.append("--rule")
        else: a += ["--rule=%d,%d" % r if r[1] else "--rule=%d" % r[0] for r in S["rules"]]
        if S["calls"]: a.append("--calls=" + S["calls"])
        if S["start"] != R.rounds(n): a += ["-R", R.rs(S["start"])]
        title = None
        if rng.random() < .4:
            title = some_text(rng).replace(",", ";").replace("$", "S").replace("\0", ""); f, z, c = rng.choice(FONTS), rng.choice([18, 12.5]), colour(rng)
            if len(title) < 2 or not title.strip(): title = "A title"
            a.append("--title=%s,%s,%g,%s" % (title, f, z, cli(c)) if rng.random() < .5 else "--title=" + title)
            if a[-1] == "--title=" + title: a += ["--title-font=" + f, "--title-size=%g" % z, "--title-colour=" + cli(c)]
            title = (title, f, z, c)
        jobs.append((S, a + ["%d:%s" % (n, pn_text(rng, m).replace(" ", ""))], fmt, land, W, H, title))
    def one(job):
        S, a, fmt, land, W, H, title = job
        r = ctx.app("psline", a)
        if r is None: return
        def bad(c): ctx.appbad("psline", a, "", r, c)
        ctx.ok_case(tuple(a)); ctx.count("psline documents")
        if r.rc: return bad("failed")
        doc = P.read_pdf(r.out, D.WIDTHS) if fmt == "pdf" else P.read_ps(r.out)
        if doc.errors: return bad("the document is not well-formed: " + "; ".join(doc.errors[:3]))
        T = (lambda x, y: (y, W - x)) if land else (lambda x, y: (x, y)); S["half"] = D.HALF["pdf" if fmt == "pdf" else "ps"]
        if fmt == "pdf" and (doc.info["box"] != [0, 0, W, H] or doc.info["rotate"] != (90 if land else 0)): return bad("page is %s, rotated by %s" % (doc.info["box"], doc.info["rotate"]))
        if fmt == "ps" and doc.info["orientation"] != ("Landscape" if land else "Portrait"): return bad("wrong orientation")
        if title:
            t = [x for x in doc.pages[0] if x[0] == "text" and x[1] == title[0]]
            if len(t) != 1 or t[0][6] != title[1] or abs(t[0][5] - title[2]) > .006 or not D.closec(title[3], t[0][7]): return bad("the title %r is shown as %r" % (title, t))
            doc.pages[0].remove(t[0])
        at = doc.pages and anchor(S, doc, T)
        if at is None: return
        if not at: return bad("nothing recognisable is shown")
        c = D.compare(S, doc, "pdf" if fmt == "pdf" else "ps", .15 + .012 * S["rpc"], T); ctx.count("marks compared", S.get("seen", 0)); ctx.count("pages", len(doc.pages))
        if c: return bad(c)
        ex = [e for e in D.extent_of(doc, T) if e]; w, h = (H, W) if land else (W, H)
        if fmt == "eps":
            b = doc.info["bbox"]
            for e in ex:
                if e[0] < b[0] - 1.5 or e[1] < b[1] - 1.5 or e[2] > b[2] + 1.5 or e[3] > b[3] + 1.5: return bad("draws %s, outside its bounding box %s" % (e, b))
            if title:
                p = t[0]
                if p[3] < ex[0][3] - 1 or p[3] > b[3]: return bad("the title is at %.1f, image ends at %.1f, box at %.1f" % (p[3], ex[0][3], b[3]))
        elif len(doc.pages) == 1 and ex and (S["pn"] & 15) == 0 and S["pb"] < 0 and S["numbers"] and S["mode"] == 0 and not S["calls"]:
            mid = (ex[0][0] + ex[0][2]) / 2
            if abs(mid - w / 2) > S["xs"] * .75 + 2 + S["cps"]: return bad("the middle is at %.1f on a page %d wide" % (mid, w))
    ctx.map(one, jobs)
    fits = []
    for _ in range(ctx.n(120, 1200)):
        while True:
            m = some_method(rng, maxn=10)
            if 4 <= len(m) <= 40: break
        n, L = m[0][0], len(m); leads = rng.randint(1, 9); fmt = rng.choice(["ps", "pdf"]); land = rng.random() < .4; W, H = rng.choice([(595, 842), (612, 792), (400, 400)]); a = ["-j", str(leads), "--line", "--place-bells=x", "--place-notation=none", "--miss-numbers=never", "--paper-size=%d pt,%d pt" % (W, H)]
        if fmt == "pdf": a.append("-P")
        if land: a.append("-L")
        k = rng.random(); pages = 1
        if k < .4: pages = rng.randint(1, min(3, leads)); a += ["-g", str(pages)]
        elif k < .5: a += ["-i", str(rng.randint(1, 3))]
        elif k < .6: a += ["-k", str(rng.randint(1, 3))]
        elif k < .7: a += ["-d", str(rng.randint(1, 2))]
        if rng.random() < .4: a.append("-a")
        fits.append((m, n, leads * L, fmt, land, W, H, pages, a + ["%d:%s" % (n, R.pns(m))]))
    def fit(job):
        m, n, total, fmt, land, W, H, pages, a = job; r = ctx.app("psline", a)
        if r is None: return
        def bad(c): ctx.appbad("psline", a, "", r, c)
        ctx.ok_case(tuple(a)); ctx.count("psline fitted documents")
        if r.rc: return bad("failed")
        doc = P.read_pdf(r.out, D.WIDTHS) if fmt == "pdf" else P.read_ps(r.out)
        if doc.errors: return bad("the document is not well-formed: " + "; ".join(doc.errors[:3]))
        T = (lambda x, y: (y, W - x)) if land else (lambda x, y: (x, y)); w, h = (H, W) if land else (W, H)
        want = D.rows_of(dict(start=R.rounds(n), m=m, total=total)); g = 0; first = True
        if len(doc.pages) > pages or ("-g" in a and len(doc.pages) < pages and total // len(m) % pages == 0): return bad("%d pages, asked for %d" % (len(doc.pages), pages))
        for pg in doc.pages:
            fig = []
            for x in pg:
                if x[0] == "text":
                    p = T(x[2] + x[4][0] / 2, x[3] + x[4][1] / 2)
                    if not (0 <= p[0] <= w and 0 <= p[1] <= h): return bad("%r is shown off the page at %.1f,%.1f" % ((x[1],) + p))
                    fig.append((x[1], p))
            if len(fig) % n: return bad("%d figures on a page are not rows of %d bells" % (len(fig), n))
            last = step = None
            for k in range(0, len(fig), n):
                row = "".join(f for f, _ in fig[k:k + n]); ys = [p[1] for _, p in fig[k:k + n]]; xs = [p[0] for _, p in fig[k:k + n]]
                if max(ys) - min(ys) > .1 or any(xs[i + 1] - xs[i] < 1 for i in range(n - 1)): return bad("the figures of row %r are not in line" % row)
                new = last is None or abs(xs[0] - last[0]) > .3 or ys[0] > last[1] or (step and last[1] - ys[0] > 1.4 * step)
                if last and not new and not step: step = last[1] - ys[0]
                if not first and not new: g += 1
                first = False
                if g > total or row != R.rs(want[g]): return bad("shows %s as row %d, should be %s" % (row, g, R.rs(want[g]) if g <= total else "nothing"))
                last = (xs[0], ys[0])
            ctx.count("marks compared", len(fig)); ctx.count("pages")
        if g != total: return bad("shows %d rows, should show %d" % (g, total))
    ctx.map(fit, fits)
