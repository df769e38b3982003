"""Method library files in each format, with what they say."""
from . import ring as R, meth as M

NAMES = ["Plain", "Cambridge", "Kent", "Foo", "St Clement's College", "Zanussi", "Old Oxford", "E=mc^2", "Ytterbium", "No. 1", "Bobby", "Placename", "Litt", "Double Court", "A", "Grands", "Fryup", "Deva", "Bristol 2",
         "Ealing", "Superlative", "Caterham", "London Number Three", "Minorca", "Bobtail", "x", "Quedgeley", "Mixed Up"]
WORDS = ["red", "kite", "Oak", "river", "Elm", "North", "tower", "Bell", "cat", "seven"]

def chs(m): return ".".join("%d:%s" % (c[0], ",".join(map(str, c[1]))) for c in m)

class Rec:
    def __init__(s, m, base, facets=()):
        s.m, s.base, s.n = m, base, m[0][0]
        s.classes = M.methclass(m); s.facets = dict(facets)
        s.full = M.fullname(m, base, min(s.classes)) if len(s.classes) == 1 else None
        s.changes = chs(m)
    def __repr__(s): return "%s on %d %s" % (s.base, s.n, s.changes)

def some_name(rng, one_word=False):
    k = rng.random()
    if k < .5: s = rng.choice(NAMES)
    elif k < .8: s = " ".join(rng.choice(WORDS).capitalize() for _ in range(rng.randint(1, 3)))
    else: s = "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABCD'-.") for _ in range(rng.randint(1, 9))).strip("-.'") or "Q"
    return s.replace(" ", "_") if one_word else s

def palin(m): return len(m) % 2 == 0 and M.pal_about(m, len(m) // 2 - 1)

def some_method(rng, n=None, kind=None, maxn=14):
    n = n or rng.choice([k for k in [3, 4, 5, 6, 6, 6, 7, 8, 8, 8, 9, 10, 12, 14] if k <= maxn])
    k = rng.random()
    if kind == "sym" or k < .5: return M.regular_method(rng, n, 4) if n > 3 else M.with_treble(rng, n, M.treble_path(n, "plain", rng))
    return M.random_method(rng, n, 14)

def block(rng, chs, style=None):
    """text of a list of changes"""
    x = rng.choice("xX-") if style is None else style
    out = ""; prev = None
    for c in chs:
        t = R.cs(c, x)
        if prev is not None and (prev != x and t != x or rng.random() < .15): out += "."
        out += t; prev = t
    return out
def pn_text(rng, m, spaces=False):
    k = rng.random()
    if palin(m) and k < .6:
        h = len(m) // 2
        return "&" + block(rng, m[:h]) + "," + rng.choice(["", "&"]) + block(rng, m[-1:])
    if k < .7 and len(m) > 1:
        i = rng.randrange(1, len(m)); return block(rng, m[:i]) + "," + block(rng, m[i:])
    return ("+" if k > .9 else "") + block(rng, m)
def change_text(c, x="-"): return R.cs(c, x)

def parse_pn(n, s):
    """what written place notation says; raises R.Bad"""
    out = []
    for b in s.split(","):
        sym = b.startswith("&"); b = b.lstrip("&+"); toks = []; cur = ""
        for c in b:
            if c in "xX-":
                if cur: toks.append(cur); cur = ""
                toks.append("X")
            elif c == ".":
                if cur: toks.append(cur); cur = ""
            else: cur += c
        if cur: toks.append(cur)
        cs = [R.pc(n, t) for t in toks]
        out += cs + cs[-2::-1] if sym and len(cs) > 1 else cs
    return out

# ------------------------------------------------------------------ formats
def lite(rng, recs, b=0, names=False, noise=True, payloads=True):
    """Returns (text, expected records) for a library opened for b bells."""
    lines, exp = [], []
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    for r in recs:
        prefix = True if b == 0 else (r.n != b or rng.random() < .3)
        if r.n != b and b != 0 and not prefix: continue
        pay = ""
        if names: pay = r.full if r.full else ""
        elif payloads and rng.random() < .8: pay = rng.choice(["", "  "]) .strip() + " ".join(rng.choice(WORDS + ["12:34", "x  y", "100%", "#1"]) for _ in range(rng.randint(1, 3)))
        l = rng.choice(["", "", "", " ", "\t  "]) + ("%d:" % r.n if prefix else "") + pn_text(rng, r.m)
        if pay: l += rng.choice([" ", "\t", "   ", " \t"]) + pay
        l += rng.choice(["", "", "", " ", "\t "])
        lines.append(l)
        if b == 0 or r.n == b:
            e = Rec(r.m, r.base if names and pay else "", {"payload": pay}); e.pay = pay; exp.append(e)
        if noise and rng.random() < .15: lines.append(rng.choice(["", "   ", "\t"]))
    if noise and b == 0 and rng.random() < .3:
        lines.insert(rng.randint(0, len(lines)), "x.14.x.14,12 no bells here")
    t = nl.join(lines)
    if rng.random() < .7 or not lines or not lines[-1].strip(): t += nl
    if rng.random() < .1: t = "\xef\xbb\xbf" + t
    return t, exp

LE = lambda n, s: R.pc(n, s)
def ms_le(m):
    """lead-head codes whose last change is that of m"""
    n = m[0][0]; le = m[-1]; out = [R.cs(le, "x") + "z"] if le != R.pc(n, "X") or n % 2 else []
    if le == R.pc(n, "2"): out += ["a", "b", "c1", "d", "e2", "f", "p", "q1"]
    if le == R.pc(n, "1"): out += ["g", "h", "j1", "k", "l2", "m", "r", "s"]
    return out
def ms(rng, recs):
    """Returns (file name, text, expected)"""
    lines, exp = [], []
    b = 0; fn = rng.choice(["methods.txt", "surprise%d.txt", "s%d", "%d.lib", "lib.d/x%d", "d.e/plain%d.txt"])
    if "%d" in fn:
        b = recs[0].n if recs and rng.random() < .8 else 0
        fn = fn % b if b else "methods"
    if rng.random() < .2: lines.append("")
    for r in recs:
        if r.n != b or rng.random() < .1:
            b = r.n; lines.append(rng.choice(["*Methods S%d", "* S%d Surprise", "*Library TB%d and more", "* %d", "*a TD%d"]) % b)
        name = some_name(rng, True)
        if " " in name or name[0] == "*": name = "Name"
        if palin(r.m) and len(r.m) > 2 and ms_le(r.m) and rng.random() < .8:
            lh = rng.choice(ms_le(r.m)); p = "&" + block(rng, r.m[:len(r.m) // 2])
        else:
            lh = rng.choice(["z", "a", "g", "12z", "s"]); p = "+" + block(rng, r.m)
        lines.append("%s %s %s" % (name, lh, p) + rng.choice(["", "", "\t"]))
        exp.append(Rec(r.m, name))
        if rng.random() < .1: lines.append("")
    t = "\n".join(lines)
    if rng.random() < .8: t += "\n"
    return fn, t, exp

CLS = {"TREBLE_PLACE": "Treble Place", "ALLIANCE": "Alliance", "HYBRID": "Hybrid", "SURPRISE": "Surprise", "DELIGHT": "Delight", "TREBLE_BOB": "Treble Bob"}
def date(rng): return (rng.randint(1, 28), rng.randint(1, 12), rng.randint(1720, 2020))
PLACES = ["London", "St Mary-le-Bow", "Bristol, St James", "Oxford (New College)", "Leeds", "Bath Abbey", "Yorktown"]
def cc(rng, recs):
    """Central Council style tables; Returns (text, expected)"""
    lines = [rng.choice(["Methods rung to 2005.  Copyright The Central Council", "Copyright 2004", "(c) Copyright X"])]
    exp = []
    groups = {}
    for r in recs:
        if len(r.classes) != 1 or not 3 <= r.n <= 22: continue
        cl = min(r.classes); k = cl & 15
        # the fields of a table need not have a gap between them, but changes must stay apart
        if palin(r.m) and len(r.m) >= 4: shape = "sym"
        elif len(r.m) >= 4 and len(r.m) % 2 == 0 and r.m[1:] == r.m[:0:-1]: shape = "late"
        else: shape = "irr"
        groups.setdefault((r.n, cl, shape), []).append(r)
    for (n, cl, shape), rs in groups.items():
        k = cl & 15; st = M.stagename(n)
        kind = {v: CLS[s] for s, v in M.M.items() if s in CLS}.get(k)
        lit, dif = bool(cl & M.M["LITTLE"]), bool(cl & M.M["DIFF"])
        pre = ("Differential " if dif and k != 1 else "") + ("Little " if lit else "")
        if k == 1: title = "%s %s" % (st, "differentials" if dif else "principles")
        elif kind: title = "%s%s %s methods" % (pre, kind, st)
        else: title = "%sPlain %s methods" % (pre, st)
        lines += ["", title, ""]
        ext = rng.random() < .7
        names = []
        for r in rs:
            nm = r.base
            full = nm
            # the entry gives the selected classes only
            if dif and k != 1: full += " Differential"
            if lit: full += " Little"
            if k in (2, 3, 10): full += " " + M.NAMES[k]
            names.append((r, full))
        body = []
        for r, full in names:
            if shape == "sym":
                h = len(r.m) // 2; body.append((block(rng, r.m[:h - 1], "-"), change_text(r.m[h - 1]), change_text(r.m[-1])))
            elif shape == "late":      # the first change is outside the symmetry, as in Grandsire
                h = len(r.m) // 2; a, b = change_text(r.m[0]), block(rng, r.m[1:h], "-")
                body.append((a + ("" if a == "-" or b[:1] == "-" else ".") + b, change_text(r.m[h]), ""))
            else: body.append((block(rng, r.m, "-"), "", ""))
        wn = max(len(x[1]) for x in names) + rng.randint(2, 6); wp = max([8] + [len(x[0]) for x in body]) + rng.randint(1, 4)
        wn = max(wn, 6)
        head = " No. Name".ljust(5 + wn) + "Notation".ljust(wp)
        wh = max(len(x[1]) for x in body) + 2; wl = max(len(x[2]) for x in body) + 2
        wh, wl = max(wh, 4), max(wl, 4)
        if shape == "late": head += "hl".ljust(wh)
        if shape == "sym": head += "hl".ljust(wh) + "le".ljust(wl)
        head += "lh  "
        if ext:
            head += "Tower bells".ljust(12) + "Place".ljust(24) + "Handbells".ljust(12) + "RW ref".ljust(14) + "CCC".ljust(8) + "End"
        lines.append(head)
        for i, ((r, full), (p, hl, le)) in enumerate(zip(names, body)):
            no = rng.randint(1, 999)
            f = {"ref": str(no)}
            wrap = rng.random() < .1
            l = "%4d " % no + full.ljust(wn)
            if wrap:
                lines.append("%4d %s" % (no, full + "X" * max(0, wn - 1 - len(full))))
                full = full + "X" * max(0, wn - 1 - len(full)); l = "%4d " % no + " " * wn
            l += p.ljust(wp)
            if shape == "late": l += hl.ljust(wh)
            if shape == "sym": l += hl.ljust(wh) + le.ljust(wl)
            l += rng.choice(["a", "b", "c1", "z", "f"]).ljust(4)
            base = r.base
            if wrap: base = full; 
            if ext:
                if rng.random() < .8:
                    d = date(rng); pl = rng.choice(PLACES + [""]); l += ("%d.%d.%d" % d).ljust(12) + pl.ljust(24)
                    f["tower"] = "%d-%d-%d@%s" % (d[2], d[1], d[0], pl)
                else: l += " " * 36
                if rng.random() < .6:
                    d = date(rng); l += ("%d.%d.%d" % d).ljust(12); f["hand"] = "%d-%d-%d@" % (d[2], d[1], d[0])
                else: l += " " * 12
                if rng.random() < .6:
                    w = "%d/%d" % (rng.randint(1900, 2005), rng.randint(1, 999)); l += w.ljust(14); f["rw"] = w
                else: l += " " * 14
                if rng.random() < .6:
                    w = str(rng.randint(1, 9999)); l += (rng.choice(["", " "]) + w).ljust(8); f["ccc"] = w
                if rng.random() < .7: l = l.rstrip()
                if len(l) <= len(head.split("lh")[0]) : l = l.ljust(len(head.split("lh")[0]) + 1)
            lines.append(l)
            e = Rec(r.m, base, f); e.shape = shape
            if wrap: e.full = None; e.wrapped = True
            exp.append(e)
    return "\n".join(lines) + rng.choice(["\n", "\n", ""]), exp

def xe(s): return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
def el(tag, s): return "<%s>%s</%s>" % (tag, xe(s), tag)
def xml(rng, recs, form=None):
    """Returns (text, expected); form: old, cc"""
    form = form or rng.choice(["old", "cc"])
    exp = []
    def perf(tag, hand):
        d = date(rng); loc = []; s = el("date", "%04d-%02d-%02d" % (d[2], d[1], d[0]))
        fields = ["room", "building", "town", "county", "region", "country"] if form == "cc" else ["dedication", "place", "county", "country"]
        if rng.random() < .7:
            for f in fields:
                if rng.random() < .5: loc.append((f, rng.choice(PLACES)))
            s += "<location>" + "".join(el(*x) for x in loc) + "</location>"
        return "<%s>%s</%s>" % (tag, s, tag), "%d-%d-%d@%s" % (d[2], d[1], d[0], ", ".join(x[1] for x in loc))
    def one(r, stage):
        p = []; f = {}
        title = r.full or r.base
        p.append(el("name", r.base)); p.append(el("title", title))
        if stage: p.append(el("stage", str(r.n)))
        sym = palin(r.m) and rng.random() < .8
        h = len(r.m) // 2
        if form == "old":
            if sym: p.append("<pn>" + el("symblock", block(rng, r.m[:h])) + el("symblock", block(rng, r.m[-1:])) + "</pn>")
            else: p.append("<pn>" + el("block", block(rng, r.m)) + "</pn>")
            tags = [("first-tower", "tower"), ("first-hand", "hand")]
        else:
            if sym:
                p.append(el("symmetry", rng.choice(["palindromic", "palindromic double", "palindromic rotational"])))
                p.append(el("notation", block(rng, r.m[:h]) + "," + block(rng, r.m[-1:])))
            else:
                if rng.random() < .3: p.append(el("symmetry", "rotational"))
                p.append(el("notation", block(rng, r.m)))
            tags = [("firstTowerbellPeal", "tower"), ("firstHandbellPeal", "hand")]
        for t, k in tags:
            if rng.random() < .4: x, f[k] = perf(t, k == "hand"); p.append(x)
        if rng.random() < .2: p.append("<!-- <name>not this</name> -->")
        if rng.random() < .2: p.append(el("other", "text"))
        rng.shuffle(p)
        e = Rec(r.m, r.base, f); e.title = title; exp.append(e)
        return "<method>" + rng.choice(["", "\n  "]).join(p) + "</method>"
    out = "<?xml version='1.0'?>\n" if rng.random() < .8 else ""
    if form == "old":
        out += "<methods%s>" % rng.choice(["", " xmlns='http://methods.ringing.org/NS/method'"])
        for r in recs: out += one(r, True) + rng.choice(["", "\n"])
        return out + "</methods>", exp
    out += "<collection%s>" % rng.choice(["", " xmlns='http://methods.ringing.org/NS/method'"]) + el("collectionName", "c")
    i = 0
    while True:
        k = min(rng.randint(0, 3), len(recs) - i); part = recs[i:i + k]; i += k
        common = len({r.n for r in part}) == 1 and rng.random() < .8
        out += "<methodSet>" + ("<properties>" + el("stage", str(part[0].n)) + "</properties>" if common else "")
        for r in part: out += one(r, not common or rng.random() < .2)
        out += "</methodSet>\n"
        if i >= len(recs): break
    return out + "</collection>", exp
