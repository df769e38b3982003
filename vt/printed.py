"""What a printed method should show, and comparing that with what a document draws."""
import json, math, os
from . import ring as R, psdoc
from .libs import palin
W = json.load(open(os.path.join(os.path.dirname(__file__), "fontwidths.json")))
WIDTHS = {n: (lambda t: lambda ch: t[ord(ch) - 32] if 32 <= ord(ch) < 255 else 0)(t) for n, t in W.items()}
HALF = {"ps": psdoc.PSH / 2, "pdf": 0.3}

def rows_of(S):
    r = S["start"]; out = [r]; m = S["m"]
    for g in range(S["total"]): r = R.ap(r, m[g % len(m)]); out.append(r)
    return out
def needrule(rules, i): return any(((i + 1) % b == a % b) if b else i + 1 == a for a, b in rules)

def expected(S):
    """pages -> list of items"""
    m, n, T, rpc, cps, spp = S["m"], S["m"][0][0], S["total"], S["rpc"], S["cps"], S["spp"]; L = len(m)
    rows = rows_of(S); xs, ys = S["xs"], S["ys"]; pages = []; sym = palin(m); lines = S["lines"]; col, size, font = S["col"], S["size"] / 10, S["font"]
    ncols = -(-T // rpc)
    for k in range(ncols):
        st, c = divmod(k, cps); p, s = divmod(st, spp) if spp else (0, st)
        while len(pages) <= p: pages.append([])
        out = pages[p].append
        X = S["x0"] + c * (xs * n + S["hgap"]); Y = S["y0"] - s * (ys * (rpc + 1) + S["vgap"])
        g0, g1 = k * rpc, min((k + 1) * rpc, T); cnt = g1 - g0 + 1
        for q in range(cnt):
            g = g0 + q; r = rows[g]; y = Y - q * ys
            if S["numbers"]:
                full = {0: True, 1: False, 2: q == 0 or q == rpc, 3: g % L == 0}[S["mode"]]
                for j, b in enumerate(r):
                    if full or b not in lines or lines[b][2]: out(("t", R.ch(b), X + j * xs, "c", y, size, font, col, "row %d" % g))
            if (q == 0 or (q < rpc and g < T)) and needrule(S["rules"], g % L): out(("r", X - xs / 2, X - xs / 2 + n * xs, y - ys / 2, "rule-off under row %d" % g))
            if g % L == 0 and g < T and q < rpc:
                if S["pb"] >= 0:
                    j = r.index(S["pb"]) if S["pb"] in r else None
                    if j is not None:
                        out(("t", str(j + 1), X + (n + .5) * xs, "c", y, size, font, col, "place bell at row %d" % g)); out(("c", X + (n + .5) * xs, y, (size * .6, size * .76), "S", None, "place bell at row %d" % g))
                if not S["numbers"]:
                    for b in lines:
                        if not lines[b][2]: out(("c", X + r.index(b) * xs, y, (lines[b][0] * 2 - .011, lines[b][0] * 2 + .011), "f", lines[b][1], "dot at row %d" % g))
            if q:
                i = (g - 1) % L + 1; lead = (g - 1) // L; ch = m[i - 1]
                pm = S["pn"] & 15
                if pm and (pm == 2 or (lead == 0 and (not sym or i <= (L + 1) // 2 or i == L))) and not (S["pn"] & 16 and not R.places(ch)):
                    out(("t", R.cs(ch), X - xs, "r", y + ys / 2, size, font, col, "place notation of change %d" % g))
                if i == L - 1 and lead < len(S["calls"]) and S["calls"][lead] != " ": out(("t", "-" + S["calls"][lead], X + (n - .5) * xs, "l", y + ys, size, font, col, "call of lead %d" % lead))
                pr = rows[g - 1]
                for b in lines:
                    a, e = pr.index(b), r.index(b)
                    if not lines[b][2] or (a != e and r[a] in lines): out(("l", X + a * xs, y + ys, X + e * xs, y, lines[b][0], lines[b][1], "line of bell %d at row %d" % (b + 1, g)))
        if S["grid"]:
            t, gc, gw = S["grid"]
            if t == 1:
                for j in range(n): out(("l*", X + j * xs, Y + ys / 2, X + j * xs, Y - (cnt - .5) * ys, gw, gc, "guide"))
            else:
                for j in range(0, n - 1, 2): out(("b", X + j * xs, Y - (cnt - .5) * ys, X + (j + 1) * xs, Y + ys / 2, gc, "guide"))
    for t in S.get("texts", ()): pages[t[-1]].append(("t",) + t[:8])
    return pages

def closec(a, b, e=.006): return a is None or (len(a) == len(b) and all(abs(x - y) <= e for x, y in zip(a, b)))

def back(S, pts): return pts
def compare(S, doc, kind, tol, unrotate=None, ignore=()):
    """complaint, or None. kind "ps" or "pdf"."""
    if doc.errors: return "the document is not well-formed: " + "; ".join(doc.errors[:3])
    want = expected(S)
    if len(doc.pages) != len(want): return "%d pages, should be %d" % (len(doc.pages), len(want))
    T = unrotate or (lambda x, y: (x, y)); half = HALF[kind]; S["seen"] = 0
    for pn, (exp, act) in enumerate(zip(want, doc.pages)):
        where = "page %d: " % (pn + 1)
        texts = []; segs = []; boxes = []; circs = []
        for a in act:
            if a[0] == "text":
                x, y = T(a[2], a[3]); x2, y2 = T(a[2] + a[4][0], a[3] + a[4][1])
                if a[1].strip() == "" and not any(e[0] == "t" and e[1] == a[1] for e in exp): continue
                if len(a) > 8 and abs(a[8]) > .001: return where + "text %r is shown with its characters %s points apart" % (a[1], a[8])
                if abs(y2 - y) > .01: return where + "text %r is not horizontal" % a[1]
                if kind == "pdf" or len(a[1]) == 1: pass
                texts.append((a[1], x, x2, y, a[5], a[6], a[7]))
            elif a[0] == "line":
                pts = [T(*q) for q in a[1]]
                for q in range(len(pts) - 1): segs.append((pts[q], pts[q + 1], a[2], a[3]))
            elif a[0] == "circ": circs.append(T(a[1], a[2]) + a[3:])
            else:
                p, q = T(a[1], a[2]), T(a[3], a[4]); boxes.append((min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1]), a[5]))
        # a row shown as one string of figures is the same as its figures one by one: both come as single characters
        near = {}
        for k, t in enumerate(texts): near.setdefault(t[0], {}).setdefault((round(t[1] / 8), round(t[3] / 8)), []).append(k)
        used = set()
        def find(e):
            _, s, x, al, y, size, font, col, what = e
            best = None
            cand = near.get(s, {})
            w = None
            for k in [k for cell in ([cand] if len(texts) < 60 else [cand]) for v in cells(cell, x, y, s, size, al) for k in v]:
                if k in used: continue
                t = texts[k]; ax = {"c": (t[1] + t[2]) / 2, "l": t[1], "r": t[2]}[al]; ay = t[3] + (half * size if what[:4] != "text" else 0)
                if abs(ax - x) <= tol and abs(ay - y) <= tol:
                    d = abs(ax - x) + abs(ay - y)
                    if best is None or d < best[0]: best = (d, k)
            return best
        def cells(c, x, y, s, size, al):
            w = len(s) * size; lo, hi = round((x - w - tol - 8) / 8), round((x + tol + 8) / 8); yl, yh = round((y - size - tol - 8) / 8), round((y + size + tol + 8) / 8)
            if (hi - lo) * (yh - yl) > len(c): return list(c.values())
            return [c[i, j] for i in range(lo, hi + 1) for j in range(yl, yh + 1) if (i, j) in c]
        for e in exp:
            if e[0] != "t": continue
            b = find(e); S["seen"] += 1
            if not b: return where + "%r (%s) is not shown at %.2f,%.2f" % (e[1], e[8], e[2], e[4])
            t = texts[b[1]]; used.add(b[1])
            if abs(t[4] - e[5]) > .006: return where + "%r (%s) is shown in size %s, should be %s" % (e[1], e[8], t[4], e[5])
            if t[5] != e[6]: return where + "%r (%s) is shown in font %s, should be %s" % (e[1], e[8], t[5], e[6])
            if not closec(e[7], t[6]): return where + "%r (%s) is shown in colour %s, should be %s" % (e[1], e[8], t[6], e[7])
        left = [t for k, t in enumerate(texts) if k not in used and t[0].strip()]
        if left: return where + "%r is shown at %.2f,%.2f and should not be" % left[0][:2] + tuple([left[0][3]]) if False else where + "%r is shown at %.2f,%.2f and should not be" % (left[0][0], left[0][1], left[0][3])
        # lines: unit steps
        ys = S["ys"]; unit = []
        exp_l = [e for e in exp if e[0] == "l"]; exp_g = [e for e in exp if e[0] == "l*"]; exp_r = [e for e in exp if e[0] == "r"]
        rest = []
        for a, b, w, c in segs:
            if abs(a[1] - b[1]) < .02: 
                if abs(a[0] - b[0]) > .02: rest.append(("h", min(a[0], b[0]), max(a[0], b[0]), a[1]))
                continue
            if a[1] < b[1]: a, b = b, a
            hit = None
            for k, e in enumerate(exp_g):
                if all(abs(u - v) <= tol for u, v in zip(e[1:5], a + b)) and abs(e[5] - w) <= .006 and closec(e[6], c): hit = k; break
            if hit is not None: exp_g.pop(hit); continue
            k = (a[1] - b[1]) / ys
            if abs(k - round(k)) * ys > tol + .02 or round(k) < 1: return where + "a line goes from %.2f,%.2f to %.2f,%.2f, not whole rows" % (a + b)
            k = round(k)
            for q in range(k): unit.append((a[0] + (b[0] - a[0]) * q / k, a[1] + (b[1] - a[1]) * q / k, a[0] + (b[0] - a[0]) * (q + 1) / k, a[1] + (b[1] - a[1]) * (q + 1) / k, w, c))
        if exp_g: return where + "no guide from %.2f,%.2f to %.2f,%.2f" % exp_g[0][1:5]
        for e in exp_r:
            k = [i for i, r in enumerate(rest) if abs(r[1] - e[1]) <= tol and abs(r[2] - e[2]) <= tol and abs(r[3] - e[3]) <= tol]; S["seen"] += 1
            if not k: return where + "no %s at %.2f" % (e[4], e[3])
            rest.pop(k[0])
        if rest: return where + "a horizontal line from %.2f to %.2f at %.2f that should not be" % rest[0][1:]
        h = {}
        for k, u in enumerate(unit): h.setdefault((round(u[0] / 8), round(u[1] / 8)), []).append(k)
        used = set(); 
        for e in exp_l:
            S["seen"] += 1; hit = None; z = int(tol // 8) + 1
            for i in range(-z, z + 1):
                for j in range(-z, z + 1):
                    for k in h.get((round(e[1] / 8) + i, round(e[2] / 8) + j), ()):
                        if k not in used and all(abs(p - q) <= tol for p, q in zip(e[1:5], unit[k][:4])) and abs(unit[k][4] - e[5]) <= .006 and closec(e[6], unit[k][5]): hit = k
            if hit is None: return where + "the %s, from %.2f,%.2f to %.2f,%.2f of width %s and colour %s, is not drawn" % ((e[7],) + e[1:7])
            used.add(hit)
        left = [u for k, u in enumerate(unit) if k not in used]
        if left: return where + "a line is drawn from %.2f,%.2f to %.2f,%.2f of width %s and colour %s that should not be" % left[0]
        for e in exp:
            if e[0] == "c":
                k = [i for i, c in enumerate(circs) if abs(c[0] - e[1]) <= tol and abs(c[1] - e[2]) <= tol and e[3][0] <= c[2] <= e[3][1] and c[3] == e[4] and closec(e[5], c[5])]; S["seen"] += 1
                if not k: return where + "no %s at %.2f,%.2f" % (e[6], e[1], e[2])
                circs.pop(k[0])
            elif e[0] == "b":
                k = [i for i, c in enumerate(boxes) if all(abs(p - q) <= tol for p, q in zip(c, e[1:5])) and closec(e[5], c[4])]; S["seen"] += 1
                if not k: return where + "no guide from %.2f,%.2f to %.2f,%.2f" % e[1:5]
                boxes.pop(k[0])
        if circs: return where + "a circle at %.2f,%.2f that should not be" % circs[0][:2]
        if boxes: return where + "a box at %.2f,%.2f that should not be" % boxes[0][:2]
def extent_of(doc, T=None):
    """box of everything but text drawn on each page, with the anchors of single figures"""
    T = T or (lambda x, y: (x, y)); out = []
    for p in doc.pages:
        pts = []
        for a in p:
            if a[0] == "text":
                if len(a[1]) == 1 and a[1] != " ": pts.append(T(a[2] + a[4][0] / 2, a[3] + a[4][1] / 2))
            elif a[0] == "line": pts += [T(*q) for q in a[1]]
            elif a[0] == "circ": pts += [T(a[1] - a[3], a[2] - a[3]), T(a[1] + a[3], a[2] + a[3])]
            else: pts += [T(a[1], a[2]), T(a[3], a[4])]
        out.append((min(q[0] for q in pts), min(q[1] for q in pts), max(q[0] for q in pts), max(q[1] for q in pts)) if pts else None)
    return out
