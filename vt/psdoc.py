"""A PostScript interpreter and a PDF reader, just large enough to see what a printed method draws.

Both give a Doc: errors (what is not well-formed), info, and pages; a page is a list of
  ("text", string, x, y, width, size, font, colour)      start of the base line
  ("line", [points], width, colour)                       one per open subpath stroked
  ("circ", x, y, r, "f" or "S", width, colour)
  ("box", x0, y0, x1, y1, colour)
in default user space.
"""
import re

class Doc:
    def __init__(self): self.errors = []; self.pages = []; self.info = {}
class Name(str): pass
class Proc(list): pass
class Mark: pass
class PSErr(Exception): pass

PSW = 0.5      # every character of every stand-in font is this wide
PSH = 0.7      # and an X this high

def ps_tokens(t):
    i, n = 0, len(t); out = []
    while i < n:
        c = t[i]
        if c in " \t\r\n\f\0": i += 1
        elif c == "%":
            while i < n and t[i] not in "\r\n": i += 1
        elif c == "(":
            i, s = lit_string(t, i); out.append(("s", s))
        elif c in "{}[]": out.append(("p", c)); i += 1
        else:
            j = i + 1
            while j < n and t[j] not in " \t\r\n\f\0()<>[]{}/%": j += 1
            out.append(("w", t[i:j])); i = j
    return out

def lit_string(t, i):
    """the literal string starting at t[i] == '(' in PostScript or PDF syntax; returns (after, value)"""
    i += 1; depth = 1; s = []
    while True:
        if i >= len(t): raise PSErr("string without an end")
        c = t[i]
        if c == "\\":
            d = t[i + 1]
            if d in "nrtbf": s.append("\n\r\t\b\f"["nrtbf".index(d)]); i += 2
            elif d in "01234567":
                j = i + 1
                while j < i + 4 and t[j] in "01234567": j += 1
                s.append(chr(int(t[i + 1:j], 8) & 255)); i = j
            elif d == "\n": i += 2
            else: s.append(d); i += 2
        elif c == "(": depth += 1; s.append(c); i += 1
        elif c == ")":
            depth -= 1; i += 1
            if not depth: return i, "".join(s)
            s.append(c)
        else: s.append(c); i += 1

def mul(a, b):
    return (a[0]*b[0]+a[1]*b[2], a[0]*b[1]+a[1]*b[3], a[2]*b[0]+a[3]*b[2], a[2]*b[1]+a[3]*b[3], a[4]*b[0]+a[5]*b[2]+b[4], a[4]*b[1]+a[5]*b[3]+b[5])
def ap(m, x, y): return (x*m[0]+y*m[2]+m[4], x*m[1]+y*m[3]+m[5])

class G:
    def __init__(s): s.ctm = (1,0,0,1,0,0); s.cp = None; s.path = []; s.font = None; s.size = 0; s.w = 1; s.col = (0.0,)
    def copy(s):
        g = G(); g.__dict__.update(s.__dict__); g.path = [list(p) for p in s.path]; return g

class PS:
    def __init__(self, text):
        self.g = G(); self.gs = []; self.stack = []; self.dicts = [{}]; self.fonts = {}; self.page = []; self.pages = []; self.steps = 0; self.fontsused = set()
        toks = ps_tokens(text); self.prog, i = self.parse(toks, 0)
        if i != len(toks): raise PSErr("unbalanced braces")
    def parse(self, toks, i):
        out = Proc()
        while i < len(toks):
            k, v = toks[i]
            if k == "s": out.append(v)
            elif v == "{":
                p, i = self.parse(toks, i + 1)
                if i >= len(toks): raise PSErr("procedure without an end")
                out.append(p)
            elif v == "}": return out, i
            elif k == "p": raise PSErr("array " + v)
            elif v.startswith("/"): out.append(("/", v[1:]))
            else:
                try: out.append(int(v))
                except ValueError:
                    try: out.append(float(v))
                    except ValueError: out.append(Name(v))
            i += 1
        return out, i
    def run(self): self.execp(self.prog)
    def execp(self, p):
        for x in p: self.exec1(x)
    def exec1(self, x):
        self.steps += 1
        if self.steps > 3000000: raise PSErr("too long")
        if isinstance(x, Name): self.op(x)
        else: self.stack.append(x)
    def call(self, v):
        if isinstance(v, Proc): self.execp(v)
        elif isinstance(v, Name): self.op(v)
        else: self.stack.append(v)
    def pop(self, n=None):
        if n is None:
            if not self.stack: raise PSErr("stack underflow")
            return self.stack.pop()
        if len(self.stack) < n: raise PSErr("stack underflow")
        r = self.stack[len(self.stack) - n:]; del self.stack[len(self.stack) - n:]; return r
    def num(self, n):
        r = self.pop(n)
        for x in r:
            if isinstance(x, bool) or not isinstance(x, (int, float)): raise PSErr("typecheck: %r" % (x,))
        return r
    def op(self, n):
        for d in reversed(self.dicts):
            if n in d:
                v = d[n]
                if isinstance(v, Proc): self.execp(v)
                else: self.stack.append(v)
                return
        f = getattr(self, "o_" + n, None)
        if not f: raise PSErr("undefined: %r" % str(n)[:30])
        f()
    def o_bind(self): pass
    def o_def(self):
        k, v = self.pop(2)
        if not isinstance(k, tuple): raise PSErr("def of %r" % (k,))
        self.dicts[-1][k[1]] = v
    def o_dup(self): self.stack.append(self.stack[-1]) if self.stack else self.pop()
    def o_exch(self): a, b = self.pop(2); self.stack += [b, a]
    def o_pop(self): self.pop()
    def o_copy(self): n = self.pop(); v = self.pop(n); self.stack += v + v
    def o_index(self):
        n = self.pop()
        if n >= len(self.stack): raise PSErr("stack underflow")
        self.stack.append(self.stack[-1 - n])
    def o_roll(self):
        n, j = self.num(2); v = self.pop(n); j %= n; self.stack += v[n - j:] + v[:n - j]
    def bin(f):
        def g(self): a, b = self.num(2); self.stack.append(f(a, b))
        return g
    o_add = bin(lambda a, b: a + b); o_sub = bin(lambda a, b: a - b); o_mul = bin(lambda a, b: a * b)
    o_div = bin(lambda a, b: a / b); o_idiv = bin(lambda a, b: int(a / b)); o_ge = bin(lambda a, b: a >= b); o_le = bin(lambda a, b: a <= b)
    def o_neg(self): self.stack.append(-self.num(1)[0])
    def o_and(self): a, b = self.pop(2); self.stack.append(a and b if isinstance(a, bool) else a & b)
    def o_eq(self):
        a, b = self.pop(2); na = a[1] if isinstance(a, tuple) else a; nb = b[1] if isinstance(b, tuple) else b; self.stack.append(na == nb)
    def o_true(self): self.stack.append(True)
    def o_string(self): self.stack.append([" "] * self.pop())
    def o_dict(self): self.pop(); self.stack.append({})
    def o_type(self):
        v = self.pop(); self.stack.append(("/", "stringtype" if isinstance(v, (str, list)) and not isinstance(v, Proc) else "arraytype" if isinstance(v, Proc) else "integertype"))
    def o_get(self):
        c, i = self.pop(2)
        if isinstance(c, dict):
            if i not in c: raise PSErr("undefined key %r" % (i,))
            self.stack.append(c[i])
        else: self.stack.append(ord(c[i]))
    def o_put(self):
        c, k, v = self.pop(3)
        if isinstance(c, dict): c[k] = v
        else: c[k] = chr(v)
    def o_exec(self): self.call(self.pop())
    def o_forall(self):
        c, p = self.pop(2)
        for ch in list(c): self.stack.append(ord(ch)); self.execp(p)
    def o_for(self):
        a, i, b, p = self.pop(4)
        while a <= b: self.stack.append(a); self.execp(p); a += i
    def o_repeat(self):
        n, p = self.pop(2)
        for _ in range(n): self.execp(p)
    def o_ifelse(self): c, a, b = self.pop(3); self.execp(a if c else b)
    # graphics
    def o_gsave(self): self.gs.append(("g", self.g.copy()))
    def o_grestore(self):
        if not self.gs or self.gs[-1][0] != "g": raise PSErr("grestore without gsave")
        self.g = self.gs.pop()[1]
    def o_save(self):
        if any(k == "s" for k, _ in self.gs): raise PSErr("save within a page")
        self.gs.append(("s", self.g.copy())); self.saved = dict(self.dicts[0]); self.stack.append(("save",))
    def o_restore(self):
        v = self.pop()
        if v != ("save",): raise PSErr("restore of %r" % (v,))
        if not self.gs or self.gs[-1][0] != "s": raise PSErr("restore inside gsave")
        self.g = self.gs.pop()[1]; self.dicts[0] = self.saved
    def o_showpage(self):
        if self.stack: raise PSErr("operands left at the end of a page: %r" % self.stack[:4])
        self.pages.append(self.page); self.page = []; self.g = G()
    def o_moveto(self): x, y = self.num(2); self.g.cp = (x, y); self.g.path.append([ap(self.g.ctm, x, y)])
    def need(self):
        if self.g.cp is None: raise PSErr("nocurrentpoint")
    def o_rmoveto(self): self.need(); x, y = self.num(2); self.stack += [self.g.cp[0] + x, self.g.cp[1] + y]; self.o_moveto()
    def o_lineto(self): self.need(); x, y = self.num(2); self.g.cp = (x, y); self.g.path[-1].append(ap(self.g.ctm, x, y))
    def o_rlineto(self): self.need(); x, y = self.num(2); self.stack += [self.g.cp[0] + x, self.g.cp[1] + y]; self.o_lineto()
    def o_currentpoint(self): self.need(); self.stack += list(self.g.cp)
    def o_newpath(self): self.g.path = []; self.g.cp = None
    def o_closepath(self): pass
    def o_arc(self):
        x, y, r, a, b = self.num(5)
        if (a, b) != (0, 360): raise PSErr("arc")
        self.g.path.append(("arc",) + ap(self.g.ctm, x, y) + (r,)); self.g.cp = (x + r, y)
    def o_stroke(self):
        for p in self.g.path:
            if p and p[0] == "arc": self.page.append(("circ", p[1], p[2], p[3], "S", self.g.w, self.g.col))
            elif len(p) > 1: self.page.append(("line", p, self.g.w, self.g.col))
        self.o_newpath()
    def o_fill(self):
        for p in self.g.path:
            if p and p[0] == "arc": self.page.append(("circ", p[1], p[2], p[3], "f", self.g.w, self.g.col))
        self.o_newpath()
    def o_rectfill(self):
        x, y, w, h = self.num(4); a, b = ap(self.g.ctm, x, y), ap(self.g.ctm, x + w, y + h)
        self.page.append(("box", min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1]), self.g.col))
    def o_setlinewidth(self): self.g.w = self.num(1)[0]
    def o_setgray(self): self.g.col = tuple(float(x) for x in self.num(1))
    def o_setrgbcolor(self): self.g.col = tuple(float(x) for x in self.num(3))
    def o_translate(self): x, y = self.num(2); self.g.ctm = mul((1,0,0,1,x,y), self.g.ctm); self.g.cp = (self.g.cp[0]-x, self.g.cp[1]-y) if self.g.cp else None
    def o_scale(self): x, y = self.num(2); self.g.ctm = mul((x,0,0,y,0,0), self.g.ctm); self.g.cp = (self.g.cp[0]/x, self.g.cp[1]/y) if self.g.cp else None
    def o_rotate(self):
        if self.num(1)[0] != 90: raise PSErr("rotate")
        self.g.ctm = mul((0,1,-1,0,0,0), self.g.ctm)
    def o_findfont(self):
        v = self.pop()
        if not isinstance(v, tuple): raise PSErr("findfont")
        self.stack.append(["font", v[1], 1])
    def o_scalefont(self): f, s = self.pop(2); self.stack.append(["font", f[1], s])
    def o_setfont(self): f = self.pop(); self.g.font, self.g.size = f[1], f[2]; self.fontsused.add(f[1])
    def o_stringwidth(self): s = self.pop(); self.stack += [len(s) * PSW * self.g.size, 0]
    def o_show(self):
        self.need(); s = "".join(self.pop()); w = len(s) * PSW * self.g.size
        x, y = ap(self.g.ctm, *self.g.cp); x2, y2 = ap(self.g.ctm, self.g.cp[0] + w, self.g.cp[1])
        self.page.append(("text", s, x, y, (x2 - x, y2 - y), self.g.size, self.g.font, self.g.col)); self.g.cp = (self.g.cp[0] + w, self.g.cp[1])
    def o_charpath(self): self.need(); self.pop(); self.pop(); self.g.path = [[self.g.cp, (self.g.cp[0] + PSW * self.g.size, self.g.cp[1] + PSH * self.g.size)]]
    def o_pathbbox(self): p = self.g.path[-1]; self.stack += [p[0][0], p[0][1], p[1][0], p[1][1]]

def read_ps(t):
    d = Doc(); L = t.split("\n"); E = d.errors.append
    if not L[0].startswith("%!PS-Adobe-3.0"): E("does not start as a structured PostScript document"); return d
    d.info["eps"] = "EPSF" in L[0]
    if t.rstrip("\n").split("\n")[-1] != "%%EOF": E("does not end in a line %%EOF")
    com = {}
    for l in L:
        m = re.match(r"%%(\w+)(?:: ?(.*))?$", l)
        if m: com.setdefault(m.group(1), []).append(m.group(2))
    pages = [p for p in com.get("Pages", []) if p != "(atend)"]
    pg = com.get("Page", [])
    if d.info["eps"]:
        if pg: E("an EPS file with pages")
    else:
        if len(pages) != 1 or pages[0] != str(len(pg)): E("declares %s pages, has %d" % (pages, len(pg)))
        for k, p in enumerate(pg):
            if len((p or "").split()) != 2 or (p or "").split()[1] != str(k + 1): E("page %d is declared as %r" % (k + 1, p))
    d.info["orientation"] = (com.get("Orientation") or [None])[0]
    bb = [b for b in com.get("BoundingBox", [])]
    d.info["bbox"] = [float(x) for x in bb[0].split()] if bb else None
    if d.info["eps"] and not bb: E("an EPS file without a bounding box")
    ps = PS.__new__(PS)
    try:
        ps.__init__(t); ps.run()
    except PSErr as e:
        E("PostScript error: %s" % e); return d
    except (TypeError, IndexError, KeyError, ValueError, ZeroDivisionError, RecursionError) as e:
        E("PostScript error: %s %s" % (type(e).__name__, e)); return d
    if ps.stack: E("operands left at the end: %r" % ps.stack[:4])
    if ps.gs: E("a gsave or save without its restore")
    nf = [x for x in com.get("DocumentNeededResources", []) if x != "(atend)"]
    names = (nf[0] or "").split() if len(nf) == 1 else None
    if names is None: E("does not list the resources it needs")
    elif ps.fontsused and (names[:1] != ["font"] or sorted(names[1:]) != sorted(ps.fontsused)): E("needs fonts %s, says it needs %r" % (sorted(ps.fontsused), nf[0]))
    d.pages = ps.pages + ([ps.page] if d.info["eps"] else [])
    if not d.info["eps"] and ps.page: E("draws after the last page")
    return d

# ---------------------------------------------------------------- PDF
def pdf_parse(t, i=0):
    """one PDF object from t[i:]: dict, list, name '/x', string ('s', x), number, ref ('R', n)"""
    m = re.compile(r"\s*").match(t, i); i = m.end()
    if t.startswith("<<", i):
        i += 2; d = {}
        while True:
            i = re.compile(r"\s*").match(t, i).end()
            if t.startswith(">>", i): return d, i + 2
            m = re.compile(r"/([A-Za-z0-9]+)").match(t, i)
            if not m: raise PSErr("PDF dictionary: %r" % t[i:i + 20])
            d[m.group(1)], i = pdf_parse(t, m.end())
    if t.startswith("[", i):
        i += 1; l = []
        while True:
            i = re.compile(r"\s*").match(t, i).end()
            if t.startswith("]", i): return l, i + 1
            v, i = pdf_parse(t, i); l.append(v)
    if t.startswith("(", i): i, s = lit_string(t, i); return ("s", s), i
    m = re.compile(r"(\d+) (\d+) R\b").match(t, i)
    if m: return ("R", int(m.group(1))), m.end()
    m = re.compile(r"/([^\s/<>\[\]()]+)").match(t, i)
    if m: return "/" + m.group(1), m.end()
    m = re.compile(r"[-+]?\d*\.?\d+|[-+]?\d+\.").match(t, i)
    if m: return float(m.group(0)) if "." in m.group(0) else int(m.group(0)), m.end()
    raise PSErr("PDF object: %r" % t[i:i + 20])

def content_tokens(t):
    i = 0
    while True:
        i = re.compile(r"\s*").match(t, i).end()
        if i >= len(t): return
        m = re.compile(r"[A-Za-z*']+").match(t, i)
        if m: yield ("op", m.group(0)); i = m.end()
        else:
            v, i = pdf_parse(t, i); yield ("v", v)

def read_pdf(t, widths):
    """t as latin-1 text; widths: font name -> function of a character"""
    d = Doc(); E = d.errors.append
    try: _read_pdf(t, widths, d)
    except PSErr as e: E(str(e))
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e: E("PDF structure: %s %s" % (type(e).__name__, e))
    return d

def _read_pdf(t, widths, d):
    E = d.errors.append
    if not t.startswith("%PDF-1."): E("does not start as a PDF file")
    m = re.search(r"startxref\n(\d+)\n%%EOF\n$", t)
    if not m: raise PSErr("does not end with startxref and %%EOF")
    x = int(m.group(1))
    if not t.startswith("xref\n", x): raise PSErr("startxref does not point at the cross-reference table")
    m = re.compile(r"xref\n0 (\d+)\n").match(t, x); n = int(m.group(1)); p = m.end(); off = {}
    for k in range(n):
        e = t[p:p + 20]; p += 20
        if not re.fullmatch(r"\d{10} \d{5} [fn] \n", e): raise PSErr("cross-reference entry %d is %r" % (k, e))
        if (k == 0) != (e[17] == "f"): E("cross-reference entry %d is %r" % (k, e))
        if e[17] == "n": off[k] = int(e[:10])
    if not t.startswith("trailer", p): raise PSErr("the cross-reference table has not the size declared")
    tr, _ = pdf_parse(t, p + 7)
    if tr["Size"] != n: E("the trailer declares %s objects, the table has %d" % (tr["Size"], n))
    obj = {}; stream = {}
    heads = [(int(a.group(1)), a.start()) for a in re.finditer(r"^(\d+) 0 obj$", t[:x], re.M)]
    if sorted(k for k, _ in heads) != list(range(1, n)): E("objects are %s, the table lists 1 to %d" % (sorted(k for k, _ in heads), n - 1))
    for k, o in off.items():
        h = "%d 0 obj\n" % k
        if not t.startswith(h, o): raise PSErr("the table places object %d at %d, where there is %r" % (k, o, t[o:o + 12]))
        obj[k], e = pdf_parse(t, o + len(h))
        m = re.compile(r"\s*stream\r?\n").match(t, e)
        if m: stream[k] = m.end()
        elif not re.compile(r"\s*endobj\b").match(t, e): E("object %d has no end" % k)
    def get(v):
        while isinstance(v, tuple) and v[0] == "R":
            if v[1] not in obj: raise PSErr("reference to a missing object %d" % v[1])
            v = obj[v[1]]
        return v
    for k, o in stream.items():
        ln = get(obj[k]["Length"])
        if not isinstance(ln, int) or not re.compile(r"\r?\n?endstream\s+endobj\b").match(t, o + ln): E("stream %d is not %s bytes long" % (k, ln))
    if get(tr["Root"]).get("Type") != "/Catalog": E("the root is no catalogue")
    if "Info" in tr and "Creator" not in get(tr["Info"]): E("no creator")
    pt = get(get(tr["Root"])["Pages"])
    if pt.get("Type") != "/Pages": E("no page tree")
    kids = pt["Kids"]
    if pt["Count"] != len(kids): E("declares %s pages, has %d" % (pt["Count"], len(kids)))
    d.info["box"] = pt["MediaBox"]; d.info["rotate"] = pt.get("Rotate", 0)
    fonts = {}
    for nm, f in pt["Resources"]["Font"].items():
        f = get(f)
        if f.get("Type") != "/Font" or f.get("Subtype") != "/Type1" or f.get("Name") != "/" + nm: E("font %s is %s" % (nm, f))
        fonts[nm] = f["BaseFont"][1:]
    if len(set(kids)) != len(kids): E("the same page twice")
    for kd in kids:
        pg = get(kd)
        if pg.get("Type") != "/Page" or pg.get("Parent") != get(tr["Root"])["Pages"]: E("page %s is %s" % (kd, pg))
        c = pg["Contents"][1]
        o = stream[c]; ln = get(obj[c]["Length"]); d.pages.append(pdf_page(t[o:o + ln], fonts, widths))
    n_pages = sum(1 for v in obj.values() if isinstance(v, dict) and v.get("Type") == "/Page")
    if n_pages != len(kids): E("%d page objects, %d pages in the tree" % (n_pages, len(kids)))

def pdf_page(s, fonts, widths):
    out = []; st = []; gs = []
    g = dict(ctm=(1,0,0,1,0,0), w=1, s=(0.0,), f=(0.0,), Tc=0, Tz=100, TL=0, font=None, size=0)
    path = []; text = None
    def show(v):
        nonlocal text
        if text is None: raise PSErr("text shown outside BT and ET")
        if g["font"] not in fonts: raise PSErr("font %s is not among the resources" % g["font"])
        w = widths.get(fonts[g["font"]]); h = g["Tz"] / 100
        tm = text["m"]; ws = 0
        x, y = ap(g["ctm"], tm[4], tm[5])
        for k, ch in enumerate(v): ws += (w(ch) / 1000 * g["size"] + g["Tc"]) * h
        vis = ws - (g["Tc"] * h if v else 0)
        x2, y2 = ap(g["ctm"], tm[4] + vis, tm[5])
        if v: out.append(("text", v, x, y, (x2 - x, y2 - y), g["size"], fonts[g["font"]], g["f"], g["Tc"] if len(v) > 1 else 0))
        text["m"] = tm[:4] + (tm[4] + ws, tm[5])
    def args(n):
        if len(st) < n: raise PSErr("too few operands in a content stream")
        if len(st) > n: raise PSErr("too many operands in a content stream: %r" % st[:5])
        r = list(st); st.clear(); return r
    for k, v in content_tokens(s):
        if k == "v": st.append(v); continue
        if v == "q": args(0); gs.append(dict(g))
        elif v == "Q":
            args(0)
            if not gs: raise PSErr("Q without q")
            g = gs.pop()
        elif v == "cm": g["ctm"] = mul(tuple(args(6)), g["ctm"])
        elif v == "w": g["w"], = args(1)
        elif v == "g": g["f"] = tuple(float(x) for x in args(1))
        elif v == "G": g["s"] = tuple(float(x) for x in args(1))
        elif v == "rg": g["f"] = tuple(float(x) for x in args(3))
        elif v == "RG": g["s"] = tuple(float(x) for x in args(3))
        elif v == "BT":
            args(0)
            if text is not None: raise PSErr("BT within BT")
            text = dict(m=(1,0,0,1,0,0), l=(0,0))
        elif v == "ET":
            args(0)
            if text is None: raise PSErr("ET without BT")
            text = None
        elif v == "Tf":
            f, z = args(2); g["font"], g["size"] = f[1:], z
            if g["font"] not in fonts: raise PSErr("font %s is not among the resources" % f)
        elif v in ("Td", "T*"):
            if text is None: raise PSErr("Td outside BT and ET")
            x, y = args(2) if v == "Td" else (args(0), (0, -g["TL"]))[1]
            l = (text["l"][0] + x, text["l"][1] + y); text["l"] = l; text["m"] = (1,0,0,1) + l
        elif v == "Tj": show(args(1)[0][1])
        elif v == "TJ":
            for e in args(1)[0]:
                if isinstance(e, tuple): show(e[1])
                else: m = text["m"]; text["m"] = m[:4] + (m[4] - e / 1000 * g["size"] * g["Tz"] / 100, m[5])
        elif v == "Tc": g["Tc"], = args(1)
        elif v == "Tz": g["Tz"], = args(1)
        elif v == "TL": g["TL"], = args(1)
        elif v == "m": path.append([ap(g["ctm"], *args(2))])
        elif v == "l": path[-1].append(ap(g["ctm"], *args(2)))
        elif v == "c":
            a = args(6); path[-1] = path[-1] if path[-1][0] == "curve" else ["curve", path[-1][0]]; path[-1].append(ap(g["ctm"], a[4], a[5]))
        elif v == "re":
            x, y, w, h = args(4); a, b = ap(g["ctm"], x, y), ap(g["ctm"], x + w, y + h); path.append(["box", min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1])])
        elif v in ("S", "f"):
            args(0)
            for p in path:
                col = g["s"] if v == "S" else g["f"]
                if p[0] == "curve":
                    xs = [q[0] for q in p[1:]]; ys = [q[1] for q in p[1:]]
                    out.append(("circ", (min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2, (max(xs) - min(xs)) / 2, v, g["w"], col))
                elif p[0] == "box": out.append(("box",) + tuple(p[1:]) + (col,))
                elif len(p) > 1 and v == "S": out.append(("line", p, g["w"], col))
            path = []
        else: raise PSErr("unknown operator %r in a content stream" % v)
    if gs: raise PSErr("q without Q")
    if text is not None: raise PSErr("BT without ET")
    if st: raise PSErr("operands left at the end of a content stream")
    return out
