"""C03: bells, rows and changes survive a trip through text and streams."""
import re
from vt import ring as R
def f(r): return ",".join(map(str, r))
def b(x): return "1" if x else "0"

class Table:
    """An installed symbol table, with the documented case and I/1, O/0 latitude."""
    def __init__(self, s):
        self.given = s; self.s = s or R.SYM; self.max = len(self.s)
        t = self.s
        self.map = (str.upper if t.upper() == t else str.lower if t.lower() == t else (lambda c: c))
    def read(self, c):
        if not c or ord(c) > 127 or ord(c) == 0: return None
        c = self.map(c); i = self.s.find(c)
        if i >= 0: return i
        for p, q in (("I", "1"), ("O", "0")):
            if c == p and q in self.s: return self.s.index(q)
            if c == q and p in self.s: return self.s.index(p)
        return None
    def text(self, x): return self.s[x] if x < self.max else "{%d}" % (x + 1)

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("every character under several symbol tables, every bell 0..254, rows of 0..60 bells and all changes of up to 7 bells under several "
                "tables, streams made of white space, row text and trailing data, and mutations of them. Non-trivial: distinct events")
    tabs = [Table(""), Table("123456789ABCDEFGHJKL"), Table("ABCDEFGHIJKLMNOPQRSTUVW"), Table("abcdefghijklmnopq"),
            Table("1234567890ET"), Table("IZ3456"), Table("abcDEF12"), Table("23456789"), Table("ABCDE0"), Table("bcde1"), Table("QWERTY")]
    ev = []
    def add(cmd, judge): ev.append((cmd, judge, "|".join(cmd)))
    for t in tabs:
        lower = t.map is str.lower and t.map("A") == "a" and any(c.isalpha() for c in t.s)
        for c in range(1, 128):
            ch = chr(c)
            if lower and ch in "1I0Oio": continue      # the I/1 latitude is only described for capitals
            w = t.read(ch)
            want = [b(w is not None)] + (["ok", str(w), t.s[w]] if w is not None else ["!", "", ""])
            add(("bell_char", t.given, str(c)), (lambda want=want: lambda o: None if list(o) == want else "should be %r" % want)())
        for c in (0, 128, 200, 255):
            add(("bell_char", t.given, str(c)), lambda o: None if list(o) == ["0", "!", "", ""] else "not a bell, but was accepted")
        for x in list(range(0, 70)) + [100, 200, 254, 255]:
            want = t.text(x)
            add(("bell_print", t.given, str(x)), (lambda want=want: lambda o: None if o[0] == want else "should print %r" % want)())
            fl = rng.randint(0, 1)
            tail = rng.choice(["", " ", "1", "}", "{2}", "\n2"])
            add(("bell_stream", t.given, rng.choice(["", " ", "\n\t "]) * (1 - fl) + want + tail, str(fl), "7"),
                (lambda x=x, tail=tail: lambda o: None if o[0] == str(x) and o[1] == "0" and o[3] == tail else "should read %d and leave %r" % (x, tail))())
    # the extended form
    for k in range(0, 400):
        want = ["ok", str(k - 1), str(len(str(k)) + 2)] if 1 <= k <= 256 else ["!", "", ""]
        add(("bell_ext", "{%d}" % k), (lambda want=want: lambda o: None if list(o) == want else "should be %r" % want)())
        add(("bell_stream", "", "{%d}rest" % k, "0", "9"),
            (lambda k=k: lambda o: None if (o[0] == str(k - 1) and o[1] == "0" and o[3] == "rest" if 1 <= k <= 256 else o[0] == "9" and o[1] == "1") else
             "{%d}: wrong value, state or position" % k)())
    for s in ("{}", "{-1}", "{x}", "{1", "{", "{1x}", "{99999999999999999999999}", "{4294967297}", "{18446744073709551617}"):
        add(("bell_ext", s), lambda o: None if o[0] == "!" else "malformed bell accepted")
        add(("row_text", s), lambda o: None if o.exc else "malformed row accepted")
        add(("bell_stream", "", s, "0", "9"), lambda o: None if o[0] == "9" and o[1] == "1" else "malformed bell accepted or target changed")
        add(("row_stream", "", s, "0", "1,0"), lambda o: None if o[0] == "1,0" and o[1] == "1" else "malformed row accepted or target changed")
    # round trips
    def rt(t, r):
        txt = "".join(t.text(x) for x in r)
        def j(o):
            if o[0] != txt: return "row should print as %r" % txt
            if o[1] != f(r): return "row does not survive conversion from its text"
            if len(r) and (o[2] != f(r) or o[3] != "0"): return "row does not survive stream extraction"
            if len(r) and o[4] != f(r): return "row does not survive lexical_cast"
        return j
    for n in range(0, 34):
        for _ in range(ctx.n(6, 60)):
            t = rng.choice(tabs) if rng.random() < .5 else tabs[0]
            r = R.rand_row(rng, n); add(("row_rt", t.given, f(r)), rt(t, r)); ctx.count("row round trips")
    for _ in range(ctx.n(150, 3000)):
        n = rng.randint(34, 60); r = R.rand_row(rng, n); t = rng.choice(tabs); add(("row_rt", t.given, f(r)), rt(t, r)); ctx.count("extended row round trips")
    for n in list(range(0, 9 if ctx.thorough else 8)) + [34, 35, 40]:
        cs = R.all_changes(n) if n < 20 else [R.rand_change(rng, n, d) for d in (0, .3, .6, .9, .95, .99, 1) for _ in range(10)]
        for c in cs:
            for t in (rng.sample(tabs, 2) if n < 20 else tabs[:1]):
                if "X" in t.s or "x" in t.s: continue
                base = "".join(t.text(x) for x in R.places(c))
                want = []
                for x in ("X", "X", "x", "-"):
                    want += [base or (x if n else ""), "%d:%s" % (n, f(c[1]))]
                want.append(base or ("X" if n else ""))
                add(("change_rt", t.given, str(n)) + tuple(map(str, c[1])), (lambda w=want: lambda o: None if list(o) == w else "should be %r" % w)())
                ctx.count("change round trips")
    # streams: white space, rows, separators and rubbish
    def stream_model(txt, skip, init):
        i = 0
        if skip:
            while i < len(txt) and txt[i] in " \t\n\r\v\f": i += 1
        bells = []; T = tabs[0]
        while i < len(txt):
            if txt[i] == "{":
                m = re.match(r"\{(\d+)\}", txt[i:])
                if not m: return None
                if not 1 <= int(m.group(1)) <= 256: return None
                bells.append(int(m.group(1)) - 1); i += m.end()
            elif T.read(txt[i]) is not None: bells.append(T.read(txt[i])); i += 1
            else: break
        if not bells or sorted(bells) != list(range(len(bells))): return (init, True, None)
        return (tuple(bells), False, txt[i:])
    for _ in range(ctx.n(5000, 100000)):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12]); r = R.rand_row(rng, n)
        body = R.rs(r)
        if rng.random() < .2: body = body.lower()
        if rng.random() < .15: body = "".join("{%d}" % (x + 1) if rng.random() < .4 else R.ch(x) for x in r)
        if rng.random() < .25 and body:
            k = rng.randrange(len(body)); body = body[:k] + rng.choice(["", "1", "9", "!", "x", " ", "i", "{3}"]) + body[k + rng.randint(0, 1):]
        txt = rng.choice(["", "", " ", "\n", "\t  ", "\r\n"]) + body + rng.choice(["", "", " ", "\n", ",", "x2", " 21", ".", "\n4321\n", "}", "!", "\\", "Xy"])
        fl = 1 if rng.random() < .2 else 0
        init = R.rand_row(rng, rng.randint(0, 4))
        w = stream_model(txt, not fl, init)
        if w is None: continue
        def j(o, w=w):
            if o[0] != f(w[0]): return "row should be %r" % f(w[0])
            if o[1] != b(w[1]): return "failure state should be %s" % w[1]
            if w[2] is not None and o[3] != w[2]: return "left %r on the stream, should leave %r" % (o[3], w[2])
        add(("row_stream", "", txt, str(fl), f(init)), j)
        ctx.count("malformed streams" if w[1] else "good streams")
        try:
            R.pr(body.replace("{", "!")) ; ok = True
        except R.Bad: ok = False
        if "{" not in body:
            exp = f(R.pr(body)) if ok else None
            add(("row_text", body), (lambda e=exp: lambda o: None if (o.exc if e is None else (not o.exc and o[0] == e)) else "row text should give %r" % e)())
            add(("row_assign_text", f(init), body), (lambda e=exp, i=f(init): lambda o: None if list(o) == (["ok", e] if e is not None else ["!", i]) else "assignment should give %r" % e)())
    for _ in range(ctx.n(300, 5000)):
        rows = [R.rand_row(rng, rng.randint(1, 12)) for _ in range(rng.randint(0, 6))]
        txt = rng.choice(["", "\n"]) + "".join(R.rs(r) + rng.choice([" ", "\n", "\r\n", " \t "]) for r in rows)
        if rows and rng.random() < .5: txt = txt.rstrip()
        want = [f(r) for r in rows]
        add(("rows_stream", "", txt), (lambda w=want: lambda o: None if [x for x in o if x] == w else "should read %r" % w)())
    ctx.events(ev)
    ctx.minimum = {"malformed streams": 300, "good streams": 1000, "row round trips": 100, "change round trips": 50}
