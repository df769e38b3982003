"""C02: changes swap disjoint adjacent pairs and nothing else."""
from vt import ring as R

def f(r): return ",".join(map(str, r))
def b(x): return "1" if x else "0"
def chstr(c): return "%d:%s" % (c[0], f(c[1]))

def parse_ext(s):
    """bells denoted by a text which may hold extended {n} bells"""
    out = []; i = 0
    while i < len(s):
        if s[i] == "{":
            j = s.find("}", i)
            if j < 0 or not s[i + 1:j].isdigit() or not 1 <= int(s[i + 1:j]) <= 256: raise R.Bad(s)
            out.append(int(s[i + 1:j]) - 1); i = j + 1
        else:
            out.append(R.bell_of(s[i])); i += 1
    return out

def parse(n, s):
    if s in ("X", "x", "-"): return R.from_places(n, [])
    if s == "":
        if n: raise R.Bad("")
        return (0, ())
    return R.from_places(n, parse_ext(s))

def descr(c, off=0):
    n = c[0]; r = R.cperm(c); pl = R.places(c)
    want = [chstr(c), R.cs(c), f(pl), "".join(b(i in pl) for i in range(n)), f(r), str(R.csign(c)), str(len(pl)),
            b(n >= 3 and R.internal(c)), f(r), chstr((n, tuple(sorted(n - 2 - s for s in c[1]))))]
    nm = ["swaps", "text", "places", "findplace", "bell*change", "sign", "count_places", "internal", "row*change", "reverse"]
    def j(o):
        if len(o) != len(want): return "expected a change, observed %r" % list(o)[:3]
        for w, g, k in zip(want, o, nm):
            if w != g: return "%s should be %r, is %r" % (k, w, g)
    return j

def toggle(c, w):
    n, sw = c
    if w in sw: return (n, tuple(s for s in sw if s != w)), False
    return (n, tuple(sorted([s for s in sw if abs(s - w) > 1] + [w]))), True

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("all changes of up to 9 bells (thorough 13), all single edits of all changes up to 8 bells, random edit histories on up to "
                "60 bells, valid and invalid texts (all texts of up to 3 symbols on small stages); each judged as an involution. "
                "Non-trivial: distinct event, and for changes n>1")
    ev = []
    def add(cmd, judge): ev.append((cmd, judge, "|".join(cmd) if cmd[1] not in ("0", "1") else None))
    for n in range(0, 14 if ctx.thorough else 10):
        for c in R.all_changes(n):
            t = R.cs(c)
            add(("change_text", str(n), t), descr(c))
            if n: add(("change_places", str(n), f(R.places(c))), descr(c))
            ctx.count("changes enumerated")
            # texts with implied external places left out
            p = R.places(c)
            for q in (p[1:] if p[:1] == [0] else None, p[:-1] if p and p[-1] == n - 1 else None):
                if q:
                    want = R.from_places(n, q)
                    add(("change_text", str(n), "".join(R.ch(x) for x in q)), descr(want))
    for n in range(2, 10 if ctx.thorough else 9):
        for c in R.all_changes(n):
            for w in range(-1, n + 1):
                cmd = ("change_edits", str(n), R.cs(c), str(w)) if n else None
                add(cmd, edits(c, [w]))
    for _ in range(ctx.n(3000, 60000)):
        n = rng.choice([2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 33, 34, 40, 60, rng.randint(1, 33)])
        c = R.rand_change(rng, n, rng.random()) if rng.random() < .6 else (n, ())
        ws = [rng.randint(0, n - 2) if n > 1 and rng.random() < .95 else rng.randint(n - 1, n + 2) for _ in range(rng.randint(1, 25))]
        if rng.random() < .3 and n > 3:       # stay close together so that overlaps are common
            k = rng.randint(0, n - 3); ws = [min(n - 2, k + rng.randint(0, 2)) for _ in ws]
        add(("change_edits", str(n), R.cs(c)) + tuple(map(str, ws)), edits(c, ws)); ctx.count("edit histories")
    # texts
    alpha = "1234567890ETAB"
    texts = []
    for n in (1, 2, 3, 4, 5, 6):
        al = "".join(R.SYM[:n + 1]) + "xXi"
        for x in al:
            texts.append((n, x))
            for y in al:
                texts.append((n, x + y))
                if n <= 4:
                    for z in al: texts.append((n, x + y + z))
    for _ in range(ctx.n(4000, 80000)):
        n = rng.choice([0, 1, 4, 5, 6, 7, 8, 9, 12, 20, 33, 40])
        k = rng.random()
        if k < .5: t = "".join(R.ch(x) if rng.random() < .9 or x > 250 else "{%d}" % (x + 1) for x in sorted(rng.sample(range(min(n, 33)), rng.randint(0, min(n, 6))))) if n else ""
        elif k < .8:
            t = R.cs(R.rand_change(rng, n, rng.random())); 
            if rng.random() < .4: t = t.lower()
            if rng.random() < .5 and t:
                i = rng.randrange(len(t)); t = t[:i] + rng.choice(list(alpha) + ["X", "-", "", "{3}", "{0}", "{", "}", " ", ".", "!", "V", "I", "O"]) + t[i + (rng.random() < .5):]
        else: t = "".join(rng.choice("1234567890ETABxX-{} .i") for _ in range(rng.randint(0, 6)))
        texts.append((n, t))
    for n, t in texts:
        try: c = parse(n, t)
        except R.Bad: c = None
        if "{" in t and c is None and any(x in t for x in " +"): continue      # spacing inside braces is unspecified
        if c is None:
            add(("change_text", str(n), t), lambda o: None if o.exc else "text which is not a change was accepted")
            ctx.count("invalid texts")
        else:
            add(("change_text", str(n), t), descr(c)); ctx.count("valid texts")
    for _ in range(ctx.n(800, 10000)):
        n, m = rng.randint(1, 12), rng.randint(1, 12)
        x, y = R.rand_change(rng, n), R.rand_change(rng, n if rng.random() < .6 else m)
        if rng.random() < .2: y = x
        t = rng.choice([R.cs(y), "Z" if y[0] < 33 else R.cs(y), "21"])
        try: w = parse(y[0], t)
        except R.Bad: w = None
        add(("change_set", str(n), R.cs(x), str(y[0]), t),
            (lambda w=w, x=x: lambda o: None if list(o) == (["ok", chstr(w)] if w else ["!", chstr(x)]) else "assigning a text should give %r" % (w,))())
        cmp = [b(v) for v in (x == y, x != y, x < y, x > y, x <= y, x >= y)]
        cmp.append("!exception" if x[0] != y[0] else b(bool(set(R.places(x)) & set(R.places(y)))))
        cmp += [chstr(y), chstr(x)]
        add(("change_cmp", str(x[0]), R.cs(x), str(y[0]), R.cs(y)), (lambda w=cmp: lambda o: None if list(o) == w else "should be %r" % w)())
    # applying to rows of any stage
    for _ in range(ctx.n(2000, 30000)):
        n = rng.randint(1, 33); c = R.rand_change(rng, n); r = R.rand_row(rng, rng.choice([n, n, rng.randint(0, 33)]))
        w = f(ap_any(r, c))
        add(("row_change", f(r), str(n), R.cs(c)), (lambda w=w: lambda o: None if list(o) == [w, w] else "row*change should be " + w)())
    ctx.events(ev)
    ctx.minimum = {"invalid texts": 500, "valid texts": 500, "edit histories": 1000}

def ap_any(r, c):
    return R.ap(r, c) if r else R.ap(R.rounds(c[0]), c)

def edits(c, ws):
    want = []
    for w in ws:
        if 0 <= w and w + 2 <= c[0]:
            c, v = toggle(c, w); want.append(b(v) + " " + chstr(c))
        elif w < 0: want.append(None)
        else: want.append("! " + chstr(c))
    d = descr(c)
    def j(o):
        for k, w in enumerate(want):
            if w is None:           # bell(-1) is bell 255: out of range
                if not o[k].startswith("!"): return "swapping pair -1 was accepted"
            elif o[k] != w: return "after edit %d the change should be %r, is %r" % (k, w, o[k])
        class O(list): exc = False
        return d(O(o[len(want):]))
    return j
