"""C15: writing methods out, and method sets."""
from vt import ring as R, meth as M, libs as L
K = ("payload", "ref", "tower", "hand", "rw", "ccc")
def fx(d): return "\x01".join("%s=%s" % (k, d[k]) for k in K if k in d)
def facets(rng, p=.4):
    d = {}
    txt = lambda: rng.choice(["A&B <c>", "plain", "\"quoted\" 'text'", "x > y", "St Mary's, Bow", "12/34", "caf\xc3\xa9", "a  b"])
    if rng.random() < p: d["payload"] = txt()
    if rng.random() < p: d["ref"] = str(rng.randint(0, 9999))
    for k in ("tower", "hand"):
        if rng.random() < p:
            y, m, dd = rng.choice([(rng.randint(1000, 2020), rng.randint(1, 12), rng.randint(1, 28))] * 3 + [(0, 0, 0)])
            d[k] = "%d-%d-%d@%s" % (y, m, dd, rng.choice(["", txt()]))
    if rng.random() < p: d["rw"] = txt()
    if rng.random() < p: d["ccc"] = txt()
    return d
def name(rng, wild):
    if wild and rng.random() < .4: return rng.choice(["", "A&B", "<x>", "a\"b'c", "R\xc3\xa9sum\xc3\xa9", "&amp;", "]]>", "Plain", "No. 1 <", "Grandsire", "Union", "Little", "Q" * 300])
    return rng.choice(["", "Grandsire", "Union", "Double Grandsire"]) if rng.random() < .1 else L.some_name(rng)

def run(ctx):
    ctx.need("driver"); rng = ctx.rng
    ctx.rule = ("random lists of methods on 1 to 16 bells with plain and hostile names and facts, written as XML, plain text in every form and both at once, read back and also compared with the text expected; and random histories of "
                "two method sets against a model. Non-trivial: distinct non-empty lists and histories")
    ev = []
    U = "\x01"
    def meths(k, n=None):
        out = []
        for _ in range(k):
            nn = n or rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 8, 8, 10, 12, 16])
            out.append(M.random_method(rng, nn, 12) if nn > 2 else [R.rand_change(rng, nn, .7) for _ in range(rng.randint(1, 6))])
            if rng.random() < .05:
                m = out[-1]; r = rng.randrange(len(m)); out[-1] = m[r:] + m[:r]
        return out
    for _ in range(ctx.n(1500, 15000)):
        form = rng.choice(["xml"] * 3 + ["multi", "10", "00", "12", "02", "13", "03", "11", "14", "04"])
        xml = form in ("xml", "multi")
        n = rng.randint(3, 10) if form[0] == "0" else None
        ms = [(m, name(rng, xml), facets(rng) if xml or rng.random() < .4 else {}) for m in meths(rng.choice([0, 1, 1, 2, 4, 7]), n)]
        args = [U.join([str(m[0][0]), ".".join(R.cs(c) for c in m), nm] + ["%s=%s" % x for x in f.items()]) for m, nm, f in ms]
        def text_ok(t, ms, form):
            lines = t.split("\n")
            if lines[-1] != "" or len(lines) != len(ms) + 1: return "%d lines were written for %d methods" % (len(lines) - 1, len(ms))
            for l, (m, nm, f) in zip(lines, ms):
                n = m[0][0]
                p, tab, rest = l.partition("\t")
                if form[0] == "1":
                    b, _, p = p.partition(":")
                    if b != str(n): return "the number of bells written is %r, should be %d" % (b, n)
                if R.pn(n, p) != m: return "the place notation written, %s, is not the method's" % p
                k = form[1]
                if k == "4":
                    if tab: return "there is a field after the place notation"
                    continue
                cl = M.methclass(m); fulls = {M.fullname(m, nm, c) for c in cl}
                want = {"0": {f.get("payload", nm)}, "1": {f.get("payload", "")}, "2": {nm}, "3": fulls}[k]
                if rest not in want: return "the name written is %r, should be %s" % (rest, sorted(want))
        def j(o, ms=ms, form=form, xml=xml):
            if o.exc: return "exception %s" % o[1:]
            if form == "multi":
                if o[0] != "1" or o[1] != "0": return "empty() is wrong for a group of outputs"
                o = o[2:]
            if form != "xml":
                c = text_ok(o[0], ms, "13" if form == "multi" else form)
                if c: return c
            elif o[0]: return "writing XML printed %r" % o[0]
            e = o[2:]; ents = []
            if form[1:] in ("1", "4") and not xml: return "unexpected" if e else None
            while e: ents.append(e[1:7]); e = e[7:]
            if len(ents) != len(ms): return "%d entries were read back of %d" % (len(ents), len(ms))
            for x, (m, nm, f) in zip(ents, ms):
                if x[2] != str(m[0][0]) or x[3] != L.chs(m): return "the method read back is %s on %s, wrote %s on %s" % (x[3], x[2], L.chs(m), m[0][0])
                cl = M.methclass(m); fulls = {M.fullname(m, nm, c) for c in cl}
                if xml:
                    if x[1] != nm: return "the name read back is %r, wrote %r" % (x[1], nm)
                    if x[0] not in fulls or x[4] != x[0]: return "the title read back is %r (%r), should be %s" % (x[0], x[4], sorted(fulls))
                    w = dict(f); w.pop("payload", 0); w.pop("ref", 0)
                    if x[5] != fx(w): return "the facts read back are %r, wrote %r" % (x[5], fx(w))
                elif form[1] == "3":
                    if x[1] != nm and x[0] != nm: return "the name read back is %r, wrote %r" % (x[1], nm)
                    if x[4] not in fulls: return "the title read back is %r, wrote %s" % (x[4], sorted(fulls))
                elif form[1] == "2" and x[0] != nm: return "the name read back is %r, wrote %r" % (x[0], nm)
        ev.append((["libout", form] + args, j, (form, args) if ms else None))
        ctx.count("lists written as %s" % ("XML" if form == "xml" else "text" if form != "multi" else "both")); ctx.count("methods written", len(ms)); ctx.count("facts written", sum(len(f) for _, _, f in ms))
    # method sets
    for _ in range(ctx.n(500, 5000)):
        pool = meths(rng.randint(2, 5), rng.choice([None, 4, 6])); ops = []; want = []
        S = [{}, {}]; st = [set(), set()]
        key = lambda m: (m[0][0], tuple(m))
        names = [L.some_name(rng) for _ in range(4)]
        for _ in range(rng.randint(3, 25)):
            k = rng.randrange(2); m = rng.choice(pool); n = str(m[0][0]); p = ".".join(R.cs(c) for c in m); d = S[k]
            op = rng.choice(["add", "add", "addf", "addf", "store", "copy", "own", "size", "find", "find", "title", "list", "set", "back"] + ["clear"] * (rng.random() < .3))
            if op == "add": nm = rng.choice(names); ops.append(U.join([op, str(k), n, p, nm])); d.setdefault(key(m), (nm, {}))
            elif op == "addf":
                nm = rng.choice(names); f = facets(rng, .5); ops.append(U.join([op, str(k), n, p, nm] + ["%s=%s" % x for x in f.items()]))
                d.setdefault(key(m), (nm, {x: y for x, y in f.items() if x in st[k]}))
            elif op == "store": f = rng.choice(["payload", "tower", "rw"]); st[k].add(f); ops.append(U.join([op, str(k), f]))
            elif op in ("copy", "back"):
                ops.append(U.join([op, str(k)]))
                for kk, (nm, f) in S[1 - k].items(): d.setdefault(kk, (nm, {x: y for x, y in f.items() if x in st[k]}))
            elif op == "own": ops.append(U.join([op, str(k)])); S[k] = {kk: (nm, {}) for kk, (nm, f) in d.items()}; st[k] = set()
            elif op == "clear": ops.append(U.join([op, str(k)])); S[k] = {}
            elif op == "set":
                f, v = rng.choice(["rw", "payload"]), rng.choice(["v1", "v2"]); ops.append(U.join([op, str(k), n, p, f, v]))
                if key(m) in d: d[key(m)][1][f] = v
            elif op == "size": ops.append(U.join([op, str(k)])); want.append(("size", len(d)))
            elif op == "find": ops.append(U.join([op, str(k), n, p])); x = d.get(key(m)); want.append(("find", x and (m, x[0], dict(x[1]))))
            elif op == "title":
                nm = rng.choice(names); cl = M.methclass(m)
                if len(cl) != 1 or any(len(M.methclass(list(kk[1]))) != 1 for kk in d): continue
                t = M.fullname(m, nm, min(cl)); ops.append(U.join([op, str(k), t]))
                want.append(("title", [(list(kk[1]), x[0], dict(x[1])) for kk, x in d.items() if M.fullname(list(kk[1]), x[0], min(M.methclass(list(kk[1])))) == t]))
            elif op == "list": ops.append(U.join([op, str(k)])); want.append(("list", [(list(kk[1]), x[0], dict(x[1])) for kk, x in d.items()]))
        if not want: continue
        def ent(x, w):
            m, nm, f = w
            return x[0] == nm and x[1] == nm and x[2] == str(m[0][0]) and x[3] == L.chs(m) and x[5] == fx(f)
        def j2(o, want=want):
            if o.exc: return "exception %s" % o[1:]
            o = list(o); i = 0
            for k, w in want:
                if k == "size":
                    if o[i:i + 2] != [str(w), "1" if w == 0 else "0"]: return "size is %s and empty %s, should be %d" % (o[i], o[i + 1], w)
                    i += 2; continue
                i += 1
                if k == "list":
                    e = o.index("end", i); part = o[i:e]; i = e + 1; h = len(part) // 2
                    if len(part) != 2 * len(w): return "lists %d methods, should be %d" % (h, len(w))
                    if any(x != "same" for x in part[:h]): return "the place notation of an entry is not that of its method: %s" % part[:h]
                    left = [x.split("\x02") for x in part[h:]]
                    for ww in w:
                        hit = next((x for x in left if ent(x, ww)), None)
                        if hit is None: return "does not list %s as it should: %s" % (ww, left)
                        left.remove(hit)
                else:
                    x = o[i:i + 1] if o[i] == "null" else o[i:i + 6]; i += len(x)
                    if k == "find":
                        if w is None and x != ["null"]: return "found a method that is not there: %s" % x
                        if w is not None and (x == ["null"] or not ent(x, w)): return "looking up %s found %s" % (w, x)
                    else:
                        if not w and x != ["null"]: return "found a title that is not there: %s" % x
                        if w and (x == ["null"] or not any(ent(x, ww) for ww in w)): return "looking up the title of %s found %s" % (w, x)
        ev.append((["mset"] + ops, j2, tuple(ops))); ctx.count("method set histories"); ctx.count("method set observations", len(want))
    ctx.events(ev)
    ctx.minimum = {"methods written": 1000, "facts written": 500, "method set observations": 500}
