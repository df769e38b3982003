"""C14: reading method libraries."""
from vt import ring as R, meth as M, libs as L

def fx(d): return "\x01".join("%s=%s" % (k, d[k]) for k in ("payload", "ref", "tower", "hand", "rw", "ccc") if k in d)

def parse(o, nq):
    """entries and query answers"""
    i = 1; ents = []
    while i < len(o) and o[i] == "entry": ents.append(o[i + 1:i + 7]); i += 7
    qs = []
    while i < len(o):
        assert o[i] == "found", o[i]
        j = i + 1
        while j < len(o) and o[j] != "found": j += 1
        qs.append(o[i + 1:j]); i = j
    return ents, qs

def same(e, x, kind):
    """complaint if entry e (a Rec) was observed as x"""
    name, base, bells, chs, full, fac = x
    if bells != str(e.n): return "has %s bells, the file says %d" % (bells, e.n)
    if chs != e.changes: return "has changes %s, the file says %s" % (chs, e.changes)
    if base != e.base: return "has base name %r, the file says %r" % (base, e.base)
    if e.full is not None and full != e.full: return "has full name %r, should be %r" % (full, e.full)
    if fac != fx(e.facets): return "has facts %r, the file says %r" % (fac, fx(e.facets))
    if kind == "xml" and name != e.title: return "has name %r, the file says %r" % (name, e.title)
    if kind in ("lite", "stream") and e.base and name != e.pay: return "has name %r, the file says %r" % (name, e.pay)

def run(ctx):
    ctx.need("driver"); rng = ctx.rng
    ctx.rule = ("generated libraries of 0 to 12 random methods on 3 to 14 bells in the four formats with varied layout (fixed-width tables with and without history columns, wrapped names, headers, file names, line ends, "
                "place notation styles, XML dialects), read by the class for the format and by detection, iterated, looked up, and read twice; and files in no format. Non-trivial: distinct files with an entry")
    ev = []
    for _ in range(ctx.n(2500, 25000)):
        kind = rng.choice(["lite", "lite", "stream", "ms", "ms", "cc", "cc", "cc", "xml", "xml"])
        one = rng.random() < .3; n1 = rng.choice([5, 6, 7, 8, 10, 12])
        recs = [L.Rec(L.some_method(rng, n1 if one else None), L.some_name(rng)) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8, 12]))]
        if recs and rng.random() < .15: recs.append(L.Rec(rng.choice(recs).m, L.some_name(rng)))
        if kind == "cc": recs = [L.Rec(r.m[-1:] + r.m[:-1], r.base) if rng.random() < .25 else r for r in recs]
        b = flags = 0; fn = rng.choice(["lib", "lib.txt", "m6.dat"])
        if kind in ("lite", "stream"):
            if rng.random() < .5 and recs: b = rng.choice(recs).n
            names = rng.random() < .5; flags = int(names)
            recs = [r for r in recs if r.full] if names else recs
            text, exp = L.lite(rng, recs, b, names)
        elif kind == "ms": fn, text, exp = L.ms(rng, recs)
        elif kind == "cc":
            if rng.random() < .4 and recs:
                while len(recs) < 8: recs.append(L.Rec(L.some_method(rng, recs[0].n), L.some_name(rng)))
            text, exp = L.cc(rng, recs)
        else: text, exp = L.xml(rng, recs)
        how = "auto" if kind in ("ms", "cc", "xml") and (exp or kind == "xml") and rng.random() < .4 else kind
        q = []; judges = []
        sure = all(e.full for e in exp)
        if kind != "stream":
            for _ in range(rng.choice([0, 1, 2, 4])):
                k = rng.random()
                if k < .35 and sure and exp:
                    t = rng.choice(exp).full if rng.random() < .7 else rng.choice([L.some_name(rng) + " Surprise Major", rng.choice(exp).full[:-1], rng.choice(exp).base])
                    w = next((e for e in exp if e.full == t), None)
                    q.append("title\x01" + t); judges.append((w, "looking up the title %r" % t))
                elif k < .65:
                    m = rng.choice(exp).m if exp and rng.random() < .7 else L.some_method(rng)
                    ch = ".".join(R.cs(c) for c in m); w = next((e for e in exp if e.m == m), None)
                    q.append("meth\x01%d\x01%s" % (m[0][0], ch)); judges.append((w, "looking up %s on %d" % (ch, m[0][0])))
                elif k < .8: q.append("again"); judges.append(("list", "reading again"))
                elif k < .9: q.append("kept"); judges.append(("list", "entries kept"))
                else: q.append("two"); judges.append(("n", "counting through a copy"))
        def j(o, exp=exp, kind=kind, judges=judges):
            if o[0] == "!open": return "the library could not be read"
            if o[0] != "1" and exp: return "the library says it is not good"
            ents, qs = parse(o, len(judges))
            for e, x in zip(exp, ents):
                c = same(e, x, kind)
                if c: return "an entry %s" % c
            if len(ents) != len(exp): return "%d entries were read, the file has %d" % (len(ents), len(exp))
            for (w, what), a in zip(judges, qs):
                if w == "list":
                    for i, e in enumerate(exp):
                        c = same(e, a[6 * i:6 * i + 6], kind)
                        if c: return "%s: an entry %s" % (what, c)
                elif w == "n":
                    if a[0] != str(len(exp)): return "%s gave %s entries of %d" % (what, a[0], len(exp))
                elif w is None:
                    if a != ["null"]: return "%s found %s" % (what, a)
                else:
                    c = same(w, a, kind) if len(a) == 6 else "was not found"
                    if c: return "%s: %s" % (what, c)
        if kind == "stream" and b == 0 and flags == 0 and rng.random() < .1: text = text  # nothing
        ev.append((["lib", how, b, flags, fn, text] + q, j, (kind, text) if exp else None))
        ctx.count("methods laid out like Grandsire", sum(getattr(e, "shape", "") == "late" for e in exp))
        ctx.count("%s files" % kind); ctx.count("entries expected", len(exp)); ctx.count("lookups", len(judges)); ctx.count("files read by detection", how == "auto")
        ctx.count("facts attached", sum(len(e.facets) for e in exp)); ctx.count("wrapped names", sum(hasattr(e, "wrapped") for e in exp))
    # files in no format, and missing files
    for _ in range(ctx.n(200, 2000)):
        k = rng.random()
        if k < .3: t = "".join(chr(rng.choice([10, 32, 60, 62, rng.randint(33, 126), rng.randint(0, 255)])) for _ in range(rng.randint(0, 200)))
        elif k < .5: t = "\n".join(" ".join(L.some_name(rng) for _ in range(rng.randint(1, 9))) for _ in range(rng.randint(1, 9)))
        elif k < .7: t = rng.choice(["<a/>", "<html><body/></html>", "<?xml version='1.0'?>", "<methods>", "<methods><method></methods>", "", "\n\n", "*\n", "<method/>"])
        else: t = L.xml(rng, [L.Rec(L.some_method(rng), "Foo")])[0]; i = rng.randint(0, len(t) - 3); t = t[:i]
        first = next((l for l in t.split("\n") if l and l[0] != "*"), "")
        if "Copyright " in t.split("\n")[0] or first.count(" ") == 2: continue
        def j2(o, t=t):
            if o[0] == "!open": return None
            if o[0] == "1": return "a file in none of the formats was accepted as a library"
        ev.append((("lib", "auto", 0, 0, rng.choice(["x", "x8.txt"]), t), j2, t)); ctx.count("files that are not libraries")
    ctx.events(ev)
    ctx.minimum = {"%s files" % k: 100 for k in ("lite", "ms", "cc", "xml")}; ctx.minimum.update({"entries expected": 2000, "lookups": 400, "files that are not libraries": 50})
