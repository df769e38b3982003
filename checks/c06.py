"""C06: classification and titles."""
from vt import ring as R, meth as M

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("methods with plain, dodging, little, treble-place, alliance, random and absent hunt-bell paths on 3..22 bells under several names and years; "
                "class and title are recomputed from the hunt bell's path. Non-trivial: distinct method and name")
    ev = []
    NM = ["Plain", "Grandsire", "Union", "Double Union", "Reverse Union", "Reverse Grandsire", "Double Grandsire", "Little Grandsire", "Cambridge", "", "St Clement's College", "Untitled", "X Y", "grandsire"]
    def add(m):
        n = m[0][0]; nm = rng.choice(NM); yrs = rng.sample([2018, 2019, 2000, 9999, 2030], 2)
        adm = M.methclass(m)
        ctx.count("settled" if len(adm) == 1 else "partly settled")
        for c in (adm if len(adm) == 1 else []): ctx.count(("class " + M.classname(c)).strip() if c & 15 != 1 else "class principle")
        def j(o):
            got = int(o[0])
            if got not in adm: return "class should be %s, is %s" % (sorted(M.classname(c) or c for c in adm), M.classname(got) or got)
            w = M.fullname(m, nm, got)
            if o[1] != w: return "full title should be %r, is %r" % (w, o[1])
            if o[2] != nm: return "name changed"
            if o[3] != "1": return "method changed"
            for k, y in enumerate(yrs):
                g = int(o[4 + 2 * k]); a = M.methclass(m, y)
                if g not in a: return "class in %d should be %s, is %s" % (y, sorted(a), g)
                if o[5 + 2 * k] != M.fullname(m, nm, g, y): return "title in %d should be %r, is %r" % (y, M.fullname(m, nm, g, y), o[5 + 2 * k])
        t = R.pns(m)
        ev.append((("meth_class", str(n), t, nm) + tuple(map(str, yrs)), j, t + nm + str(n)))
    for n in range(0, 40):
        ev.append((("stage", str(n)), (lambda n=n: lambda o: None if o[0] == M.stagename(n) else "stage should be " + M.stagename(n))(), "s%d" % n))
    for cl in list(range(1, 11)):
        for q in (0, 0x10, 0x80, 0x90):
            ev.append((("classname", str(cl | q)), (lambda c=cl | q: lambda o: None if o[0] == M.classname(c) else "class name should be %r" % M.classname(c))(), "c%d" % (cl | q)))
    KN = [(6, "&x16x16x16,12", 2), (8, "&x38x14x1258x36x14x58x16x78,12", 5), (6, "&x34x14x12x16x34x56,12", None), (5, "3.1.5.1.5.1.5.1.5.1", None),
          (6, "&-1-1-1,2", 2), (5, "3.1.3.1.3.1", None)]
    for n, t, c in KN:
        m = R.pn(n, t); add(m)
    import itertools
    for m in itertools.product(R.all_changes(4), repeat=4): add(list(m))
    for _ in range(ctx.n(6000, 150000)):
        n = rng.choice([3, 4, 5, 6, 6, 6, 7, 8, 8, 9, 10, 12, 16, 22])
        m = M.random_method(rng, n)
        if rng.random() < .2: m = M.regular_method(rng, n)
        if rng.random() < .3 and n % 2 == 0 and n >= 6:      # force all or no cross sections
            m = M.with_treble(rng, n, M.treble_path(n, "tb"), True)
            want = rng.choice([0, 1, 2])
            path = M.treble_path(n, "tb")
            for k in range(len(m) // 2 - 1):
                if path[k] // 2 != path[k + 1] // 2:
                    a = min(path[k], path[k + 1])
                    free = R.from_places(n, [p for p in (0, n - 1)]) if a % 2 else m[k]
                    if want == 0 or (want == 2 and rng.random() < .5):
                        m[k] = m[-2 - k] = (n, tuple(s for s in range(1, n - 1, 2)))
        add(m)
    ctx.events(ev)
    ctx.minimum = {"class Surprise": 20, "class Delight": 20, "class Treble Bob": 20, "class Bob": 50, "class Place": 3, "class principle": 100,
                   "class Treble Place": 20, "class Alliance": 20, "settled": 1000}
