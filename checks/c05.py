"""C05: method analysis describes the method's actual rows."""
from vt import ring as R, meth as M
def f(r): return ",".join(map(str, r))
def bits(xs): return "".join("1" if x else "0" for x in xs)

NAMES = ["bells", "length", "lead head", "leads", "hunt bells", "max blows", "issym", "ispalindromic", "isdouble", "isregular",
         "symmetry point", "lead head code", "palindromic about", "bell symmetric", "bell plain hunts", "bell dodges",
         "bell makes internal places", "bell symmetry point", "bell palindromic about"]

def facts(m):
    n = m[0][0]; L = len(m); lh = R.leadhead(m, n)
    sp = M.sym_point(m)
    w = [str(n), str(L), f(lh), str(R.order(lh)), str(sum(lh[i] == i for i in range(n))), str(M.maxblows(m)),
         bits([L % 2 == 0 and M.pal_about(m, L // 2 - 1)]), bits([sp != -1]), bits([M.isdouble(m)]), bits([M.pblh_index(lh)]),
         str(sp), M.lhcode(m) , bits(M.pal_about(m, i) for i in range(L)),
         bits(L % 2 == 0 and M.pal_bell(m, b, L // 2 - 1) for b in range(n)), bits(M.isplain(m, b) for b in range(n)),
         bits(M.hasdodges(m, b) for b in range(n)), bits(M.hasplaces(m, b) for b in range(n)),
         ",".join(str(M.sym_point_bell(m, b)) for b in range(n)),
         ",".join(bits(M.pal_bell(m, b, i) for i in range(L)) if L % 2 == 0 else "?" for b in range(n))]
    return w

def judge(m):
    want = facts(m)
    def j(o):
        if len(o) != len(want): return "not analysed: %r" % list(o)[:3]
        for w, g, k in zip(want, o, NAMES):
            if "?" in w: continue
            if w != g: return "%s should be %s, is %s" % (k, w, g)
    return j

def run(ctx):
    ctx.need("driver")
    rng = ctx.rng
    ctx.rule = ("all methods of up to 3 changes on 3-4 bells, random, palindromic, rotated, double, treble-dominated and regular methods on 3..16 bells; "
                "each analysed fact is recomputed from the method rung out. Non-trivial: distinct method of more than one change")
    ev = []
    def add(m):
        n = m[0][0]; t = R.pns(m)
        ev.append((("meth_info", str(n), t), judge(m), t + str(n) if len(m) > 1 else None))
        lh = R.leadhead(m, n)
        ctx.count("regular", M.pblh_index(lh) != 0); ctx.count("palindromic", M.sym_point(m) != -1); ctx.count("double", M.isdouble(m))
        ctx.count("coded", M.lhcode(m) != "z"); ctx.count("odd length", len(m) % 2)
    import itertools
    for n in (3, 4):
        for L in (1, 2, 3):
            for m in itertools.product(R.all_changes(n), repeat=L): add(list(m))
    KN = [(6, "&x16x16x16,12"), (5, "&5.1.5.1.5,125"), (7, "3.1.7.1.7.1.7.1.7.1.7.1.7.1"), (8, "&x38x14x1258x36x14x58x16x78,12"), (6, "&-34-14-12-16-12-16,12"),
          (5, "3.1.5.1.5.1.5.1.5.1"), (4, "&-14-14,12"), (6, "3.1.5.3.1.3.5.1.3.1"), (5, "3.1.3.1.3.1"), (12, "&x3Tx14x125Tx36x147Tx58x169Tx70x18x9TxEx1,2"), (10, "&x30x14x1250x36x1470x58x16x70x18x90,12")]
    for n, t in KN: add(R.pn(n, t))
    for _ in range(ctx.n(5000, 120000)):
        n = rng.choice([3, 4, 5, 6, 6, 7, 8, 8, 9, 10, 11, 12, 16])
        k = rng.random()
        if k < .3: m = M.regular_method(rng, n)
        elif k < .45 and n % 2 and n > 4:   # twin hunt
            m = M.with_treble(rng, n, M.treble_path(n, "plain"), True); m = [R.from_places(n, [2])] + [R.from_places(n, [0]) if i % 2 == 0 else R.from_places(n, [n - 1]) for i in range(2 * n - 1)]
            for _ in range(rng.randint(0, 2)):
                i = rng.randrange(1, len(m)); m[i] = R.rand_change(rng, n, .9)
        else: m = M.random_method(rng, n)
        if rng.random() < .1: m = m * 2
        add(m[:60])
    ctx.events(ev)
    ctx.minimum = {"regular": 100, "palindromic": 300, "coded": 80, "double": 50, "odd length": 100}
