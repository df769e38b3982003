"""C19: owning, shared, copy-on-write and cloning handles."""
KINDS = ["scoped", "shared", "cloning", "cow"]
def run(ctx):
    ctx.need("driver"); rng = ctx.rng
    ctx.rule = ("every history of up to 3 operations on two handles and random histories of up to 40 operations on five handles of each kind, with plain and derived objects, own deleters and cloners, and clones that fail; "
                "after every operation the value each handle sees, the number of objects alive and every destruction are compared with an ownership model. Non-trivial: distinct histories")
    ev = []
    def judge(kind, ops):
        # model: slot -> object; object = [value, custom]
        def j(o):
            if o.exc: return "exception %s" % o[1:]
            steps = o[0].split(";"); s = [None] * 5; custom = 0
            if len(steps) != len(ops) + 1: return "%d observations of %d operations" % (len(steps) - 1, len(ops))
            def owners(x): return sum(y is x for y in s)
            def drop(i):
                nonlocal custom
                x = s[i]; s[i] = None
                if x is not None and owners(x) == 0 and x[1]: custom += 1
            throwing = False; val = lambda x: "-" if x is None else str(x[0])
            for t, (op, st) in enumerate(zip(ops, steps)):
                f = op.split(" "); k = f[0]; i = int(f[1]); a = int(f[2]) if len(f) > 2 else 0
                note, vals, alive, bad, cus = st.split("|"); want = ""
                was = throwing; throwing = k == "throwing"
                if k in ("make", "renew", "cmake"): drop(i); s[i] = [a, k == "cmake"]
                elif k in ("null", "end", "reset"): drop(i)
                elif k in ("copy", "assign"):
                    if kind == "cloning":
                        if s[a] is not None and was: want = "threw"
                        elif s[a] is not None: n = list(s[a]); drop(i); s[i] = n
                        else: drop(i)
                    elif i != a or k == "copy":
                        x = s[a]
                        if x is not s[i]: drop(i); s[i] = x
                elif k == "swap": s[i], s[a] = s[a], s[i]
                elif k in ("write", "bump", "get"):
                    x = s[i]
                    if x is not None:
                        if kind == "cow" and owners(x) > 1:
                            if was: want = "threw"
                            else: s[i] = x = list(x)
                        if want == "": x[0] = x[0] + a if k == "bump" else a
                elif k == "release":
                    x = s[i]; s[i] = None; want = "got " + ("none" if x is None else val(x))
                    if a == 0: drop(4); s[4] = x; 
                    if a == 0 and x is not None: s[4] = [x[0], False]
                elif k == "cmp":
                    want = note
                    same = s[i] is s[a]
                    if "comparison" in note: return "handles compare otherwise than the pointers they hold: step %d" % t
                    if kind != "cow" and (note == "=") != same: return "handles %s compare equal: step %d" % ("do not" if same else "wrongly", t)
                what = "after step %d, %s: " % (t + 1, op)
                if note != want: return what + "%r, should be %r" % (note, want)
                if vals != ",".join(map(val, s)): return what + "the handles see %s, should be %s" % (vals, ",".join(map(val, s)))
                if bad != "0": return what + "an object was destroyed twice"
                n = len({id(x) for x in s if x is not None}); m = sum(x is not None for x in s)
                if kind == "cow":
                    if not min(1, m) <= int(alive) <= m: return what + "%s objects are alive, %d handles hold one" % (alive, m)
                    if len({x[0] for x in s if x is not None}) > int(alive): return what + "too few objects are alive"
                elif int(alive) != n: return what + "%s objects are alive, should be %d" % (alive, n)
                if int(cus) != custom: return what + "the handle's own deleter was called %s times, should be %d" % (cus, custom)
            e = steps[-1].split("|")
            for i in range(5): drop(i)
            if e[1] != "0": return "%s objects were never destroyed" % e[1]
            if e[2] != "0": return "an object was destroyed twice"
            if int(e[3]) != custom: return "the handle's own deleter was called %s times, should be %d" % (e[3], custom)
        return j
    def ops_for(kind):
        o = ["make", "make", "renew", "null", "end", "reset", "write", "bump", "get", "cmp"]
        if kind != "scoped": o += ["copy", "copy", "assign", "assign", "swap"]
        if kind in ("shared", "cow"): o += ["same"]
        if kind in ("scoped", "cloning"): o += ["release"]
        if kind != "cow": o += ["cmake"]
        if kind in ("cloning", "cow"): o += ["throwing"]
        return o
    def simulate_null(kind, ops):
        """which slots are null at the end (writes need an object)"""
        s = [False] * 5
        for op in ops:
            f = op.split(" "); k = f[0]; i = int(f[1]); a = int(f[2]) if len(f) > 2 else 0
            if k in ("make", "renew", "cmake"): s[i] = True
            elif k in ("null", "end", "reset"): s[i] = False
            elif k in ("copy", "assign"): s[i] = s[a] if True else 0
            elif k == "swap": s[i], s[a] = s[a], s[i]
            elif k == "release":
                if a == 0 : s[4] = s[i] if i != 4 else s[i]
                if i != 4 or a: s[i] = False
        return s
    v = [0]
    def add(ops, k, i, a, kind):
        if k in ("write", "bump"):
            if not simulate_null_safe(kind, ops)[i]: return
        ops.append("%s %d %d" % (k, i, a) if k not in ("null", "end", "reset", "same", "throwing") else "%s %d" % (k, i))
    def simulate_null_safe(kind, ops):
        # a failed copy leaves the target as it was: treat as maybe null
        s = simulate_null(kind, ops)
        for t, op in enumerate(ops[:-1]):
            if op.startswith("throwing") and ops[t + 1].split(" ")[0] in ("copy", "assign"):
                return [False] * 5 if kind == "cloning" else s
        return s
    import itertools
    for kind in KINDS:
        names = sorted(set(ops_for(kind)))
        single = []
        for k in names:
            for i in (0, 1):
                for a in ([0, 1] if k in ("copy", "assign", "swap", "cmp") else [0, 9] if k == "release" else [5]): single.append((k, i, a))
        for d in range(1, ctx.n(3, 4)):
            for seq in itertools.product(single, repeat=d):
                if rng.random() > (1 if d < 2 else ctx.n(.2, 1) if d == 2 else .02): continue
                ops = ["make 0 1"]
                for k, i, a in seq:
                    if k in ("make", "renew", "cmake", "write", "get", "bump"): v[0] += 1; a = 10 + v[0] % 1000
                    add(ops, k, i, a, kind)
                if kind != "scoped": ops.append("copy 2 0")
                ev.append((["handles", kind] + ops, judge(kind, ops), (kind, tuple(ops)))); ctx.count("short histories")
        pool = ops_for(kind)
        for _ in range(ctx.n(1200, 20000)):
            ops = []
            for _ in range(rng.randint(5, 40)):
                k = rng.choice(pool); i = rng.randrange(4 if k == "release" else 5)
                if k in ("copy", "assign", "swap", "cmp"): a = i if rng.random() < .15 else rng.randrange(5)
                elif k == "release": a = rng.choice([0, 1])
                else: v[0] += 1; a = 10 + v[0] % 100000
                add(ops, k, i, a, kind)
            if not ops: continue
            ev.append((["handles", kind] + ops, judge(kind, ops), (kind, tuple(ops)))); ctx.count("%s histories" % kind); ctx.count("operations", len(ops))
            ctx.count("operations with a failing clone", sum(x.startswith("throwing") for x in ops))
    ctx.events(ev)
    ctx.minimum = {"%s histories" % k: 500 for k in KINDS}; ctx.minimum.update({"short histories": 500, "operations": 20000})
