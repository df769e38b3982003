"""C30: methodlib extracts exactly the methods asked for."""
import os, random
from collections import Counter
from vt import ring as R, meth as M, libs as L

def run(ctx):
    ctx.need("methodlib"); rng = ctx.rng
    ctx.rule = ("one to three generated libraries in the three formats the program reads, sharing some methods under other names, given as arguments, by a search path and by the environment; requests by stage, length, prefix, titles on the command line and titles read from "
                "standard input with comments and payloads; suffix lists; and all output forms. Non-trivial: distinct runs that print a method")
    def one(k):
        rng = random.Random("%s/%d" % (ctx.seed, k)); d = os.path.join(ctx.scratch, "l%d" % k); os.makedirs(d)
        merged = {}; titles = {}; names = []; every = []
        nlib = rng.choice([1, 1, 1, 2, 2, 3]); n1 = rng.choice([5, 6, 7, 8, 10]); focus = rng.random() < .5
        for li in range(nlib):
            for _ in range(20):
                kind = rng.choice(["ms", "ms", "cc", "xml"]); recs = []
                for _ in range(rng.choice([1, 2, 4, 8, 12])):
                    m = rng.choice(every).m if every and rng.random() < .25 else L.some_method(rng, n1 if focus else None)
                    nm = rng.choice(every).base if every and rng.random() < .2 else L.some_name(rng)
                    r = L.Rec(m, nm)
                    if r.full: recs.append(r)
                if kind == "ms": fn, text, exp = L.ms(rng, recs)
                elif kind == "cc": fn = "cc%d.txt" % li; text, exp = L.cc(rng, recs)
                else: fn = "lib%d.xml" % li; text, exp = L.xml(rng, recs)
                t2 = dict(titles); m2 = dict(merged); ok = bool(exp)
                for e in exp:
                    if e.full is None: ok = False; break
                    if e.changes in m2: continue
                    m2[e.changes] = e
                    if e.full in t2: ok = False; break
                    t2[e.full] = e
                if ok: break
            else: return
            merged, titles = m2, t2; every += exp
            f = os.path.join(d, "d%d" % li, fn); os.makedirs(os.path.dirname(f)); open(f, "w", encoding="utf-8").write(text); names.append((f, fn, os.path.join(d, "d%d" % li)))
        exp = list(merged.values()); env = {}; libs = []; path = []
        for i, (f, fn, dd) in enumerate(names):
            if i == nlib - 1 and rng.random() < .3: env["METHOD_LIBRARY"] = f; ctx.count("libraries from the environment")
            elif rng.random() < .3 and "/" not in fn and not any(x[1] == fn for x in names[:i] + names[i + 1:]): libs.append(fn); path.append(dd); ctx.count("libraries found by the path")
            else: libs.append(f)
        if path: env[rng.choice(["METHOD_LIBRARY_PATH", "METHLIBPATH"])] = ":".join(path)
        args = []; bells = length = 0
        if rng.random() < .3: bells = rng.choice(exp).n if rng.random() < .8 else rng.choice([3, 9, 22]); args += ["-b", str(bells)]
        if rng.random() < .25: length = len(rng.choice(exp).m) if rng.random() < .8 else 13; args.append("--length=%d" % length)
        form = rng.choice(["", "", "-a", "-f", "-P"]); B = rng.random() < .4
        if B: args.append("-B")
        if form: args.append({"-a": "--copy-payload", "-f": "--full-title", "-P": "--pn-only"}[form] if rng.random() < .3 else form)
        keep = lambda e: (not bells or e.n == bells) and (not length or len(e.m) == length)
        suff = []; mode = rng.choice(["start", "start", "-t", "-T", "-T"]); want = []; missing = []; ok = True; stdin = ""
        if rng.random() < .35 and mode != "start":
            e = rng.choice(exp); w = e.full.split(" "); cut = rng.randint(1, min(2, len(w) - 1)) if len(w) > 1 else 0
            suff = [" ".join(w[-cut:]) if cut else "", rng.choice(["Surprise Major", "Bob Minor", "Bob Triples", "Delight Royal"])]
            if rng.random() < .4: suff.append("")
            rng.shuffle(suff)
            while suff and suff[-1] == "" and (len(suff) == 1): suff.pop()
            if suff: args += ["-S", ":".join(suff)]; ctx.count("runs with suffixes")
            # a trailing colon adds the empty suffix
        eff = suff or [""]
        def ask(t, pay):
            nonlocal ok
            e = next((titles[t + (" " + s if s else "")] for s in eff if t + (" " + s if s else "") in titles), None)
            ctx.count("titles asked for"); ctx.count("titles found", e is not None)
            if e is None: missing.append(t); ok = False; return
            if not keep(e): ok = False; return
            want.append((e, pay if form == "-a" and not (mode == "-t" and suff) else t if suff else e.base))
        def title():
            q = rng.random(); e = rng.choice(exp)
            if suff:
                for s in suff:
                    if s and e.full.endswith(" " + s) and q < .8: return e.full[:-len(s) - 1]
            if q < .75: return e.full
            return rng.choice([e.base, e.full + " ", e.full.lower(), "Nonesuch Surprise Major", e.full[:-1]]).rstrip() or "Q"
        if mode == "start":
            s = ""
            if rng.random() < .6: s = rng.choice(exp).full[:rng.randint(1, 6)] if rng.random() < .8 else "Zz"; args.append("--starts-with=" + s)
            want = [(e, e.base) for e in exp if e.full.startswith(s) and keep(e)]; ok = bool(want); ctx.count("requests by prefix", bool(s))
        elif mode == "-t":
            for _ in range(rng.choice([1, 1, 2, 3])):
                t = title(); args.append("--title=" + t); ask(t, "")
        else:
            args.append("-T")
            for _ in range(rng.choice([0, 1, 3, 6])):
                t = title(); pay = rng.choice(["a payload", "1\t2", "x"]) if form == "-a" and rng.random() < .8 else ""
                if "#" in t: continue
                line = t + ("\t" + pay if pay else "") + rng.choice(["", "", " ", " # comment", "#x", "\r"])
                stdin += line + "\n" + rng.choice(["", "", "", "\n", "# note\n", "   \t\n"]); ask(t, pay)
            if rng.random() < .3: stdin = stdin[:-1] if not stdin.endswith("\n\n") else stdin
        argv = args + libs
        r = ctx.app("methodlib", argv, stdin, env=dict({"METHOD_LIBRARY": None}, **env) if False else env)
        if r is None: return
        ctx.count("runs"); ctx.count("methods expected", len(want)); ctx.count("methods shared by libraries", len(every) - len(exp)); ctx.count("runs that must fail", not ok)
        def bad(c): ctx.appbad("methodlib", argv, stdin, r, c + "\n env=%s expected %s" % (env, [(e.full, e.n, e.changes[:60], x) for e, x in want][:8]))
        if (r.rc != 0) != (not ok) or r.rc not in (0, 1): return bad("the status should be %s" % ("success" if ok else "a failure"))
        lines = r.out.split("\n")
        if lines.pop() != "": return bad("the last line is not ended")
        got = []
        for l in lines:
            if form == "-P": p, t = l, None
            else:
                if "\t" not in l: return bad("line %r has no name" % l)
                p, t = l.split("\t", 1)
            n = None
            if B:
                if ":" not in p: return bad("line %r does not have the number of bells" % l)
                n, p = p.split(":", 1)
            got.append((n, p, t))
        def agrees(g, w):
            n, p, t = g; e, x = w
            if B and n != str(e.n): return False
            if form != "-P" and t != (e.full if form == "-f" else x): return False
            try: return L.parse_pn(e.n, p) == e.m
            except R.Bad: return False
        if len(got) != len(want): return bad("%d methods were printed, should be %d" % (len(got), len(want)))
        if mode == "start":
            left = list(want)
            for g in got:
                i = next((i for i, w in enumerate(left) if agrees(g, w)), None)
                if i is None: return bad("%r should not be printed" % (g,))
                left.pop(i)
        else:
            for g, w in zip(got, want):
                if not agrees(g, w): return bad("%r is printed where %s should be" % (g, w[0].full))
        for t in missing:
            if t not in r.err: return bad("that %r was not found is not reported" % t)
        if not missing and mode != "start" and r.err: return bad("something was reported")
        ctx.ok_case("|".join(argv) + stdin if want else None)
    ctx.map(one, range(ctx.n(1500, 10000)))
    d = os.path.join(ctx.scratch, "bad"); os.makedirs(d)
    f = os.path.join(d, "plain6.txt"); open(f, "w").write("*Plain 6\nPlain a &-16-16-16\n"); empty = os.path.join(d, "empty"); open(empty, "w").close()
    for argv, env in (([], {}), ([os.path.join(d, "nosuch")], {}), ([f, os.path.join(d, "nosuch")], {}), ([empty], {}), ([d], {}), (["-b", "1", f], {}), (["-b", "34", f], {}), (["-b", "x", f], {}), (["-t", "Plain Bob Minor", "-T", f], {}), (["-t", "Plain Bob Minor", "--starts-with=P", f], {}),
                      (["-T", "--starts-with=P", f], {}), (["-a", "-f", f], {}), (["-P", "-f", f], {}), (["-P", "-a", f], {}), (["-b", "8", f], {}), (["-l", "13", f], {}), (["--nonesuch", f], {}), ([f], {"METHOD_LIBRARY": os.path.join(d, "nosuch")})):
        r = ctx.app("methodlib", argv, "", env=env)
        if r is None: continue
        ctx.count("bad requests")
        if r.rc != 1 or r.out: ctx.appbad("methodlib", argv, "", r, "the status should be a failure and nothing printed")
        else: ctx.ok_case("bad" + " ".join(argv[:2]))
    ctx.minimum = {"runs": 600, "methods expected": 1000, "titles found": 400, "runs with suffixes": 80, "runs that must fail": 100, "methods shared by libraries": 50}
