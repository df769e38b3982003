"""C31: no input makes the library misuse memory."""
import os
from vt import ring as R, libs as L, meth as M
from vt.check import Crash, SAN_ENV
from vt.mutate import hostile, garble, soup, NUMS

SYM = "1234567890ETABCDFGHJKLMNPQRSUVWYZ"
NAMED = "queens kings tittums whole-pull rollups rounds backrounds whittingtons 56s near-misses crus long3 near-miss cru little-bell exploded-tittums reverse-queens handstroke-home".split()
ALPHA = {
    "row": list(SYM[:14]) + ["{13}", "{", "}", "{300}", "{0}", "{-1}", "e", "t", "-", "?", " "], "pn": list("1234567890ETxX-.,&+ ") + ["&", "hb", "lb", "{13}", "{256}", "{", "}"],
    "wild": list("1234567890ETx?*[]-") + ["[", "]", "[^", "[-", "**", "*?", "\\", "{12}", "{"], "dim": list("0123456789./-+ ") + ["in", "cm", "mm", "pt", "inch", "1/2", " 1/3"],
    "num": list("0123456789.-+eEx "), "score": list("0123456789:*?[]-, ") + ["1:", "-3:"], "word": NAMED + list("abcdefgh -_0123"),
    "lib": list("1234567890ETx-.,&+ \t\n\r") + ["\n\n", "<", ">", "</", "&amp;", "\"", "=", "/*", "*/", "  "],
}
def rowtext(rng): n = rng.choice([1, 3, 5, 6, 8, 10, 12, 16, 33]); p = list(SYM[:n]); rng.shuffle(p); return "".join(p)
def good(rng, k):
    if k in ("row", "rowc", "bellext"): return rowtext(rng)
    if k in ("rows", "bells"): return " ".join(rowtext(rng) for _ in range(3))
    if k == "change": return R.cs(L.some_method(rng)[0])
    if k in ("changes", "push"): return " ".join(R.cs(c) for c in L.some_method(rng, 8))
    if k in ("pn", "method"): return L.pn_text(rng, L.some_method(rng))
    if k in ("wild", "music"): return "".join(rng.choice("12345678?*x") if rng.random() < .9 else "[135-]" for _ in range(rng.randint(1, 8)))
    if k == "scored": return "%d:%s" % (rng.randint(-5, 50), rng.choice(["*5678", "12345678", "?1?2*"]))
    if k == "named": return rng.choice(NAMED)
    if k == "dim": return rng.choice(["1in", "2.5 cm", "3/4in", "1 1/2 in", "10", "7mm", "-4pt"])
    if k == "entry": return "\n".join("%s %s" % (L.pn_text(rng, L.some_method(rng, 8)), L.some_name(rng)) for _ in range(3)) + "\n"
    return rng.choice(NUMS)
KIND = dict(row="row", rowc="row", rows="row", bells="row", bellext="row", change="pn", changes="pn", pn="pn", method="pn", push="pn", wild="wild", music="wild", scored="score", named="word", dim="dim",
            int="num", size="num", char="num", double="num", bool="num", str="num", entry="lib", make="num")
TYPES = "row change method group extent incourse changes music details wild falseness peal prover options multtab entry cv".split()
BELLS = [0, 1, 2, 3, 4, 5, 6, 6, 8, 8, 8, 10, 12, 16, 20, 33, 34, 40]
BIG = [64, 100, 127, 128, 200, 255]

def texts(rng, k):
    v = []
    for _ in range(k):
        kind = rng.choice(list(KIND)); al = ALPHA[KIND[kind]]
        t = hostile(rng, good(rng, kind), al, [good(rng, kind)])
        if kind in ("wild", "music", "scored"):      # matching takes time exponential in the number of stars
            if len(t) > 400: t = t[:400]
            while t.count("*") > 4: t = t.replace("*", "", 1)
        n = rng.choice(BIG) if rng.random() < .05 and kind not in ("wild", "music", "scored", "named") else rng.choice(BELLS)
        v.append(("text", kind, t.replace("\0", "0") if kind == "bellext" else t, str(n)))
    return v

def value_text(rng, ty, n):
    if ty in ("row", "group", "prover", "multtab"):
        p = list(SYM[:n if ty != "prover" else 4]); rng.shuffle(p); return "".join(p)
    if ty in ("method", "cv", "falseness"): return L.pn_text(rng, L.some_method(rng, max(n, 3)))
    if ty == "change": return R.cs(L.some_method(rng, max(3, n))[0])
    if ty in ("music", "details", "wild"): return "".join(rng.choice("123456?*") for _ in range(rng.randint(1, 6)))
    return rng.choice(["Zephyr", "a b", "", "Cambridge", "x" * 60])

def history(rng):
    ty = rng.choice(TYPES); n = rng.choice([3, 4, 5, 6]) if ty in ("falseness", "multtab", "group") else rng.choice([4, 5, 6, 8])
    if ty == "prover": n = 4
    st = []
    for _ in range(rng.randint(4, 24)):
        op = rng.choice("mk mk mk copy copy asg asg asg swap swap move masg del mut mut mut mut vec".split())
        if not st: op = "mk"
        i, j = rng.randrange(4), rng.randrange(4)
        if rng.random() < .2: j = i
        m = n if ty in ("change", "method", "music", "cv", "falseness", "entry", "wild") else rng.randrange(12)
        if op == "mut" and ty in ("row", "music", "method", "group", "change"): m = rng.randrange(9)
        st.append("\x01".join([op, str(i), str(j), str(m), value_text(rng, ty, n)]))
    return ("hist", ty) + tuple(st)

def judge_history(cmd, memo):
    """each step may change only the object it is applied to; copies are equal to their originals"""
    ty = cmd[1]
    def j(o):
        slot = [""] * 4; p = 0
        for s in cmd[2:]:
            op, i, k, n, t = s.split("\x01"); i = int(i); k = int(k); note = o[p]; now = list(o[p + 1:p + 5]); p += 5
            want = list(slot); what = "%s %d %d" % (op, i, k)
            if note == "ok":
                if op == "mk":
                    want[i] = memo.setdefault((ty, "mk", n, t), now[i])
                elif op == "mut":
                    want[i] = now[i] if ty in ("extent", "incourse", "changes", "falseness", "prover") else memo.setdefault((ty, slot[i], n, t), now[i])
                    if ty == "music" or ty == "details" : want[i] = now[i]
                elif op in ("copy", "asg"): want[i] = slot[k]
                elif op == "swap": want[i], want[k] = slot[k], slot[i]
                elif op == "move": want[k] = slot[i]
                elif op == "masg": want[k] = slot[i]; want[i] = ""
                elif op == "del": want[i] = ""
            elif op == "mut": want[i] = now[i]
            if now != want:
                b = next(x for x in range(4) if now[x] != want[x])
                return "after step '%s' on %s objects, object %d is %r where it should be %r" % (what, ty, b, now[b][:120], want[b][:120])
            slot = now
        return None
    return j

def lib_files(rng, k):
    v = []
    for _ in range(k):
        kind = rng.choice(["lite", "stream", "ms", "cc", "cc", "xml"])
        recs = [L.Rec(L.some_method(rng), L.some_name(rng)) for _ in range(rng.choice([0, 1, 2, 3, 8]))]
        fn = "lib"; b = 0
        if kind in ("lite", "stream"): text, _ = L.lite(rng, [r for r in recs if r.full], b, True)
        elif kind == "ms": fn, text, _ = L.ms(rng, recs)
        elif kind == "cc": text, _ = L.cc(rng, recs)
        else: text, _ = L.xml(rng, recs)
        if isinstance(text, bytes): text = text.decode("latin-1")
        else: text = text.encode("utf-8").decode("latin-1")
        if rng.random() < .9: text = garble(rng, text, ALPHA["lib"], [text])
        if rng.random() < .2: lines = text.split("\n"); rng.shuffle(lines); text = "\n".join(lines)
        if rng.random() < .05: text = text.replace("\n", "\r\n")
        if len(text) > 60000: text = text[:60000]
        how = rng.choice([kind] * 4 + ["auto", "auto"] + ["lite", "ms", "cc", "xml"]) if kind != "stream" else "stream"
        m = L.some_method(rng)
        q = [rng.choice(["title\x01" + L.some_name(rng), "meth\x01%d\x01%s" % (m[0][0], ".".join(map(R.cs, m))), "again", "kept", "two", "dir", "load\x01" + L.some_name(rng) + "\x018"]) for _ in range(rng.choice([0, 1, 3]))]
        if how == "stream": q = []
        v.append(("lib", how, str(rng.choice([0, 0, 0, 8, 6, 5, 12])), str(rng.randrange(2)), fn, text) + tuple(q))
    return v

def lib_histories(rng, k):
    v = []
    for _ in range(k):
        st = []
        for _ in range(rng.randint(4, 25)):
            op = rng.choice("lite set copy swap self del begin begin next next next at itcopy all title meth load dir".split()) if st else rng.choice(["lite", "set"])
            n = 6; t = ""
            if op == "lite": t = "\n".join("%s %s" % (L.pn_text(rng, L.some_method(rng, n)), L.some_name(rng)) for _ in range(rng.choice([0, 1, 3])))
            elif op == "set": t = " ".join(L.pn_text(rng, L.some_method(rng, n)) for _ in range(rng.choice([0, 1, 3])))
            elif op == "title": t = "M%d Surprise Minor" % rng.randrange(3)
            elif op == "meth": t = L.pn_text(rng, L.some_method(rng, n))
            elif op == "load": t = "M0"
            st.append("\x01".join([op, str(rng.randrange(4)), str(rng.randrange(4)), str(n), t]))
        v.append(("libhist",) + tuple(st))
    return v

def others(rng, k):
    """text reaching the writers: titles, names, printed text"""
    v = []
    for _ in range(k):
        x = rng.random(); m = L.some_method(rng, None, None, 12)
        nm = hostile(rng, L.some_name(rng), list("abc ()\\<>&\"'%$\x80\xe9\xc3\xff\n\t")).replace("\x01", "").replace("\0", "")
        if x < .5: v.append(("libout", rng.choice(["xml", "multi"] + ["%d%d" % (a, b) for a in (0, 1) for b in range(5)]), "%d\x01%s\x01%s" % (m[0][0], ".".join(map(R.cs, m)), nm)))
        else:
            nm = nm.replace("|", "")
            v.append(("printm", rng.choice(["ps", "pdf", "eps 0 0 100 100"]), str(m[0][0]), ".".join(map(R.cs, m)), "defaults=", "text=%s|%s|%d|0.5|10|20|%d" % (nm, rng.choice(["Times-Roman", "Helvetica", "ZapfDingbats", nm[:20] or "X", "Times-Bold"]), rng.choice([0, 80, 120, 1000]), rng.randrange(3)),
                      "rows=%d" % rng.choice([0, 1, 5, 50]), "rpc=%d" % rng.choice([1, 5, 50]), "cps=%d" % rng.choice([1, 2, 5]), "spp=%d" % rng.choice([1, 2])))
    return v

def run(ctx):
    ctx.need("driver"); rng = ctx.rng
    ctx.rule = ("hostile text (good text garbled, symbols at random, random bytes, extreme numbers, very long text) into every parser and library reader, and histories of copies, self-assignments, swaps, moves, changes "
                "and destructions of 17 value types and of library handles, under address and undefined-behaviour sanitizers; each repeated with memory differently filled, and a part again under memcheck. "
                "Only the object a step is applied to may change. Non-trivial: distinct inputs answered other than by refusing them at once")
    cmds = texts(rng, ctx.n(9000, 150000)) + lib_files(rng, ctx.n(1500, 20000)) + lib_histories(rng, ctx.n(500, 6000)) + others(rng, ctx.n(500, 5000))
    hists = [history(rng) for _ in range(ctx.n(2500, 40000))]
    memo = {}; ev = []; seen = {}
    def keep(c):
        def j(o):
            seen[c] = list(o); ctx.count("text " + c[1] if c[0] == "text" else c[0])
            if c[0] == "text": ctx.count("refused" if o and o[0] == "!" else "accepted")
            if o and o[0] == "?" and c[0] != "text": return "driver does not know this"
        return j
    for c in cmds: ev.append((c, keep(c), "|".join(c)[:3000]))
    for c in hists:
        jh = judge_history(c, memo)
        def j(o, c=c, jh=jh): seen[c] = list(o); ctx.count("history " + c[1]); ctx.count("steps", len(c) - 2); ctx.count("steps refused", o.count("!")); return jh(o)
        ev.append((c, j, "|".join(c)))
    ctx.events(ev)
    if ctx.full(): return
    # the same with other rubbish in uninitialised memory
    w = ("env", "ASAN_OPTIONS=" + SAN_ENV["ASAN_OPTIONS"] + ":malloc_fill_byte=0:max_malloc_fill_size=65536:max_free_fill_size=65536:free_fill_byte=7")
    every = list(seen)
    def same(how):
        def mk(c):
            def j(o):
                ctx.count(how)
                if list(o) != seen[c]:
                    i = next((i for i, (x, y) in enumerate(zip(o, seen[c])) if x != y), -1)
                    return "gives a different result with different rubbish in memory: %r, then %r" % (seen[c][i][:100] if seen[c] else None, list(o)[i][:100] if o else None)
            return j
        return mk
    a = same("repeated"); ctx.events([(c, a(c), None) for c in every], wrap=w)
    if ctx.full(): return
    ctx.need("driver", flavour="vg")
    part = [c for c in every if sum(map(len, c)) < 4000]; rng.shuffle(part); part = part[:ctx.n(2000, 20000)]
    a = same("memcheck")
    ctx.events([(c, a(c), None) for c in part], flavour="vg", wrap=("valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=77", "--leak-check=no"))
    ctx.minimum.update({"accepted": 2500, "refused": 1500, "lib": 1000, "libhist": 400, "libout": 150, "printm": 150, "steps": 20000, "repeated": 8000, "memcheck": 1500})
    for t in TYPES: ctx.minimum["history " + t] = 60
    for t in KIND: ctx.minimum["text " + t] = 150
