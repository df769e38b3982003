"""C33: the sound ringmethod writes is the sound of the rows it was given."""
import cmath, concurrent.futures as cf, math, random, struct
from vt import ring as R

SEMI = [11, 9, 7, 5, 4, 2, 0]                       # a major scale, from the leading note down to the keynote
PARTIALS = [(1 / 4, .5), (1 / 2, 2.5), (2 ** (-9 / 12), 2.5), (2 ** (-5 / 12), 2.5), (1, 2.5)]   # hum, prime, tierce, quint, nominal; and decay

def pitches(n, tenor):
    """The nominals of the bells, treble first: a major scale ending on the tenor."""
    return [tenor * 2 ** ((n - 1 - b) // 7) * 2 ** (SEMI[6 - (n - 1 - b) % 7] / 12) for b in range(n)]

def note(ampl, freq, rate, length):
    """One blow: five partials, each a sine which starts at zero and dies away."""
    w = [0.0] * length
    for m, decay in PARTIALS:
        om = 2 * math.pi * freq * m / rate; z = cmath.exp(complex(-decay, 2 * math.pi * freq * m) / rate); d = math.exp(-decay / rate)
        c = ampl * d * cmath.exp(complex(0, math.pi / 2 + 2 * om))
        for k in range(length): w[k] += c.real; c *= z
    return w

def times(rows, n, sep, rate, gap, off):
    """When each bell strikes, in samples; None if too near the boundary between two samples to tell."""
    ev = []
    for j, r in enumerate(rows):
        for i, b in enumerate(r):
            x = (i + j * n + (j // 2) * gap + off.get(b, (0, 0))[j % 2]) * (sep * rate)
            if x > 0 and abs(x - round(x)) < 1e-6: 
                if x > 1e-3 and x != round(x): return None
            ev.append((int(x) if x > 0 else 0, b, j, i))
    return ev

def waveform(n, tenor, rate, ev, total):
    strikes = [[] for _ in range(n)]
    for t, b, _, _ in ev: strikes[b].append(t)
    s = [0.0] * total
    for b, f in enumerate(pitches(n, tenor)):
        v = sorted(strikes[b]); v = [t for t in v if t < total]
        if not v: continue
        ends = v[1:] + [total]; w = note(1.02 ** (b + 1), f, rate, max(e - t for t, e in zip(v, ends)))
        for t, e in zip(v, ends):
            for k in range(e - t): s[t + k] += w[k]
    return s

def judge(job):
    """Compares the samples with the waveform; returns (complaint or None, facts)."""
    n, tenor, rate, ev, data, last = job
    if len(data) % 2: return "half a sample at the end", 0
    got = struct.unpack("<%dh" % (len(data) // 2), data)
    if ev is None: return None, 0
    total = last + 5 * rate
    if abs(len(got) - total) > 1: return "%d samples, not %d: the sound should end five seconds after the last blow" % (len(got), total), 0
    want = waveform(n, tenor, rate, ev, len(got)); loud = 0
    for t, (g, w) in enumerate(zip(got, want)):
        w = max(-32768, min(32767, w * 1000)); loud += abs(w) > 200
        if abs(g - w) > 2.01:
            near = [x for x in ev if x[0] <= t]; near = max(near) if near else None
            return "sample %d (%.4f s) is %d, not %.1f; the latest blow there is %s" % (t, t / rate, g, w, near and "bell %d at sample %d (row %d, place %d)" % (near[1] + 1, near[0], near[2] + 1, near[3] + 1)), 0
    return None, loud

def header(out, rate):
    if len(out) < 44: return "no header"
    h = struct.unpack("<4sI4s4sIHHIIHH4sI", out[:44]); want = (b"RIFF", 0xffffffff, b"WAVE", b"fmt ", 16, 1, 1, rate, rate * 2, 2, 16, b"data", 0xffffffff)
    names = ["tag", "length", "format", "chunk", "chunk length", "encoding", "channels", "sample rate", "byte rate", "block align", "bits", "data tag", "data length"]
    for a, b, c in zip(h, want, names):
        if a != b and not (c in ("length", "data length") and a == (36 if c == "length" else 0) + len(out) - 44): return "header: %s is %r, not %r" % (c, a, b)
    return None

def jitter(job):
    """Finds where each blow of a single bell fell: the sound between two blows is known exactly."""
    tenor, rate, sep, gap, k, data, dev, mean = job
    got = struct.unpack("<%dh" % (len(data) // 2), data); w = note(1.02, tenor, rate, len(got) + 8); cur = None; dev_seen = []
    pos = lambda j: (j + (j // 2) * gap) * sep * rate
    t = 0; last = 0; found = []
    while t < len(got):
        exp = 0 if cur is None else w[t - cur] * 1000
        if abs(got[t] - exp) > 2.01:
            # a new blow, which began here or up to a few samples ago
            for back in range(0, 6):
                if t - back < 0 or cur == t - back: continue
                if all(abs(got[t - back + i] - w[i] * 1000) <= 2.01 for i in range(min(12, len(got) - t + back))): cur = t - back; found.append(cur); break
            else: return "sample %d is neither the last blow dying away nor a new one" % t, None
        t += 1
    if len(found) != k: return "%d blows heard, not %d" % (len(found), k), None
    return None, [(f + .5 - pos(j)) / (sep * rate) for j, f in enumerate(found)]

def run(ctx):
    ctx.need("ringmethod"); jobs = []; pool = cf.ProcessPoolExecutor(8)
    list(pool.map(abs, range(8)))
    ctx.rule = ("rows of a touch rung, single rows, short rows and repeated rows on one to sixteen bells, with sample rates, peal speeds, frequencies, handstroke gaps and "
                "offsets given in every form; the whole waveform compared sample by sample with one computed from first principles. With deviations, each blow of a single "
                "bell found in the sound, and the spread of the times compared. Non-trivial: distinct runs whose sound is heard and compared in full")
    def one(k):
        rng = random.Random("%s/%d" % (ctx.seed, k)); n = rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 8, 8, 10, 12, 13, 14, 15, 16]); rate = rng.choice([500, 997, 1500, 2000, 3001, 4000, 5507, 8000])
        mins = rng.choice([180, 150, 60, 200, 45]); tenor = rng.choice([587, 440, 300, 880, 123])
        if n > 8: mins = min(mins, 180)
        sep = mins * 60 / 2500 / (2 * n + 1)
        if sep * rate < 6: rate = 8000
        nr = rng.choice([1, 2, 3, 4, 5, 7, 8])
        while nr > 1 and nr * n * sep > 14: nr -= 1
        m = rng.choice([n, n, n, n - 1, max(1, n - 2)]) or 1
        rows = []; r = list(range(m))
        for _ in range(nr):
            if rng.random() < .1: pass
            elif rng.random() < .5: rng.shuffle(r)
            else:
                i = rng.randrange(2)
                while i + 1 < m: r[i], r[i + 1] = r[i + 1], r[i]; i += 2
            rows.append(tuple(r))
        if rng.random() < .15 and m > 2:             # a shorter row among the others
            rows[rng.randrange(nr)] = tuple(rng.sample(range(m - 1), m - 1))
        text = rng.choice(["\n", "\n", " ", "\n\n"]).join(R.rs(x) for x in rows) + rng.choice(["\n", ""])
        rows = [x + tuple(range(len(x), n)) for x in rows]
        a = [rng.choice(["-b%d", "-b%d", "--bells=%d"]) % n, rng.choice(["-r%d", "--sample-rate=%d"]) % rate]; gap = 1.0; off = {}
        if mins != 180 or rng.random() < .4:
            sp = ["%d" % mins, "%dm" % mins, "%dh%d" % divmod(mins, 60), "%dh%02dm" % divmod(mins, 60), "%d:%02d" % divmod(mins, 60)] + (["%dh" % (mins // 60)] if mins % 60 == 0 else [])
            a.append(rng.choice(["-s", "--peal-speed="]) + rng.choice(sp))
        if tenor != 587 or rng.random() < .3: a.append(rng.choice(["-f", "--frequency="]) + str(tenor))
        if rng.random() < .5: gap = rng.choice([0, .5, 1, 1.5, 2, 3]); a.append(rng.choice(["-h", "--handstroke-lead="]) + "%g" % gap)
        if rng.random() < .3: a.append(rng.choice(["-d0", "--deviation=0.0"]))
        if rng.random() < .5:
            for b in rng.sample(range(n), min(n, rng.choice([1, 1, 2]))):
                nm = rng.choice([R.SYM[b], str(b + 1)])
                x, y = rng.choice([.1, .25, -.2, .4, -.3]), rng.choice([.1, 0, -.15, .35])
                # a blow must not be due before the one its bell struck previously, nor wait for its row to be read
                f = rng.choice(["%s=%g", "%s=%g,0", "%s=%g;%g", "%s=%g,0;%g,0"]) 
                if f.count("%g") == 1: off[b] = (x, x); s = f % (nm, x)
                else: off[b] = (x, y); s = f % (nm, x, y)
                a.append(rng.choice(["-o", "--offset="]) + s)
        elif n > 2 and rng.random() < .3:            # two neighbours strike together
            i = rng.randrange(n - 2); x, y = rows[rng.randrange(nr)][i:i + 2]
            off[x] = (.5, .5); off[y] = (-.5, -.5); a += ["-o%d=.5" % (x + 1), "-o%d=-.5" % (y + 1)]
        ev = times(rows, n, sep, rate, gap, off)
        if ev is None: return
        # a row is taken up only when the previous one has been struck: anything due before that is not decided here
        lastof = {}
        for t, b, j, i in ev: lastof[j] = max(lastof.get(j, 0), t)
        if any(j and t <= lastof[j - 1] + 2 for t, b, j, i in ev): ctx.count("left out: bells due before the previous row is finished"); return
        inord = [x for x in ev if x[2] == nr - 1]; last = max(t for t, *_ in inord if True)
        if inord[-1][0] != last: ctx.count("left out: the last bell is not the last to strike"); return
        r = ctx.app("ringmethod", a, text)
        if r is None: return
        data = r.out.encode("latin-1")
        if r.rc or r.err: ctx.appbad("ringmethod", a, text, r, "exit status %d: %r" % (r.rc, r.err[-200:])); return
        h = header(data, rate)
        if h: ctx.appbad("ringmethod", a, text, None, h); return
        c, loud = pool.submit(judge, (n, tenor, rate, ev, data[44:], last)).result()
        if c: ctx.appbad("ringmethod", a, text, None, c); return
        if loud < 50: ctx.count("hardly heard"); return
        ctx.count("blows", len(ev)); ctx.count("samples compared", (len(data) - 44) // 2); ctx.count("%d bells" % n if n < 9 else "nine to sixteen bells")
        if off: ctx.count("with offsets")
        if len({t for t, *_ in ev}) < len(ev): ctx.count("blows together")
        if gap != 1: ctx.count("with other handstroke gaps")
        ctx.ok_case("%s %s" % (a, text))
    ctx.map(one, range(ctx.n(600, 8000)))
    def spread(k):
        rng = random.Random("%s/spread/%d" % (ctx.seed, k)); rate = rng.choice([1500, 2000]); dev = rng.choice([.05, .08, .1]); mean = rng.choice([0, 0, .1]); gap = rng.choice([0, 1, 2]); nr = 60
        mins = rng.choice([20, 25]); sep = mins * 60 / 2500 / 3; seed = rng.randrange(1, 100000)
        how = rng.choice([["-d%g" % dev] + (["-o1=%g" % mean] if mean else []), ["-o1=%g,%g" % (mean, dev)], ["-d.5", "-o1=%g,%g;%g,%g" % (mean, dev, mean, dev)]])
        a = ["-b1", "-r%d" % rate, "-s%d" % mins, "-h%d" % gap, "--seed=%d" % seed] + how; text = "1\n" * nr
        r = ctx.app("ringmethod", a, text)
        if r is None: return
        r2 = ctx.app("ringmethod", a, text)
        if r2 is None: return
        if r.rc or r.err or r.out != r2.out: ctx.appbad("ringmethod", a, text, r, "exit status %d; two runs with the same seed %s" % (r.rc, "differ" if r.out != r2.out else "agree")); return
        c, v = pool.submit(jitter, (587, rate, sep, gap, nr, r.out.encode("latin-1")[44:], dev, mean)).result()
        if c: ctx.appbad("ringmethod", a, text, None, c); return
        v = v[2:]                                     # times before the start are brought up to it
        mu = sum(v) / len(v); sd = math.sqrt(sum((x - mu) ** 2 for x in v) / (len(v) - 1)); N = len(v)
        if abs(mu - mean) > 6.5 * dev / math.sqrt(N) + .01: ctx.appbad("ringmethod", a, text, None, "blows %.3f late on average, not %g" % (mu, mean)); return
        if not dev * .45 < sd < dev * 1.65 + .005: ctx.appbad("ringmethod", a, text, None, "the times deviate by %.3f, not %g" % (sd, dev)); return
        ctx.count("spreads measured"); ctx.count("blows found in the sound", nr); ctx.ok_case("%s spread" % a)
    ctx.map(spread, range(ctx.n(16, 120)))
    def long(k):
        rng = random.Random("%s/long/%d" % (ctx.seed, k)); n = rng.choice([3, 4, 6]); bad = tuple(rng.sample(range(n + 1), n + 1)); good = [tuple(rng.sample(range(n), n)) for _ in range(rng.randrange(3))]
        text = "".join(R.rs(x) + "\n" for x in good + [bad] + good); r = ctx.app("ringmethod", ["-b%d" % n, "-r600"], text)
        if r is None: return
        if r.rc != 1 or not r.err.strip(): ctx.appbad("ringmethod", ["-b%d" % n], text, r, "a row on too many bells was not refused"); return
        ctx.count("rows refused"); ctx.ok_case(text)
    ctx.map(long, range(ctx.n(8, 40)))
    def silent(k):
        r = ctx.app("ringmethod", ["-b6", "-r%d" % (600 + k)], "\n" * k)
        if r is None: return
        d = r.out.encode("latin-1")
        if r.rc or header(d, 600 + k) or any(d[44:]): ctx.appbad("ringmethod", ["-b6"], "", r, "no rows should make no sound"); return
        ctx.count("no rows at all")
    ctx.map(silent, range(3)); pool.shutdown()
    ctx.minimum.update({"blows": 3000, "samples compared": 500000, "with offsets": 40, "with other handstroke gaps": 40, "spreads measured": 12, "blows together": 4, "rows refused": 8, "6 bells": 10, "7 bells": 4, "nine to sixteen bells": 20})
