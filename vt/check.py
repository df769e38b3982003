"""Running checks: events through the driver, programs, verdicts, evidence."""
import json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
from . import build as B

VERIF = B.VERIF
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:"
                    "detect_stack_use_after_return=1:max_allocation_size_mb=4096:hard_rss_limit_mb=4000:"
                    "handle_abort=1:check_initialization_order=1",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:halt_on_error=1",
}
BASE_ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TERM": "dumb", "LANG": "C"}


def esc(s):
    if isinstance(s, bytes):
        s = s.decode("latin-1")
    out = []
    for c in str(s):
        o = ord(c)
        if c == "\\": out.append("\\\\")
        elif o < 32 or o > 126: out.append("\\x%02x" % (o & 255))
        else: out.append(c)
    return "".join(out)

_un = re.compile(r"\\(x[0-9a-f]{2}|.)")
def unesc(s):
    return _un.sub(lambda m: chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == "x" and len(m.group(1)) == 3 else m.group(1), s)


class Crash:
    """The process executing an event died instead of producing an observation."""
    def __init__(self, kind, where, text):
        self.kind, self.where, self.text = kind, where, text
    def __repr__(self):
        return "Crash(%s at %s)" % (self.kind, self.where)


def diagnose(err, rc):
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m: kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if not kind and m2:
        kind = "ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:80]
    m3 = re.search(r"Assertion '([^\n]*)' failed", err)
    if m3: kind = "assert-" + m3.group(1)[:60]
    m4 = re.search(r"terminate called[^\n]*\n?[^\n]*", err)
    if m4 and not m3: kind = "terminate-" + m4.group(0).replace("\n", " ")[:100]
    m5 = re.search(r"(?m)^==\d+== (Conditional jump|Use of uninit|Invalid (?:read|write|free)|Syscall param|Source and dest|Mismatched free|Argument)[^\n]*", err)
    if not kind and m5: kind = "memcheck-" + m5.group(1)
    if not kind: kind = "exit-%s" % rc
    where = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S+?):(\d+)", err):
        if m.group(2).startswith(B.REPO + "/"):
            where = "%s (%s:%s)" % (m.group(1)[:80], m.group(2)[len(B.REPO) + 1:], m.group(3))
            break
    return kind, where


def frames(text):
    """the stack frames inside the repository and the drivers"""
    out = [l for l in text.split("\n") if "runtime error" in l or "Assertion" in l or "ERROR:" in l]
    out += [l.strip() for l in text.split("\n") if re.match(r"\s*#\d+ ", l) and (B.REPO in l or "/drivers/" in l)]
    return "\n".join(x[:300] for x in out[:12]) or text[-600:]


class Obs(list):
    """Observation: the list of fields the driver recorded for one event."""
    @property
    def exc(self):
        return len(self) > 0 and self[0] == "!E"


class Result:
    def __init__(self, rc, out, err, timed_out=False):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out
    @property
    def crashed(self):
        return (not self.timed_out) and (self.rc < 0 or self.rc == 99 or self.rc >= 128)
    def lines(self):
        return self.out.split("\n")[:-1] if self.out.endswith("\n") else self.out.split("\n")


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.viols = []
        self.knowns = {}
        self.lock = threading.RLock()
        self.rule = ""
        self.assumptions = []
        self.minimum = {}
        self.scratch = tempfile.mkdtemp(prefix="vt-%s-" % prop)
        self.bins = {}
        self.known_list = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known_list = [k for k in json.load(open(kf))["findings"]
                               if k["property"] == prop and k["status"] == "known"]
        self.stop_at = 25
        self.hangs = 0          # confirmed hangs: after the first, time limits are short and undecided cases are dropped
        self.slow = 0

    # ---- sizes
    @property
    def thorough(self):
        return self.tier == "thorough"
    def n(self, quick, thorough=None):
        if not self.thorough:
            return quick
        return quick * 10 if thorough is None else thorough

    # ---- building
    def need(self, *targets, flavour="san"):
        r = B.build(list(targets), flavour)
        for k, v in r.items():
            self.bins[(k, flavour)] = v
        return r

    # ---- verdicts
    def bad(self, sig, detail, replay=None):
        with self.lock:
            for k in self.known_list:
                if k["sig"] == sig:
                    self.knowns.setdefault(k["sig"], k)
                    return
            if len(self.viols) < 200:
                self.viols.append((sig, detail, replay))
    def ok_case(self, key=None, nontrivial=True):
        with self.lock:
            self.evals += 1
            if nontrivial and key is not None:
                self.distinct.add(hashlib.blake2b(str(key).encode(), digest_size=8).digest())
    def count(self, name, k=1):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + k
    def sample(self, s, limit=8):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s if not isinstance(s, str) else s[:600])
    def full(self):
        return len(self.viols) >= self.stop_at

    # ---- driver events
    def _run_shard(self, binary, cmds, shard, wrap, tmo):
        """cmds: list of (index, fields). Returns {index: Obs|Crash}."""
        res = {}
        todo = list(cmds)
        crashes = hangs = 0
        if self.hangs: tmo = min(tmo, 20)
        d = tempfile.mkdtemp(dir=self.scratch)
        env = dict(BASE_ENV); env.update(SAN_ENV); env["HOME"] = d
        while todo:
            inf, outf, errf = (os.path.join(d, x) for x in ("in", "out", "err"))
            with open(inf, "w") as f:
                for _, c in todo:
                    f.write("\t".join(esc(x) for x in c) + "\n")
            timed_out = False
            with open(errf, "wb") as ef:
                p = subprocess.Popen(wrap + [binary, inf, outf], stdin=subprocess.DEVNULL,
                                     stdout=ef, stderr=ef, cwd=d, env=env)
                try: resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
                except OSError: pass
                # progress-based watchdog: only a single event taking > tmo is a hang
                last, lastt = -1, time.time()
                while True:
                    try:
                        rc = p.wait(timeout=0.2 if timed_out is False else 5); break
                    except subprocess.TimeoutExpired:
                        sz = os.path.getsize(outf) if os.path.exists(outf) else 0
                        if sz != last:
                            last, lastt = sz, time.time()
                        elif time.time() - lastt > tmo:
                            timed_out = True
                            p.kill()
            lines = open(outf, errors="replace").read().split("\n") if os.path.exists(outf) else [""]
            done = lines[:-1]
            for (i, _), l in zip(todo, done):
                res[i] = Obs(unesc(x) for x in l.split("\t"))
            k = len(done)
            if rc == 0 and k == len(todo):
                break
            if k >= len(todo):
                # died after the last event (e.g. in a static destructor)
                err = open(errf, errors="replace").read()
                kind, where = diagnose(err, rc)
                res[todo[-1][0]] = Crash(kind, where, err[-3000:])
                break
            err = open(errf, errors="replace").read()
            if rc == 3 and "driver:" in err:
                raise RuntimeError(err)
            if timed_out:
                res[todo[k][0]] = Crash("hang", "?", "no observation within %ss" % tmo)
            else:
                kind, where = diagnose(err, rc)
                res[todo[k][0]] = Crash(kind, where, err[-3000:])
            crashes += 1; hangs += timed_out
            todo = todo[k + 1:]
            if crashes > 12 or hangs >= (1 if self.hangs else 2):      # enough to know; the rest is not observed
                for i, _ in todo:
                    res[i] = None
                break
        shutil.rmtree(d, ignore_errors=True)
        return res

    def observe(self, cmds, flavour="san", wrap=(), tmo=60, shards=8):
        binary = self.bins[("driver", flavour)]
        cmds = list(cmds)
        parts = [[] for _ in range(min(shards, max(1, len(cmds))))]
        for i, c in enumerate(cmds):
            parts[i % len(parts)].append((i, c))
        res = {}
        with ThreadPoolExecutor(len(parts)) as ex:
            for r in ex.map(lambda p: self._run_shard(binary, p, 0, list(wrap), tmo), parts):
                res.update(r)
        # a hang is believed only if it repeats alone with a longer limit
        hung = [i for i, r in res.items() if isinstance(r, Crash) and r.kind == "hang"]
        with ThreadPoolExecutor(4) as ex:
            again = list(ex.map(lambda i: (i, self._run_shard(binary, [(i, cmds[i])], 0, list(wrap), tmo * 3)[i]), hung[:4] if not self.hangs else []))
        for i in hung: res[i] = None
        for i, r in again:
            res[i] = r
            if isinstance(r, Crash) and r.kind == "hang": self.hangs += 1
        return [res.get(i) for i in range(len(cmds))]

    def events(self, evs, **kw):
        """evs: iterable of (fields, judge, key). judge(obs) -> None | complaint string
        | (signature, complaint)."""
        evs = list(evs)
        obs = self.observe([e[0] for e in evs], **kw)
        for (cmd, judge, key), o in zip(evs, obs):
            if o is None:
                continue
            if isinstance(o, Crash):
                with self.lock:
                    key2 = "crash %s at %s" % (o.kind, o.where)
                    self.places = getattr(self, "places", {})
                    self.places[key2] = self.places.get(key2, 0) + 1
                    many = self.places[key2] > 3
                if many and self.viols:
                    self.ok_case(key); continue
                self.bad("crash:%s:%s" % (cmd[0], "|".join(map(str, cmd[1:]))[:200]),
                         "%s at %s executing %r\n%s" % (o.kind, o.where, cmd, frames(o.text)),
                         {"event": list(cmd), "crash": o.kind, "where": o.where})
                self.ok_case(key)
                continue
            try:
                c = judge(o)
            except Exception:
                c = "observation could not be interpreted: %r\n%s" % (list(o)[:20], traceback.format_exc()[-800:])
            self.ok_case(key, key is not None)
            if c:
                sig = "%s:%s" % (cmd[0], "|".join(map(str, cmd[1:]))[:200])
                if isinstance(c, tuple):
                    sig, c = c
                self.bad(sig, "%s\n  event: %r\n  observed: %r" % (c, list(cmd), list(o)[:40])[:3000],
                         {"event": list(cmd), "complaint": c, "observed": list(o)})
            elif key is not None and len(self.samples) < 8 and (self.evals % 997 == 1 or self.evals < 3):
                self.sample({"event": [str(x)[:200] for x in cmd], "observed": [str(x)[:200] for x in o[:12]]})

    # ---- programs
    def run(self, app, args, stdin="", env=None, cwd=None, timeout=60, flavour="san", wrap=()):
        binary = self.bins[(app, flavour)]
        d = cwd or tempfile.mkdtemp(dir=self.scratch)
        e = dict(BASE_ENV); e.update(SAN_ENV); e["HOME"] = d
        if env: e.update(env)
        if isinstance(stdin, str):
            stdin = stdin.encode("latin-1")
        r = None
        for t in (timeout, timeout * 3) if not self.hangs else (min(timeout, 20),):
            with tempfile.TemporaryFile(dir=self.scratch) as fo, tempfile.TemporaryFile(dir=self.scratch) as fe:
                p = subprocess.Popen(list(wrap) + [binary] + [a if isinstance(a, bytes) else a.encode("latin-1") for a in args],
                                     stdin=subprocess.PIPE, stdout=fo, stderr=fe, cwd=d, env=e, start_new_session=True)
                # a program that prints for ever is stopped by the kernel
                try: resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (512 << 20, 512 << 20))
                except OSError: pass
                try:
                    p.communicate(stdin, timeout=t)
                    if p.returncode == -signal.SIGXFSZ: r = Result(-9, "", "", True); break
                    fo.seek(0); fe.seek(0)
                    r = Result(p.returncode, fo.read().decode("latin-1"), fe.read().decode("latin-1"))
                    break
                except subprocess.TimeoutExpired:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: pass
                    p.communicate()
                    r = Result(-9, "", "", True)
        if cwd is None:
            shutil.rmtree(d, ignore_errors=True)
        return r

    def app(self, app, args, stdin="", **kw):
        """Runs a program; a crash or a repeatable hang is itself a violation."""
        r = self.run(app, args, stdin, **kw)
        sin = stdin if isinstance(stdin, str) else stdin.decode("latin-1")
        rep = {"program": app, "args": [str(a) for a in args], "stdin": sin[:5000]}
        sig = "%s %s <<< %s" % (app, " ".join(str(a) for a in args), sin[:150])
        if r.timed_out:
            with self.lock:
                self.hangs += 1; self.slow += 1
                if self.slow >= 12: self.stop_at = 0
            if self.viols and self.slow > 8: return None
            self.bad("hang:" + sig, "%s did not end\n args=%r\n stdin=%r" % (app, args, sin[:500]), rep)
            return None
        if r.crashed:
            kind, where = diagnose(r.err, r.rc)
            self.bad("crash:" + sig, "%s: %s at %s\n args=%r\n stdin=%r\n%s" %
                     (app, kind, where, args, sin[:500], r.err[-1500:]), rep)
            return None
        return r

    def appbad(self, app, args, stdin, r, complaint, sig=None):
        sin = stdin if isinstance(stdin, str) else stdin.decode("latin-1")
        self.bad(sig or "%s %s <<< %s" % (app, " ".join(map(str, args)), sin[:150]),
                 "%s\n  %s %r\n  stdin=%r\n  rc=%s out=%r err=%r" %
                 (complaint, app, list(args), sin[:800], r.rc, r.out[:800], r.err[:400]),
                 {"program": app, "args": [str(a) for a in args], "stdin": sin,
                  "complaint": complaint, "rc": r.rc, "out": r.out[:5000], "err": r.err[:2000]})

    def map(self, fn, items, workers=8):
        items = list(items)
        def g(x):
            if self.full():
                return None
            try:
                return fn(x)
            except Exception:
                with self.lock:
                    self.errors = getattr(self, "errors", []) + [traceback.format_exc()]
                return None
        with ThreadPoolExecutor(workers) as ex:
            res = list(ex.map(g, items))
        if getattr(self, "errors", None):
            raise RuntimeError("monitor error:\n" + self.errors[0])
        return res

    # ---- end of run
    def finish(self, level="exploration"):
        for sig, k in sorted(self.knowns.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
                           "rule": self.rule, "samples": self.samples,
                           "observed": dict(sorted(self.counts.items()))},
              "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.viols)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.viols:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, (sig, detail, replay) in enumerate(self.viols[:10]):
                p = os.path.join(rd, "%s-%d.json" % (self.prop, i))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "signature": sig, "detail": detail,
                               "replay": replay}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("   " + detail[:int(os.environ.get("VT_DETAIL","900"))].replace("\n", "\n   "))
            print("%d violations" % len(self.viols))
            return 1
        low = [(k, v, self.counts.get(k, 0)) for k, v in self.minimum.items() if self.counts.get(k, 0) < v]
        if self.evals == 0 or not self.distinct or low:
            print("CHECK ERROR: too little was observed: evaluations=%d distinct=%d %s" %
                  (self.evals, len(self.distinct), low))
            return 2
        print("ok property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs %s" %
              (self.prop, self.evals, len(self.distinct), wall, json.dumps(self.counts, sort_keys=True)))
        return 0


def main(argv):
    # room for the larger stack frames of the sanitized programs
    try:
        import resource
        h = resource.getrlimit(resource.RLIMIT_STACK)[1]; want = 256 << 20
        if h == resource.RLIM_INFINITY or h >= want: resource.setrlimit(resource.RLIMIT_STACK, (want, h))
    except (ValueError, OSError): pass
    import importlib
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + prop.lower())
    ctx = Ctx(prop, tier, seed)
    try:
        mod.run(ctx)
    except B.BuildError as e:
        print("CHECK ERROR: build failed\n" + str(e))
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    except BaseException:
        traceback.print_exc()
        if ctx.viols:            # what was seen before the monitor broke still counts
            return ctx.finish()
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv))
