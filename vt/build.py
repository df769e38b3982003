"""Builds /repo's working tree (library, programs) and the drivers, instrumented.

Objects are cached by the *content* of everything that went into them, so a
changed source file is always recompiled whatever its time stamp says.
Nothing is written outside /verif/build.
"""
import hashlib, json, os, subprocess, sys, glob, shutil, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VT_JOBS", "8"))

CXX = "g++"
COMMON = ["-w", "-pipe", "-I" + REPO, "-I" + os.path.join(VERIF, "config"),
          "-I" + os.path.join(REPO, "apps/utils")]
FLAVOURS = {
    # value-checking + memory-checking build: the deciding build
    "san": ["-g1", "-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
            "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
    # uninstrumented build for valgrind memcheck
    "vg": ["-g1", "-O1", "-fno-omit-frame-pointer", "-fno-inline-functions"],
}
GDOME = ["-I/usr/include/libgdome", "-I/usr/include/glib-2.0",
         "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include", "-I/usr/include/libxml2"]
LIBS = ["-lgdome", "-lglib-2.0", "-lxml2", "-lreadline", "-lncurses"]
LIB_EXCLUDE = {"dom_xerces.cpp", "dom_stub.cpp"}
APPS = ["extent", "fextent", "gsiril", "methodlib", "methsearch", "musgrep",
        "printmethod", "psline", "ringmethod", "rowcalc", "spliceplan",
        "splices", "touchsearch"]


class BuildError(Exception):
    pass


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p); h.update(b"\0")
    return h.hexdigest()[:32]


_fcache = {}
def _fhash(path):
    if path not in _fcache:
        try:
            with open(path, "rb") as f:
                _fcache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _fcache[path] = "missing"
    return _fcache[path]


def _interesting(path):
    return path.startswith(REPO + "/") or path.startswith(VERIF + "/")


def _compile(src, flags):
    """Returns the object file for src, compiling only if its content key is new."""
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    base = _h(src, *flags)
    depf = os.path.join(odir, base + ".deps")
    def key(deps):
        return _h(base, *[d + "=" + _fhash(d) for d in deps])
    if os.path.exists(depf):
        deps = json.load(open(depf))
        obj = os.path.join(odir, key(deps) + ".o")
        if os.path.exists(obj):
            return obj
    tmpd = tempfile.mkdtemp(dir=odir)
    try:
        o, d = os.path.join(tmpd, "o.o"), os.path.join(tmpd, "o.d")
        r = subprocess.run([CXX] + flags + ["-MD", "-MF", d, "-c", src, "-o", o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-3000:]))
        txt = open(d).read().replace("\\\n", " ")
        deps = sorted({os.path.normpath(x) for x in txt.split(":", 1)[1].split()
                       if _interesting(os.path.normpath(x))})
        obj = os.path.join(odir, key(deps) + ".o")
        os.replace(o, obj)
        with open(d, "w") as f:
            json.dump(deps, f)
        os.replace(d, depf)
        return obj
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)


def _flags(flavour):
    return COMMON + FLAVOURS[flavour]


def _lib_jobs(flavour):
    out = []
    for s in sorted(glob.glob(os.path.join(REPO, "ringing/*.cpp"))):
        n = os.path.basename(s)
        if n in LIB_EXCLUDE:
            continue
        f = _flags(flavour)
        if n == "dom_gdome.cpp":
            f = f + GDOME
        if n == "pdf_fonts.cpp":
            f = [x if x != "-O1" else "-O0" for x in f]
        out.append((s, f))
    return out


def _init_dat():
    """gsiril's init.dat, generated as the project's makefile does."""
    a, b = os.path.join(REPO, "apps/gsiril/escape.awk"), os.path.join(REPO, "apps/gsiril/init/gsiril.init")
    d = os.path.join(BUILD, "gen", _h(_fhash(a), _fhash(b)))
    if not os.path.exists(os.path.join(d, "init.dat")):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(["awk", "-f", a, b], stdout=subprocess.PIPE, check=True)
        t = os.path.join(d, "init.dat.%d" % os.getpid())
        with open(t, "wb") as f:
            f.write(r.stdout)
        os.replace(t, os.path.join(d, "init.dat"))
    return d


def _app_jobs(app, flavour):
    out = []
    for s in sorted(glob.glob(os.path.join(REPO, "apps/utils/*.cpp"))):
        out.append((s, _flags(flavour)))
    for s in sorted(glob.glob(os.path.join(REPO, "apps", app, "*.cpp"))):
        f = _flags(flavour)
        if app == "gsiril":
            f = f + ["-I" + _init_dat()]
        out.append((s, f))
    return out


def _driver_jobs(flavour):
    return [(s, _flags(flavour) + ["-I" + os.path.join(VERIF, "drivers")])
            for s in sorted(glob.glob(os.path.join(VERIF, "drivers/*.cpp")))]


def _link(objs, flavour, name, as_lib=()):
    k = _h(name, flavour, *objs, *as_lib, *FLAVOURS[flavour])
    d = os.path.join(BUILD, "bin", k)
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    libs = []
    tmp = out + ".%d" % os.getpid()
    if as_lib:
        ar = tmp + ".a"
        subprocess.run(["ar", "crs", ar] + list(as_lib), check=True)
        libs = [ar]
    try:
        r = subprocess.run([CXX] + FLAVOURS[flavour] + list(objs) + libs + LIBS + ["-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-3000:]))
        os.replace(tmp, out)
    finally:
        for l in libs:
            if os.path.exists(l):
                os.unlink(l)
    return out


def build(targets, flavour="san"):
    """targets: 'driver' and/or program names.  Returns {target: path}."""
    os.makedirs(BUILD, exist_ok=True)
    _fcache.clear()
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        jobs = {"lib": _lib_jobs(flavour)}
        for t in targets:
            jobs[t] = _driver_jobs(flavour) if t == "driver" else _app_jobs(t, flavour)
        flat = {}
        for js in jobs.values():
            for s, f in js:
                flat[(s, tuple(f))] = None
        # biggest first
        order = sorted(flat, key=lambda k: -os.path.getsize(k[0]))
        with ThreadPoolExecutor(JOBS) as ex:
            for k, o in zip(order, ex.map(lambda k: _compile(k[0], list(k[1])), order)):
                flat[k] = o
        libobjs = [flat[(s, tuple(f))] for s, f in jobs["lib"]]
        def lk(t):
            objs = [flat[(s, tuple(f))] for s, f in jobs[t]]
            if t == "driver":
                return t, _link(objs, flavour, "driver", libobjs)
            own = [flat[(s, tuple(f))] for s, f in jobs[t] if "/apps/utils/" not in s]
            utl = [flat[(s, tuple(f))] for s, f in jobs[t] if "/apps/utils/" in s]
            return t, _link(own, flavour, t, utl + libobjs)
        with ThreadPoolExecutor(JOBS) as ex:
            res = dict(ex.map(lk, targets))
        _prune()
        return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _prune(limit=3 << 30):
    """Keep the cache bounded: drop the oldest files when it grows too big."""
    files = []
    for root, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(root, f)
            try:
                st = os.stat(p)
                files.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    tot = sum(f[1] for f in files)
    if tot <= limit:
        return
    for m, s, p in sorted(files):
        if p.endswith(".lock"):
            continue
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s
        if tot <= limit * 0.6:
            break


if __name__ == "__main__":
    fl = "san"
    ts = sys.argv[1:] or ["driver"] + APPS
    import time
    t = time.time()
    for k, v in build(ts, fl).items():
        print(k, v)
    print("%.1fs" % (time.time() - t))
