"""Offline, content-addressed build of the harnesses from /repo's working tree.

Objects are keyed by the compile command and by the contents of every file the
compiler read (from the depfile), so neither timestamps nor a copied tree can
make a stale object look fresh.
"""
import hashlib, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

_hash_cache = {}
_lock = threading.Lock()


class BuildError(Exception):
    pass


def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    with _lock:
        h = _hash_cache.get(key)
    if h is None:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
        with _lock:
            _hash_cache[key] = h
    return h


def _deps(depfile):
    try:
        text = open(depfile).read()
    except OSError:
        return []
    text = text.replace("\\\n", " ")
    out = []
    for line in text.split("\n"):
        if ":" in line:
            line = line.split(":", 1)[1]
        out += [p.replace("\0", " ") for p in line.replace("\\ ", "\0").split()]
    # system headers do not change between runs of one sandbox image
    return sorted({os.path.normpath(p) for p in out
                   if not p.startswith("/usr/")})


def _key(cmd, deps):
    h = hashlib.sha256()
    h.update("\0".join(cmd).encode())
    for d in deps:
        h.update(d.encode())
        h.update(fhash(d).encode())
    return h.hexdigest()


def compile_one(src, obj, cmd):
    """cmd: compiler and flags. Returns True if it compiled, False if up to date."""
    meta = obj + ".meta"
    try:
        m = json.load(open(meta))
        if os.path.exists(obj) and m["key"] == _key(cmd + [src], m["deps"]):
            return False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    tmp = obj + ".tmp%d" % os.getpid()
    full = cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp]
    p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, p.stdout[-6000:]))
    os.replace(tmp, obj)
    deps = _deps(dep)
    json.dump({"key": _key(cmd + [src], deps), "deps": deps}, open(meta, "w"))
    return True


def objects(flavor, srcs, flags_of):
    """Compile all srcs in parallel; flags_of(src) is the command. Returns the objects."""
    jobs = []
    for s in srcs:
        rel = s.lstrip("/").replace("/", "__")
        jobs.append((s, os.path.join(OUT, flavor, rel + ".o"), flags_of(s)))
    # the largest translation units first
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0)
    errs, n = [], 0
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_one, *j) for j in order]
        for f in futs:
            try:
                n += bool(f.result())
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs[:3]))
    if n:
        print("[build] %s: compiled %d of %d" % (flavor, n, len(jobs)), flush=True)
    return [j[1] for j in jobs]


def archive(path, objs):
    key = hashlib.sha256("\0".join(o + fhash(o) for o in objs).encode()).hexdigest()
    meta = path + ".meta"
    if os.path.exists(path) and os.path.exists(meta) and open(meta).read() == key:
        return path
    tmp = path + ".tmp%d" % os.getpid()
    if os.path.exists(tmp):
        os.unlink(tmp)
    subprocess.check_call(["ar", "crsT" if False else "crs", tmp] + objs)
    os.replace(tmp, path)
    open(meta, "w").write(key)
    return path


def link(path, objs, libs, ldflags, cxx):
    cmd = [cxx] + ldflags + objs + libs
    key = hashlib.sha256(("\0".join(cmd) + "\0".join(
        fhash(o) for o in objs + [l for l in libs if l.startswith("/")])).encode()).hexdigest()
    meta = path + ".meta"
    if os.path.exists(path) and os.path.exists(meta) and open(meta).read() == key:
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if p.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (path, p.stdout[-6000:]))
    os.replace(tmp, path)
    open(meta, "w").write(key)
    return path
