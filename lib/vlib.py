"""Building bfs from /repo, running it in a sandbox, and calling TLC."""
import atexit, ctypes, glob, json, os, re, shutil, signal, stat, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
UID = GID = 65534
JOBS = os.cpu_count() or 4
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The machinery (not bfs) failed."""


class Slow(Broken):
    pass


_scratch = None


def scratch():
    """A scratch directory for this process, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="bfsv-", dir="/tmp")
        os.chmod(_scratch, 0o755)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(2))
    return _scratch


_shm = None


def shm():
    """A scratch directory on another device, or None."""
    global _shm
    if _shm is None:
        _shm = ""
        try:
            d = tempfile.mkdtemp(prefix="bfsv-", dir="/dev/shm")
            os.chmod(d, 0o755)
            if os.stat(d).st_dev != os.stat(scratch()).st_dev:
                _shm = d
                pid = os.getpid()
                atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
            else:
                os.rmdir(d)
        except OSError:
            pass
    return _shm


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def copy_sources(dest):
    files = subprocess.run(["git", "-C", REPO, "-c", "safe.directory=*", "ls-files", "-z", "--cached",
                            "--others", "--exclude-standard"],
                           stdout=subprocess.PIPE, check=True).stdout.split(b"\0")
    keep = [f for f in files if re.match(rb"(src/|build/|bench/|configure|Makefile|tests/|config)", f)]
    for f in keep:
        s = os.path.join(os.fsencode(REPO), f)
        if not os.path.isfile(s):
            continue
        d = os.path.join(os.fsencode(dest), f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(s, d, follow_symlinks=False)


def build(name="bfs", conf=(), target="bin/bfs"):
    """Build bfs from /repo's working tree in the scratch directory; returns the source directory."""
    d = os.path.join(scratch(), "src-" + name)
    if os.path.exists(os.path.join(d, ".done")):
        return d
    os.makedirs(d, exist_ok=True)
    copy_sources(d)
    r = sh(["./configure", "CC=gcc", *conf], cwd=d)
    if r.returncode != 0:
        raise Broken("configure failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    r = sh(["make", "-j%d" % JOBS, target], cwd=d)
    if r.returncode != 0:
        raise Broken("build failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    open(os.path.join(d, ".done"), "w").close()
    return d


def bfs_binary():
    d = os.path.join(scratch(), "bin")
    out = os.path.join(d, "bfs")
    if not os.path.exists(out):
        src = build()
        os.makedirs(d, exist_ok=True)
        shutil.copy2(os.path.join(src, "bin", "bfs"), out)
        for src_, args in (("vh.c", ["-O1", "-static", "-o", os.path.join(d, "vh")]),
                           ("shim.c", ["-O1", "-shared", "-fPIC", "-o", os.path.join(d, "shim.so"), "-ldl"])):
            r = sh(["gcc", os.path.join(HARNESS, src_)] + args)
            if r.returncode != 0:
                raise Broken("helper build failed:\n" + r.stdout.decode())
        os.chmod(d, 0o755)
    return out


# ---------------------------------------------------------------------------
# TLC

def tlc(module, cfg=None, env=None, workers=1, timeout=800, heap="2g", extra=(), workdir=None):
    """Run TLC; returns its output (text).  Raises Broken on a failure that is not a verdict."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    if cfg and "\n" in cfg:
        cfgpath = os.path.join(meta, "model.cfg")
        with open(cfgpath, "w") as f:
            f.write(cfg)
    else:
        cfgpath = os.path.join(SPEC, (cfg or module) + ".cfg")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + meta,
           "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", cfgpath, *extra, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired as x:
        raise Slow("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def tlc_stats(out):
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def tlc_ok(rc, out):
    return rc == 0 and "Model checking completed. No error has been found." in out


# ---------------------------------------------------------------------------
# Reading file system state

class _StatxTs(ctypes.Structure):
    _fields_ = [("sec", ctypes.c_int64), ("nsec", ctypes.c_uint32), ("pad", ctypes.c_int32)]


class _Statx(ctypes.Structure):
    _fields_ = [("mask", ctypes.c_uint32), ("blksize", ctypes.c_uint32), ("attr", ctypes.c_uint64),
                ("nlink", ctypes.c_uint32), ("uid", ctypes.c_uint32), ("gid", ctypes.c_uint32),
                ("mode", ctypes.c_uint16), ("p0", ctypes.c_uint16), ("ino", ctypes.c_uint64),
                ("size", ctypes.c_uint64), ("blocks", ctypes.c_uint64), ("attrmask", ctypes.c_uint64),
                ("at", _StatxTs), ("bt", _StatxTs), ("ct", _StatxTs), ("mt", _StatxTs),
                ("p1", ctypes.c_uint32 * 32), ("p2", ctypes.c_uint64 * 32)]


_libc = ctypes.CDLL(None, use_errno=True)


def statx(path):
    b = _Statx()
    r = _libc.statx(-100, ctypes.c_char_p(path), 0x100, 0xfff, ctypes.byref(b))
    if r != 0:
        e = ctypes.get_errno()
        raise OSError(e, os.strerror(e), path)
    return b


def wide(n):
    return [n >> 20, n & 0xfffff]


def instant(sec, nsec):
    return [sec // 86400, sec % 86400, nsec]


TYPES = {stat.S_IFREG: "f", stat.S_IFDIR: "d", stat.S_IFLNK: "l", stat.S_IFIFO: "p",
         stat.S_IFSOCK: "s", stat.S_IFCHR: "c", stat.S_IFBLK: "b"}


_long = {}


def sp(p):
    """A name for path p that fits into PATH_MAX."""
    while len(p) > 3000:
        cut = p.rindex(b"/", 0, 3000)
        pre = p[:cut]
        if pre not in _long:
            _long[pre] = os.open(pre, os.O_PATH | os.O_DIRECTORY)
        p = b"/proc/self/fd/%d/%s" % (_long[pre], p[cut + 1:])
    return p


def sp_reset():
    for fd in _long.values():
        os.close(fd)
    _long.clear()


xattrs_used = True


def xattrs(path):
    try:
        return os.listxattr(path, follow_symlinks=False)
    except OSError:
        return []


_prog = [None, 0]


def prog_size(path=None):
    """The size of the helper command (no other file of a test case is that large)."""
    if path:
        _prog[:] = [path, os.stat(path).st_size]
    return _prog[1]


def prog_path():
    return _prog[0]


class Snapshot:
    """The inode table of the directories `tops`, as the specification's fs value."""

    def __init__(self, tops, cwd, fake={}):
        self.nodes, self.byid, self.devs, self.fake = [], {}, {}, fake
        self.paths = []
        self.abs = []
        for t in tops:
            self.abs.append({"p": list(t), "n": self.add(t, 0)})
        self.cwd = self.byid[self.key(cwd)]

    @staticmethod
    def key(p):
        s = os.lstat(p)
        return (s.st_dev, s.st_ino)

    def add(self, p, up):
        q = sp(p)
        b = statx(q)
        s = os.lstat(q)
        k = (s.st_dev, s.st_ino)
        if k in self.byid:
            return self.byid[k]
        t = TYPES[stat.S_IFMT(b.mode)]
        sdev = os.makedev(0, 7000 + self.fake[k]) if k in self.fake else s.st_dev
        dev = self.devs.setdefault(sdev, len(self.devs) + 1)
        n = {"t": t, "dev": dev, "devw": wide(sdev), "ino": wide(b.ino), "nlink": b.nlink, "uid": b.uid,
             "gid": b.gid, "mode": b.mode & 0o7777, "size": wide(b.size), "blk": wide(b.blocks),
             "at": instant(b.at.sec, b.at.nsec), "mt": instant(b.mt.sec, b.mt.nsec),
             "ct": instant(b.ct.sec, b.ct.nsec), "bt": instant(b.bt.sec, b.bt.nsec) if b.mask & 0x800 else [0, 0, 0],
             "kids": [], "tgt": list(os.readlink(q)) if t == "l" else [], "up": up}
        xa = [x for x in xattrs(q) if not x.startswith("trusted.")] if xattrs_used else []
        n["xa"] = [list(x.encode()) for x in xa]
        n["acl"] = any(x.startswith("system.posix_acl") for x in xa)
        n["cap"] = "security.capability" in xa
        n["prog"] = t == "f" and b.size == prog_size()
        self.nodes.append(n)
        self.paths.append(p)
        i = self.byid[k] = len(self.nodes)
        if t == "d":
            for name in sorted(os.listdir(q)):
                n["kids"].append({"n": list(name), "i": self.add(os.path.join(p, name), i)})
        return i

    def entries(self):
        return {(i + 1, bytes(k["n"])): k["i"] for i, n in enumerate(self.nodes) for k in n["kids"]}

    def value(self):
        return {"nodes": self.nodes, "cwd": self.cwd, "abs": self.abs, "uid": UID, "gid": GID}


def gone(before, after):
    """Directory entries removed since `before`; anything else that changed is reported under directory 0."""
    ids = {}
    inv = {v: k for k, v in before.byid.items()}
    b, res = before.entries(), []
    akey = {v: k for k, v in after.byid.items()}
    a = {}
    for (d, n), c in after.entries().items():
        a[(akey[d], n)] = akey[c]
    for (d, n), c in b.items():
        k = (inv[d], n)
        if k not in a:
            res.append({"d": d, "n": list(n)})
        else:
            if a[k] != inv[c]:
                res.append({"d": 0, "n": list(n)})
            del a[k]
    for (d, n) in a:
        res.append({"d": 0, "n": list(n)})
    # entries of directories that are themselves gone do not count separately
    live = set(after.byid)
    res2 = []
    for r in res:
        if r["d"] == 0 or inv[r["d"]] in live:
            res2.append(r)
        else:
            res2.append(r)
    for k, i in before.byid.items():
        if k in after.byid:
            x, y = before.nodes[i - 1], after.nodes[after.byid[k] - 1]
            for f in ("t", "uid", "gid", "mode", "tgt") + (("size", "mt") if x["t"] == "f" else ()):
                if x[f] != y[f]:
                    res2.append({"d": 0, "n": list(os.path.basename(before.paths[i - 1]))})
                    break
    return res2


def parse_vhlog(data):
    recs, i = [], 0
    while i < len(data):
        j = data.index(b"\n", i)
        _, dev, ino, fds, n = data[i:j].split()
        i = j + 1
        argv = []
        for _ in range(int(n)):
            j = data.index(b"\n", i)
            k = int(data[i:j])
            argv.append(data[j + 1:j + 1 + k])
            i = j + 2 + k
        recs.append((int(dev), int(ino), int(fds), argv))
    return recs


def split_errors(err):
    # (with -color, there are escape sequences around the words)
    parts = err.split(b"bfs: error: ") if b"bfs: error: " in err else re.split(rb"(?s)bfs:.{0,50}? .{0,50}?error:.{0,50}? ", err)
    return [list(p) for p in parts[1:]]


def rmtree(p):
    subprocess.run(["rm", "-rf", "--", p])


def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or JOBS) as ex:
        return list(ex.map(f, xs))


_fun = None


def _call(x):
    return _fun(x)


def procmap(f, xs, n=None):
    """Like pmap, in separate processes (f may be any callable: the workers are forked)."""
    global _fun
    xs = list(xs)
    n = min(n or JOBS, len(xs))
    if n <= 1:
        return [f(x) for x in xs]
    import multiprocessing
    _fun = f
    # The workers are ended by SIGTERM, which must not wait for the interpreter
    with multiprocessing.get_context("fork").Pool(n, signal.signal, (signal.SIGTERM, signal.SIG_DFL)) as pool:
        return pool.map(_call, xs, chunksize=max(1, min(16, len(xs) // (n * 4))))
