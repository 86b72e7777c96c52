"""Test cases: a tree plan, a command line and an environment; how they are
materialised, run and turned into the specification's input."""
import struct, errno, json, multiprocessing, os, random, resource, signal, socket, stat, subprocess, threading, time
from vlib import *

T0 = 1784000000      # 2026-07-14: reference for generated timestamps


# ---------------------------------------------------------------------------
# Tree plans.  A plan is a list of entries, each a dict:
#   p: path (tuple of names) below c/, t: f d l p s h, mode, uid, gid, size, mt, at, tgt (bytes), to (path, for h)

NASTY = [b"a b", b"x\ny", b"-print", b"*", b"[a]", b"q?", b"'", b'"', b"\\", b"\xff\xfe", b"$v", b"`c`", b"t\tb",
         b"\xc3\xa9", b"(", b"!", b"..x", b"{}", b"a:b", b";", b",", b"@", b"-", b"\x01", b"%p", b"a]b", b"\x7f",
         b"...", b"....", b"..", b". ", b"~", b"#", b"a=b", b"\xe2\x82", b"\xf0\x9f\x98\x80", b"N" * 255, b"m" * 120, b" ", b"a\\nb", b"-L", b"--",
         b"]", b"[!a]", b"\xc3", b"a\rb", b"\x1b[31m", b"^", b"+1", b"x'y", b"a\"b"]
NASTY.remove(b"..")
PLAIN = [b"a", b"b", b"c", b"d", b"e", b"A", b"B", b"ab", b"abc", b"a.c", b"x.txt", b"y.TXT", b".h", b".hid", b"foo",
         b"bar", b"Foo", b"aa", b"aab", b"b.c.d", b"z", b"0", b"10", b"9", b"long-name-here"]


def wpick(rng, d):
    ks = list(d)
    return rng.choices(ks, [d[k] for k in ks])[0]


def gen_tree(rng, o):
    n = rng.randint(*o.get("n", (3, 14)))
    maxdepth = o.get("depth", 4)
    plan = [{"p": (b"w",), "t": "d", "mode": 0o755, "uid": UID, "gid": GID}]
    dirs = [(b"w",)]
    used = {(b"w",)}
    if o.get("outside"):
        plan.append({"p": (b"x",), "t": "d", "mode": 0o755, "uid": UID, "gid": GID})
        dirs.append((b"x",))
        used.add((b"x",))
    kinds = dict(o.get("kinds", {"f": 5, "d": 5, "l": 1}))
    files = []
    for _ in range(n):
        d = rng.choice(dirs[-4:] if rng.random() < o.get("deep", 0.4) else dirs)
        name = rng.choice(NASTY) if rng.random() < o.get("nasty", 0.15) else rng.choice(PLAIN)
        if rng.random() < o.get("collide", 0.0):
            name = rng.choice([b"a", b"b", b"ab"])
        p = d + (name,)
        if p in used:
            continue
        t = wpick(rng, kinds)
        if t == "d" and len(p) > maxdepth + 1:
            t = "f"
        if t == "h" and not files:
            t = "f"
        if t == "s" and sum(map(len, p)) > 40:
            t = "p"
        e = {"p": p, "t": t, "uid": UID, "gid": GID, "mode": 0o755 if t == "d" else 0o644}
        used.add(p)
        if t == "d":
            dirs.append(p)
        if t == "f":
            files.append(p)
        if t == "h":
            e["to"] = rng.choice(files)
        plan.append(e)
    if rng.random() < o.get("chain", 0.08):
        # one or two long chains of directories
        for _ in range(rng.choice([1, 1, 2])):
            p = rng.choice(dirs)
            for _ in range(rng.randint(o.get("chainmin", 4), o.get("chainlen", 14))):
                p = p + (rng.choice(o.get("chainnames", [b"a", b"b", b"n", b"..x", b"c" * 30])),)
                if p in used:
                    if p not in dirs:
                        p = p[:-1]
                    continue
                used.add(p)
                dirs.append(p)
                plan.append({"p": p, "t": "d", "uid": UID, "gid": GID, "mode": 0o755})
                if rng.random() < .3 and p + (b"f",) not in used:
                    used.add(p + (b"f",))
                    plan.append({"p": p + (b"f",), "t": "f", "uid": UID, "gid": GID, "mode": 0o644})
            if rng.random() < o.get("chainlink", .3):
                q = p + (b"lnk",)
                if q not in used:
                    used.add(q)
                    up = rng.randint(0, len(p) - 1)
                    plan.append({"p": q, "t": "l", "uid": UID, "gid": GID, "mode": 0o777, "tgt": b"/".join([b".."] * up) or b"."})
    if rng.random() < o.get("wide", 0.04):
        d = rng.choice(dirs)
        for i in range(rng.choice([10, 20, 40])):
            p = d + (b"%s%d" % (rng.choice([b"w", b"v" * 40, b"."]), i),)
            if p not in used:
                used.add(p)
                plan.append({"p": p, "t": rng.choice("fffd"), "uid": UID, "gid": GID, "mode": 0o755})
    for e in plan:
        t = e["t"]
        top = len(e["p"]) == 1
        if not top and rng.random() < o.get("modes", 0.0) and t != "l":
            e["mode"] = rng.choice([0o644, 0o600, 0o755, 0o700, 0o777, 0o444, 0o640, 0o4755, 0o2755, 0o1777, 0o000,
                                    0o111, 0o222, 0o6711, 0o7777, 0o1644, 0o2644, 0o4644, rng.randrange(0o10000)])
            if t == "d":
                e["mode"] |= 0o555
        if not top and t == "d" and rng.random() < o.get("noperm", 0.0):
            e["mode"] = rng.choice([0o000, 0o444, 0o111, 0o600, 0o311, 0o644, 0o200])
        if not top and t == "d" and rng.random() < o.get("nowrite", 0.0):
            e["mode"] = 0o555
        if not top and rng.random() < o.get("owners", 0.0):
            e["uid"] = rng.choice([0, 1, 2, 12345, UID, 0, 54321, 1234567890])
            e["gid"] = rng.choice([0, 1, 2, 12345, GID, 0, 4, 123456789])
        if t == "f":
            if rng.random() < o.get("sizes", 0.0):
                e["size"] = rng.choice([0, 1, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 5000, 1 << 20, (1 << 20) + 1,
                                        (1 << 20) - 1, 3 << 20, 1 << 30, (1 << 30) + 1, 1 << 40, (1 << 40) - 1, 700, 100,
                                        1536, 2047, rng.randrange(8000)])
            elif rng.random() < 0.3:
                e["size"] = rng.randrange(1, 20)
        if t in "fd" and not top and rng.random() < o.get("xattrs", 0.0):
            e["xa"] = gen_xattrs(rng, e)
        if rng.random() < o.get("times", 0.0):
            base = rng.choice([T0, T0 - 86400, T0 - 3600 * 26, T0 - 60 * 7, T0 - 86400 * 40, T0 - 86400 * 400, 0, 86399,
                               951782400, 1709164800, -100000, T0 + 3600, T0 - 86400 * 7, -86401 * 365 * 3])
            e["mt"] = (base + rng.choice([0, 0, 1, -1, rng.randrange(-90000, 90000)])) * 10**9 \
                + rng.choice([0, 0, 1, 999999999, rng.randrange(10**9)])
            e["at"] = (T0 + rng.choice([0, -86400, 3600 * 30, 5, rng.randrange(-200000, 200000)])) * 10**9 \
                + rng.choice([0, 1, rng.randrange(10**9)])
        if t == "l" and "tgt" not in e:
            e["tgt"] = gen_target(rng, e["p"], plan, o)
    for e in plan:
        if e["t"] == "f" and rng.random() < o.get("progs", 0.0):
            e["prog"], e["mode"] = True, rng.choice([0o755, 0o755, 0o711, 0o500, 0o644])
    if rng.random() < o.get("mounts", 0.0):
        ds = [e for e in plan if e["t"] == "d" and len(e["p"]) > 1]
        for e in rng.sample(ds, min(len(ds), rng.choice([1, 1, 2, 3]))):
            e["mnt"] = rng.choice([1, 1, 2, 3])
    return plan


def mounts(plan, c):
    """The inodes below pretended mount points, with their pretended device."""
    res = {}
    for e in plan:
        if e.get("mnt") and os.path.isdir(sp(os.path.join(c, *e["p"]))):
            todo = [os.path.join(c, *e["p"])]
            while todo:
                p = todo.pop()
                st = os.lstat(sp(p))
                res[st.st_dev, st.st_ino] = e["mnt"]
                if stat.S_ISDIR(st.st_mode):
                    todo += [os.path.join(p, n) for n in os.listdir(sp(p))]
    return res


def acl(mode, named):
    """An access control list that grants the owner, the owning group and others what the mode does."""
    u, g, o = mode >> 6 & 7, mode >> 3 & 7, mode & 7
    ent = lambda tag, perm, i=0xffffffff: struct.pack("<HHI", tag, perm, i)
    return struct.pack("<I", 2) + ent(1, u) + (ent(2, 4, 12345) if named else b"") + ent(4, g) + (ent(16, g) if named else b"") + ent(32, o)


def gen_xattrs(rng, e):
    xa = []
    for k in rng.sample(range(5), rng.choice([1, 1, 2])):
        if k <= 1:
            xa.append(("user." + rng.choice(["t", "a", "tt"]), rng.choice([b"", b"1"])))
        elif k == 2:
            xa.append(("system.posix_acl_access", acl(e["mode"], rng.random() < .7)))
        elif k == 3 and e["t"] == "d":
            xa.append(("system.posix_acl_default", acl(0o750, rng.random() < .5)))
        elif k == 4 and e["t"] == "f":
            xa.append(("security.capability", bytes.fromhex("0100000200040000000000000000000000000000")))
    return xa


def relto(src, dst):
    """A relative path from the directory holding src to dst (both below c/)."""
    return b"/".join([b".."] * (len(src) - 1) + list(dst)) or b"."


def gen_target(rng, p, plan, o):
    k = wpick(rng, o.get("targets", {"any": 6, "broken": 2, "self": 1, "up": 1, "notdir": 1, "abs": 1, "dev2": 0, "chain": 1}))
    pick = rng.choice(plan)["p"]
    links = [e["p"] for e in plan if e["t"] == "l"]
    dirs = [e["p"] for e in plan if e["t"] == "d"]
    files = [e["p"] for e in plan if e["t"] == "f"]
    if k == "any":
        q = rng.choice(dirs) if rng.random() < 0.5 else pick
        if q[:-1] == p[:-1]:
            return q[-1]
        r = relto(p, q)
        return r + (b"/" if rng.random() < 0.1 else b"")
    if k == "broken":
        return rng.choice([b"nowhere", b"../none", b"a/b/c/nope", b"/nonexistent-path"])
    if k == "self":
        return p[-1]
    if k == "up":
        return rng.choice([b".", b"..", b"./", b"../."]) if len(p) > 2 else b"."
    if k == "deep":
        q = relto(p, pick)
        return q + rng.choice([b"/nope", b"/a/nope", b"//", b"/a//b/", b"/../nope", b"/./" + rng.choice(PLAIN)])
    if k == "notdir" and files:
        return relto(p, rng.choice(files)) + b"/x"
    if k == "abs":
        return b"@ABS@/" + b"/".join(pick)
    if k == "dev2":
        return b"@SHM@" + rng.choice([b"", b"/s", b"/s/t", b"/g"])
    if k == "chain" and links:
        return relto(p, rng.choice(links))
    return rng.choice([b"nowhere", b"."])


def put_tree(plan, c, subst):
    """Create the plan below directory c (as root), then set attributes deepest first."""
    for e in plan:
        path = sp(os.path.join(c, *e["p"]))
        t = e["t"]
        if t == "d":
            os.mkdir(path)
        elif t == "f":
            fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o600)
            sz = e.get("size", 0)
            if e.get("prog"):
                with open(prog_path(), "rb") as f:
                    os.write(fd, f.read())
                sz = 0
            if sz and sz <= 8192 and not e.get("sparse"):
                os.write(fd, b"x" * sz)
            elif sz:
                os.ftruncate(fd, sz)
            os.close(fd)
        elif t == "l":
            os.symlink(subst(e["tgt"]), path)
        elif t == "p":
            os.mkfifo(path)
        elif t == "s":
            fd = os.open(os.path.dirname(path), os.O_RDONLY | os.O_DIRECTORY)
            s = socket.socket(socket.AF_UNIX)
            try:
                s.bind(b"/proc/self/fd/%d/%s" % (fd, e["p"][-1]))
            finally:
                s.close()
                os.close(fd)
        elif t == "h":
            os.link(sp(os.path.join(c, *e["to"])), path)
    for e in reversed(plan):
        path = sp(os.path.join(c, *e["p"]))
        if e["t"] == "h":
            continue
        if (e["uid"], e["gid"]) != (0, 0):
            os.chown(path, e["uid"], e["gid"], follow_symlinks=False)
        if e["t"] != "l":
            os.chmod(path, e["mode"])
        for k, v in e.get("xa", ()):
            try:
                os.setxattr(path, k, v, follow_symlinks=False)
            except OSError:
                pass                            # not supported here
    for e in reversed(plan):
        path = sp(os.path.join(c, *e["p"]))
        st = os.lstat(path)
        mt = e.get("mt", (T0 - 1000) * 10**9)
        at = e.get("at", mt)
        if e["t"] in "dl" or e.get("prog"):
            at = 1900000000 * 10**9 + 123     # in the future, so that reading does not change it
        os.utime(path, ns=(at, mt), follow_symlinks=False)


SHM_PLAN = [{"p": (b"s",), "t": "d", "mode": 0o755, "uid": UID, "gid": GID},
            {"p": (b"s", b"t"), "t": "d", "mode": 0o755, "uid": UID, "gid": GID},
            {"p": (b"s", b"u"), "t": "f", "mode": 0o644, "uid": UID, "gid": GID},
            {"p": (b"s", b"t", b"v"), "t": "f", "mode": 0o644, "uid": UID, "gid": GID},
            {"p": (b"g",), "t": "f", "mode": 0o644, "uid": UID, "gid": GID}]

USERS = [("root", 0), ("daemon", 1), ("bin", 2), ("nobody", 65534)]
GROUPS = [("root", 0), ("daemon", 1), ("bin", 2), ("adm", 4), ("nogroup", 65534)]


def accounts():
    import grp, pwd
    us, gs = [], []
    for u in pwd.getpwall():
        us.append({"n": list(u.pw_name.encode()), "id": u.pw_uid})
    for g in grp.getgrall():
        gs.append({"n": list(g.gr_name.encode()), "id": g.gr_gid})
    small = lambda xs: [x for x in xs if 0 <= x["id"] < 2**31]
    return small(us), small(gs)


_acc = None


def enc(x):
    """JSON encoding that keeps bytes and tuples."""
    if isinstance(x, bytes):
        return {"b": x.decode("latin-1")}
    if isinstance(x, tuple):
        return {"t": [enc(y) for y in x]}
    if isinstance(x, list):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {"d": [[enc(k), enc(v)] for k, v in x.items()]}
    return x


def dec(x):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        if "b" in x:
            return x["b"].encode("latin-1")
        if "t" in x:
            return tuple(dec(y) for y in x["t"])
        return {dec(k): dec(v) for k, v in x["d"]}
    return x


class Case:
    """argv: list of bytes or ("ino", path, prefix) tuples; @ABS@ and @SHM@ are substituted."""

    def __init__(self, plan, argv, **kw):
        self.plan, self.argv = plan, argv
        self.now = kw.get("now", T0 * 10**9)
        self.tz = kw.get("tz", (b"UTC", 0))           # name, seconds east
        self.umask = kw.get("umask", 0o22)
        self.stdin = kw.get("stdin", b"")
        self.streams = kw.get("streams", 1)           # number of output streams; stream k > 1 is ../../o/k
        self.spell = kw.get("spell", {})              # alternative spellings: bytes -> stream
        self.f0 = kw.get("f0", {})                    # file name -> contents, for -files0-from
        self.log = kw.get("log", 0)
        self.eager = kw.get("eager", False)
        self.badpath = kw.get("badpath", False)
        self.faults = kw.get("faults", [])            # (op, errname, k, visit path, path tuple)
        self.rlimit = kw.get("rlimit", 0)
        self.nouring = kw.get("nouring", False)
        self.delay = kw.get("delay", 0)
        self.env = kw.get("env", {})
        self.shm = kw.get("shm", False)
        self.tag = kw.get("tag", "")
        self.timeout = kw.get("timeout", 20)
        self.argmax = kw.get("argmax", ())            # (what sysconf() says, what execve() accepts): bytes of arguments
        self.ntmpl = kw.get("ntmpl", 0)               # fixed arguments of the only -exec ... +
        self.chunk = kw.get("chunk", 0)               # bytes per getdents()
        self.lsc, self.bfsc, self.noc = kw.get("lsc", b""), kw.get("bfsc", b""), kw.get("noc", b"")
        self.tty = kw.get("tty", False)               # standard output is a terminal
        self.full = kw.get("full", 0)                 # the stream that cannot be written to
        self.dtunk = kw.get("dtunk", 0)               # seed for hiding d_type

    def to_json(self):
        return {"argv_shown": self.pretty(), "case": enc(self.__dict__)}

    @staticmethod
    def from_json(d):
        c = Case([], [])
        c.__dict__.update(dec(d["case"]))
        return c

    def pretty(self):
        return "bfs " + " ".join(shquote(a) for a in self.argv)


def shquote(a):
    if isinstance(a, tuple):
        return "<%s of %s>" % (a[0], b"/".join(a[1]).decode(errors="replace"))
    s = a.decode("utf-8", "backslashreplace")
    if s and all(ch.isalnum() or ch in "-_./+=@%:," for ch in s):
        return s
    return "$" + repr(s) if any(ord(ch) < 32 for ch in s) else "'" + s.replace("'", "'\\''") + "'"


ERRNO = {n: getattr(errno, n) for n in ("EACCES", "EIO", "ENOENT", "ENOTDIR", "ELOOP", "ENOMEM", "EPERM", "ESTALE", "EMFILE")}


def followed(top, cap):
    """The number of files a walk of top that follows all links visits, up to cap."""
    n = 0

    def go(path, anc):
        nonlocal n
        try:
            st = os.stat(sp(path))
            names = os.listdir(sp(path))
        except OSError:
            return
        if (st.st_dev, st.st_ino) in anc:
            return
        for x in names:
            n += 1
            if n >= cap:
                return
            go(os.path.join(path, x), anc | {(st.st_dev, st.st_ino)})
    go(top, frozenset())
    return n


MAXOUT = 8 << 20                                # no run writes a bigger file
_bad = multiprocessing.Value("i", 0)            # runs that did not stop, or wrote too much


class Runner:
    """Materialises and runs cases; one directory per run."""

    def __init__(self, bfs=None):
        self.bfs = bfs or bfs_binary()
        self.base = os.path.join(scratch(), "runs")
        os.makedirs(self.base, exist_ok=True)
        self.bin = os.path.dirname(bfs_binary())
        prog_size(os.path.join(self.bin, "vh"))
        self.ctr = 0
        self.lock = threading.Lock()
        global _acc
        if _acc is None:
            _acc = accounts()
        self.users, self.groups = _acc

    def fresh(self):
        with self.lock:
            self.ctr += 1
            n = self.ctr
        d = os.path.join(self.base, "r%d-%d" % (os.getpid(), n))
        os.makedirs(os.path.join(d, "c"))
        os.makedirs(os.path.join(d, "o"))
        for x in (d, os.path.join(d, "c")):
            os.chmod(x, 0o755)
        os.chown(os.path.join(d, "o"), UID, GID)
        return os.fsencode(d)

    def run(self, case):
        """Run a case; returns the specification's input for it (with the observation)."""
        if _bad.value >= 8:
            return None         # this bfs runs away: what has been seen is enough
        d = self.fresh()
        c = os.path.join(d, b"c")
        sd = b""
        tops = [c]
        try:
            if case.shm:
                sd = os.path.join(os.fsencode(shm()), os.path.basename(d))
                os.mkdir(sd)
                os.chmod(sd, 0o755)
                tops.append(sd)
            subst = lambda b: b.replace(b"@ABS@", c).replace(b"@SHM@", sd or b"/nonexistent-shm").replace(b"@O@", os.path.join(d, b"o"))
            if case.shm:
                put_tree(SHM_PLAN, sd, subst)
            put_tree(case.plan, c, subst)
            w = os.path.join(c, b"w")
            if (b"-L" in case.argv or b"-follow" in case.argv) and followed(w, 250) >= 250:
                return None     # too many ways through the links
            fake = mounts(case.plan, c)
            before = Snapshot(tops, w, fake)
            argv = []
            for a in case.argv:
                if isinstance(a, tuple):
                    st = os.lstat(sp(os.path.join(c, *a[1])))
                    argv.append(a[2] + str(st.st_ino).encode())
                else:
                    argv.append(subst(a))
            E = self.environment(case, before, argv, d, subst)
            r = self.execute(case, d, w, argv, subst, fake)
            after = Snapshot(tops, w, fake)
            E["obs"] = self.observe(case, d, r, before, after)
            E["obs"]["fds"], E["obs"]["leak"] = r["fds"], r["leak"]
            if case.argmax:
                E["split"] = [max(1, len(x["a"]) - case.ntmpl) for x in E["obs"]["log"]]
            return E
        finally:
            sp_reset()
            rmtree(d)
            if sd:
                rmtree(sd)

    def environment(self, case, before, argv, d, subst):
        E = {"argv": [{"s": a.decode() if all(32 <= x < 127 for x in a) else "", "b": list(a)} for a in argv],
             "fs": before.value(), "users": self.users, "groups": self.groups,
             "now": instant(case.now // 10**9, case.now % 10**9), "off": case.tz[1], "tz": list(case.tz[0]),
             "umask": case.umask, "stdin": list(case.stdin),
             "files": [{"b": list(b"../../o/%d" % k), "k": k} for k in range(2, case.streams + 1)] +
                      [{"b": list(subst(n)), "k": k} for n, k in case.spell.items()],
             "f0": [{"b": list(subst(n)), "c": list(subst(v))} for n, v in case.f0.items()],
             "lsc": list(case.lsc), "bfsc": list(case.bfsc), "noc": list(case.noc), "tty": case.tty,
             "badpath": case.badpath, "split": [], "ns": case.streams, "full": case.full, "log": case.log, "eager": case.eager,
             "fst": [{"p": list(f[3]), "e": f[1]} for f in case.faults if f[0] == "stat"],
             "fop": [{"p": list(f[3]), "e": f[1]} for f in case.faults if f[0] == "open"],
             "frd": [{"p": list(f[3]), "e": f[1], "k": f[2]} for f in case.faults if f[0] == "read"]}
        return E

    def execute(self, case, d, w, argv, subst, fake={}):
        o = os.path.join(d, b"o")
        for n, v in case.f0.items():
            p = os.path.normpath(os.path.join(w, subst(n)))
            if not os.path.exists(p) and p.startswith(o):
                with open(p, "wb") as f:
                    f.write(subst(v))
        vhlog = os.path.join(d, b"vhlog")
        open(vhlog, "w").close()
        os.chmod(vhlog, 0o666)
        env = {"LC_ALL": "C", "PATH": ("bin:" if case.badpath else "") + self.bin, "VHLOG": os.fsdecode(vhlog),
               "TZ": tzenv(case.tz), "LD_PRELOAD": os.path.join(self.bin, "shim.so"),
               "VS_NOW": "%d.%09d" % (case.now // 10**9, case.now % 10**9),
               "VS_FDLOG": os.fsdecode(os.path.join(d, b"fdlog"))}
        fdlog = os.path.join(d, b"fdlog")
        open(fdlog, "w").close()
        os.chmod(fdlog, 0o666)
        if case.nouring or case.faults or fake:
            env["VS_NOURING"] = "1"
        if fake:
            env["VS_DEVS"] = ",".join("%d:%d:%d:%d" % (os.major(dv), os.minor(dv), i, k) for (dv, i), k in fake.items())
        if case.delay:
            env["VS_DELAY"] = str(case.delay)
        if case.faults:
            f = os.path.join(d, b"faults")
            with open(f, "wb") as fh:
                for op, en, k, _, rel in case.faults:
                    fh.write(b"%s %d %d %s\0" % (op.encode(), ERRNO[en], k, os.path.join(d, b"c", *rel)))
            env["VS_FAULTS"] = os.fsdecode(f)
        if case.chunk:
            env["VS_CHUNK"] = str(case.chunk)
        if case.dtunk:
            env["VS_DTUNK"] = str(case.dtunk)
        env.update(case.env)
        env.update({k: v for k, v in (("LS_COLORS", case.lsc), ("BFS_COLORS", case.bfsc), ("NO_COLOR", case.noc)) if v})
        if case.argmax:
            if case.argmax[1]:
                env["VS_ARGREAL"] = str(case.argmax[1])
            if case.argmax[0]:
                env["VS_ARGMAX"] = "00000"
                used = 6144 + 16 + sum(len(os.fsencode(k)) + len(os.fsencode(v)) + 2 + 8 for k, v in env.items())
                env["VS_ARGMAX"] = "%05d" % (used + case.argmax[0])
        cmd = [self.bfs] + argv
        if case.rlimit:
            cmd = ["/usr/bin/prlimit", "--nofile=%d:%d" % (case.rlimit, case.rlimit), "--"] + cmd
        so = os.path.join(o, b"1")
        sofd = os.open(so, os.O_RDWR | os.O_CREAT, 0o644)
        os.chown(so, UID, GID)
        ef = os.path.join(d, b"err")
        efd = os.open(ef, os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o644)
        lim = resource.getrlimit(resource.RLIMIT_FSIZE)
        outfd, tty = sofd, None
        if case.full == 1:
            outfd = os.open("/dev/full", os.O_WRONLY)
        elif case.full:
            os.symlink("/dev/full", os.path.join(o, b"%d" % case.full))
        if case.tty:
            tty, outfd = os.openpty()
            termios_raw(outfd)
            os.fchown(outfd, UID, GID)
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (MAXOUT, lim[1]))
            p = subprocess.Popen(cmd, cwd=w, env=env, stdin=subprocess.PIPE, stdout=outfd,
                                 stderr=efd, user=UID, group=GID, extra_groups=[], umask=case.umask,
                                 start_new_session=True)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, lim)
        if case.full == 1:
            os.close(outfd)
        if case.tty:
            os.close(outfd)
            reader = threading.Thread(target=copy_tty, args=(tty, sofd))
            reader.start()
        try:
            p.communicate(case.stdin, timeout=case.timeout)
            ret = p.returncode if p.returncode >= 0 else 256 - p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            ret = 999
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if case.tty:
            reader.join()
            os.close(tty)
        os.close(sofd)
        os.close(efd)
        with open(ef, "rb") as f:
            err = f.read()
        with open(so, "rb") as f:
            out = f.read()
        outs = [out]
        for k in range(2, case.streams + 1):
            if k == case.full:
                outs.append(b"")
                continue
            try:
                with open(os.path.join(o, b"%d" % k), "rb") as f:
                    outs.append(f.read())
            except OSError:
                outs.append(b"")
        big = [x for x in outs + [err] if len(x) > 1 << 19]
        if big:
            outs, err = [x[:1 << 12] for x in outs], err[:1 << 12]
            ret = 998
        if ret >= 998:
            with _bad.get_lock():
                _bad.value += 1
        with open(vhlog, "rb") as f:
            recs = parse_vhlog(f.read())
        return {"outs": outs, "err": err, "ret": ret, "recs": recs, "fds": max([r[2] for r in recs], default=0),
                "leak": sum(map(int, open(fdlog).read().split()))}

    def observe(self, case, d, r, before, after):
        log = []
        for dev, ino, fds, argv in r["recs"]:
            log.append({"c": before.byid.get((dev, ino), 0), "a": [list(a) for a in argv]})
        return {"outs": [list(x) for x in r["outs"]], "chunks": split_errors(r["err"]), "ret": r["ret"],
                "log": log, "gone": gone(before, after), "stderr": r["err"].decode("utf-8", "backslashreplace")[:600]}


def termios_raw(fd):
    import termios, tty
    tty.setraw(fd)


def copy_tty(src, dst):
    """Copy what is written to a pseudo-terminal until its other side is closed."""
    n = 0
    while n < MAXOUT:
        try:
            b = os.read(src, 65536)
        except OSError:
            break
        if not b:
            break
        os.write(dst, b)
        n += len(b)


def tzenv(tz):
    name, off = tz
    n = name.decode()
    if off == 0:
        return n + "0"
    s = "-" if off > 0 else "+"
    a = abs(off)
    return "%s%s%d:%02d:%02d" % (n, s, a // 3600, a // 60 % 60, a % 60)


# ---------------------------------------------------------------------------
# Asking the specification

def judge(inputs, jobs=None, timeout=240, module="Conform"):
    """Have TLC decide which of the inputs are behaviours of the specification.
    Returns (list of verdicts: True, a reason string, or None if that took too long; states; distinct)."""
    jobs = jobs or JOBS
    n = len(inputs)
    if n == 0:
        return [], 0, 0
    def one(ids, timeout):
        path = os.path.join(scratch(), "%s-%d-%d-%d.json" % (module, os.getpid(), threading.get_ident(), ids[0]))
        with open(path, "w") as f:
            json.dump([inputs[i] for i in ids], f)
        try:
            rc, out = tlc(module, env={"CASES": path}, timeout=timeout)
        except Slow:
            return None
        finally:
            os.unlink(path)
        if not tlc_ok(rc, out):
            raise Broken("TLC failed on %s:\n" % module + out[-3000:])
        res = {}
        for m in re.finditer(r'<<"ACCEPT", (\d+)>>', out):
            res[ids[int(m.group(1)) - 1]] = True
        flat = re.sub(r"\s+", " ", out)
        for m in re.finditer(r'<< ?"DIFFER", (\d+), (.*?)>>(?= <<|  ?"|<<|$| [A-Z0-9])', flat):
            i = ids[int(m.group(1)) - 1]
            res.setdefault(i, m.group(2)[:400])
        for i in ids:
            res.setdefault(i, "no behaviour of the specification has this output")
        return res, tlc_stats(out)

    # a part that takes too long is split; a single input that does is left undecided (None)
    res = {}
    gen = dist = 0
    todo = [p for p in (list(range(i, n, jobs)) for i in range(min(jobs, n)))]
    for t in (timeout, max(30, timeout // 4), max(20, timeout // 10)):
        slow = []
        for p, r in zip(todo, pmap(lambda p: one(p, t), todo, jobs)):
            if r is None:
                slow.append(p)
            else:
                res.update(r[0])
                gen += r[1][0]
                dist += r[1][1]
        todo = [p[k:k + m] for p in slow for m in [1 if len(p) <= 20 else 16] for k in range(0, len(p), m)]
        if not todo:
            break
    return [res.get(i) for i in range(n)], gen, dist