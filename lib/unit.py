"""Harnesses that call parts of bfs directly, and the engines that judge what they record."""
import glob, hashlib, itertools, json, os, random, re, subprocess, time
from vlib import *
from cases import judge

LIBS = ["-lacl", "-lcap", "-lselinux", "-luring", "-lonig", "-lrt", "-lm", "-lpthread"]
WARN = "-w"


def libs(src):
    """Libraries the build of bfs uses."""
    out = []
    for f in ("gen/pkgs.mk", "gen/flags.mk", "gen/config.mk"):
        try:
            t = open(os.path.join(src, f)).read()
        except OSError:
            continue
        for m in re.finditer(r"LDLIBS\s*[:+]?=(.*)", t):
            out += [w for w in m.group(1).split() if w.startswith("-l")]
    return out or LIBS


def harness(name, srcs, own=(), flags=(), replace=(), conf="bfs"):
    """Build harness/<srcs> against the objects of bfs (without main.o).  Sources of bfs listed in `own` are
    compiled with `flags` too; those in `replace` are left out.  Returns the path of the executable, or None
    with the compiler's output."""
    src = build(conf)
    out = os.path.join(src, name)
    base = ["gcc", "-Isrc", "-Igen", "-include", "src/prelude.h", "-std=c17", "-g", WARN, "-pthread", *flags]
    objs = [o for o in sorted(glob.glob(os.path.join(src, "obj/src/*.o")))
            if os.path.basename(o)[:-2] not in ("main", *own, *replace)]
    objs += [o for o in sorted(glob.glob(os.path.join(src, "obj/gen/*.o")))]
    r = sh(base + [os.path.join(HARNESS, s) for s in srcs] + ["src/%s.c" % o for o in own] + objs + libs(src)
           + ["-lrt", "-lm", "-o", out], cwd=src)
    if r.returncode != 0:
        return None, r.stdout.decode(errors="replace")
    return out, ""


# ---------------------------------------------------------------------------
# The trie (P20)

def trie_keys(rng):
    """A set of keys, and whether they are C strings."""
    kind = rng.randrange(7)
    n = rng.randrange(3, 14)
    if kind == 0:       # few different bytes, so that many keys are prefixes of others
        al = rng.choice([b"ab", b"aq", b"p\x01", b"\x01\x10", b"\x0f\xf0\xff", b"ap\x07"])
        ks = {bytes(rng.choice(al) for _ in range(rng.randrange(0, 7))) for _ in range(n)}
        return ks, True
    if kind == 1:       # wide nodes
        pre = bytes(rng.choice(b"xyz/") for _ in range(rng.randrange(0, 5)))
        hi = rng.choice([None, rng.randrange(16)])
        ks = set()
        for _ in range(rng.randrange(8, 26)):
            c = rng.randrange(256) if hi is None else hi * 16 + rng.randrange(16)
            ks.add(pre + bytes([c or 1]) + rng.choice([b"", b"", b"t", b"\x01"]))
        return ks, True
    if kind == 2:       # long keys that differ late
        base = bytes(rng.choice(b"abc/") for _ in range(rng.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 127, 200])))
        ks = {base}
        for _ in range(n):
            i = rng.choice([len(base) - 1, rng.randrange(len(base)), rng.randrange(len(base))])
            k = rng.choice([base[:i], base[:i] + bytes([rng.choice(b"aAq\x01\x7f\xff")]) + base[i + 1:],
                            base + bytes(rng.choice(b"ab") for _ in range(rng.randrange(1, 20)))])
            ks.add(k)
        return ks, True
    if kind in (3, 4):  # raw keys of one length
        l = rng.choice([1, 2, 3, 4, 8, 12, 16, 17])
        al = rng.choice([bytes([0, 1]), bytes([0, 0x10, 1]), bytes(range(256)), bytes([0, 255])])
        base = bytes(rng.choice(al) for _ in range(l))
        ks = {base}
        for _ in range(n):
            k = bytearray(base if rng.random() < .7 else rng.choice(sorted(ks)))
            for _ in range(rng.randrange(1, 3)):
                k[rng.randrange(l)] = rng.choice(al)
            ks.add(bytes(k))
        return ks, False
    if kind == 5:       # paths
        comps = [bytes(rng.choice(b"ab.") for _ in range(rng.randrange(1, 3))) for _ in range(3)]
        ks = set()
        for _ in range(n):
            ks.add(b"/".join(rng.choice(comps) for _ in range(rng.randrange(1, 5))) + rng.choice([b"", b"", b"/"]))
        return ks, True
    ks = {bytes(rng.randrange(1, 256) for _ in range(rng.randrange(0, 4))) for _ in range(n)}
    return ks, True


def trie_random(rng):
    ks, st = trie_keys(rng)
    ks = sorted(ks)
    rng.shuffle(ks)
    n = len(ks)
    ops = []
    p_del = rng.choice([.15, .35, .5])
    faults = rng.random() < .15
    for _ in range(rng.randrange(6, 45)):
        k = rng.randrange(1, n + 1)
        x = rng.random()
        if x < p_del:
            ops.append(("del", k, 0))
        elif x < .95:
            if faults and rng.random() < .4:
                ops.append(("insf", k, rng.randrange(3)))
            elif rng.random() < .4:
                ops.append(("ins", k, 0))
            else:
                ops.append(("set", k, rng.randrange(1, 100)))
        elif x < .97:
            ops.append(("clear", 0, 0))
        else:
            ops.append(("find", k, 0))
        if rng.random() < .6:
            ops.append(("all", 0, 0))
    ops.append(("all", 0, 0))
    return ks, st, ops


TRIE_SETS = [
    ([b"", b"a", b"ab", b"b"], True), ([b"a", b"aa", b"ap", b"a\x01"], True), ([b"p", b"q", b"pp", b"pq"], True),
    ([b"a\x10", b"a\x01", b"a\x11", b"a"], True), ([b"abcdefgh1", b"abcdefgh2", b"abcdefg", b"abcdefghi"], True),
    ([b"\0\0", b"\0\1", b"\1\0", b"\x10\0"], False), ([b"a", b"b", b"c", b"abcdefghijklmnopqrstuvwxyz"], True),
    ([b"\0\0\0\1", b"\0\0\0\2", b"\0\1\0\1", b"\1\0\0\1"], False),
]


def trie_exhaustive(ks, st):
    """Every order of inserting the keys, then every order of removing them."""
    n = len(ks)
    for a in itertools.permutations(range(1, n + 1)):
        for b in itertools.permutations(range(1, n + 1)):
            ops = []
            for j, k in enumerate(a):
                ops += [("set", k, j + 1), ("all", 0, 0)]
            for k in b:
                ops += [("del", k, 0), ("all", 0, 0)]
            # insertions have been looked at in full for the first removal order only
            if b != tuple(range(1, n + 1)):
                ops = [o for o in ops[:2 * n] if o[0] != "all"] + ops[2 * n:]
            yield ks, st, ops


def run_history(binary, prog, n, fields="[]"):
    """Feed a program of n histories to a harness; one JSON line per history, then the way it ended."""
    r = subprocess.run([binary], input=prog.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600,
                       env=dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=99"))
    lines = r.stdout.decode().split("\n")
    return [json.loads(l) for l in lines[:-1]], r.returncode, r.stderr.decode(errors="replace")


def trie_prog(h):
    ks, st, ops = h
    return "T %d %d %d\n%s\n%s\n" % (len(ks), len(ops), st, "\n".join(k.hex() or "-" for k in ks),
                                     "\n".join("%s %d %d" % o for o in ops))


def trie_engine(ctx):
    rng = random.Random("trie/%d" % ctx.seed)
    own = ("trie", "alloc")
    wrap = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "aligned_alloc"))]
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    variants = []
    b, err = harness("trie-asan", ["trie_h.c"], own, san + wrap)
    if not b:
        raise Broken("trie harness does not build:\n" + err[-2000:])
    variants.append(("", b))
    b, err = harness("trie-opt", ["trie_h.c"], own, ["-O2"] + wrap)
    if b:
        variants.append(("optimised", b))
    b, err = harness("trie-narrow", ["trie_h.c"], ("alloc",), san + wrap + ["-DNARROW"], ("trie",))
    if b:
        variants.append(("narrow offsets", b))
    ctx.note("variants of the table", len(variants))
    ctx.rules.append("histories of table operations: all insertion and removal orders of small key sets and random histories, "
                     "every look-up of every key compared after the operations; all are non-trivial")
    ctx.assumptions |= {"keys are prefix-free (C strings with their terminator, or raw keys of equal length), as trie.h requires"}
    rnd = 0
    while not ctx.viol:
        t = time.time()
        hs = []
        sets = TRIE_SETS if not ctx.quick else [TRIE_SETS[(ctx.seed + j) % len(TRIE_SETS)] for j in range(3)]
        if rnd == 0:
            for ks, st in sets:
                hs += list(trie_exhaustive(ks, st))
            for ks, st in TRIE_SETS:
                hs += list(trie_exhaustive(ks[:3], st))
        hs += [trie_random(random.Random("trie/%d/%d/%d" % (ctx.seed, rnd, i))) for i in range(1500 if ctx.quick else 4000)]
        groups = [[] for _ in variants]
        for j, h in enumerate(hs):
            groups[j % len(variants)].append(h)
        inputs, where = [], []
        for (name, binary), g in zip(variants, groups):
            res, rc, err = run_history(binary, "".join(map(trie_prog, g)), len(g))
            for h, ev in zip(g, res):
                inputs.append({"keys": [list(k) for k in h[0]], "str": bool(h[1]), "ev": ev})
                where.append((name, h))
            if rc != 0:
                h = g[len(res)] if len(res) < len(g) else None
                # show it again on its own
                if h:
                    _, rc2, err2 = run_history(binary, trie_prog(h), 1)
                else:
                    rc2, err2 = rc, err
                if rc2 != 0:
                    ctx.violation("table", "the table failed (status %d, variant %r) on %s\n%s" % (
                        rc2, name, h and show_trie(h), err2[:1500]), {"program": h and trie_prog(h), "variant": name})
                    return
        ctx.batch_judge("TrieTrace", inputs, [show_trie(h) + (" [%s]" % n if n else "") for n, h in where], "table", corrupt_trie)
        rnd += 1
        if ctx.quick or time.time() - t > ctx.left():
            break
    ctx.note("rounds", rnd)


def corrupt_trie(rng, T):
    T = json.loads(json.dumps(T))
    al = [e for e in T["ev"] if e["o"] == "all"]
    if not al:
        return None
    e = rng.choice(al)
    k = rng.randrange(3)
    if k == 0 and e["it"]:
        e["it"].pop()
    elif k == 1:
        j = rng.randrange(len(e["f"]))
        e["f"][j] = 7777
    elif T["str"]:
        j = rng.randrange(len(e["pre"]))
        e["pre"][j] = -1
    else:
        e["f"][0] = 7777
    return T


def show_trie(h):
    return "keys %s\n  %s" % (h[0], " ".join("%s(%d%s)" % (o, k, ",%d" % v if v else "") if o != "all" else "*" for o, k, v in h[2]))


# ---------------------------------------------------------------------------
# The asynchronous I/O queue (P16)

SCHED_WRAP = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal",
              "pthread_cond_broadcast", "sem_init", "sem_post", "sem_wait", "pthread_create", "pthread_join"]
RING_WRAP = ["io_uring_queue_init_params", "io_uring_queue_exit", "io_uring_enable_rings", "io_uring_register_iowq_max_workers",
             "io_uring_get_probe_ring", "io_uring_free_probe", "bfs_statx_convert", "io_uring_submit_and_wait", "io_uring_wait_cqes"]
IOQ_WRAP = ["bfs_opendir", "bfs_polldir", "bfs_closedir", "bfs_unwrapdir", "bfs_stat", "xclose", "getppid"]


def sched_flags(wrap):
    return ["-O1", "-include", os.path.join(HARNESS, "sched_atomic.h"), "-I" + HARNESS,
            "-Wl," + ",".join("--wrap=" + w for w in SCHED_WRAP + list(wrap))]


def explore(binary, args, timeout=600):
    """One exploration; returns (list of {st, ev}, statistics)."""
    try:
        r = subprocess.run([binary, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("exploration of %r did not end" % (args,))
    lines = [json.loads(l) for l in r.stdout.decode("latin-1").splitlines()]
    if r.returncode != 0 or not lines or "execs" not in lines[-1]:
        raise Broken("exploration of %r failed (%d)" % (args, r.returncode))
    return lines[:-1], lines[-1]


def ioq_program(rng):
    ops = "nNcods"
    n = rng.randrange(2, 12)
    out = ""
    for _ in range(n):
        out += rng.choice(ops)
        x = rng.random()
        if x < .35:
            out += "."
        elif x < .5:
            out += rng.choice("pP")
        elif x < .55:
            out += "ppp"
        elif x < .58:
            out += "*"
    if rng.random() < .3:
        i = rng.randrange(1, len(out) + 1)
        out = out[:i] + "x" + out[i:]
    # requests must be submitted before they are waited for: pops submit by themselves
    out += rng.choice(["*", "*", "", ".", "x*", "x", ".x*", "p*"])
    return out


IOQ_FIXED = [
    # (depth, threads, program, ring)
    (2, 1, "oo.x*", "S"), (2, 1, "oo.x*", "R4"), (1, 1, "cP", "S"), (1, 2, "s.PcP", "S"), (2, 2, "s.c.*", "S"), (2, 2, "s.c.P.o.P*", "S"),
    (4, 2, "cdsx", "S"), (4, 2, "cdsx", "R4"), (2, 2, "sPcPoPdP", "S"), (2, 1, "pnpnp*", "S"), (2, 1, "s.pppppp*", "S"),
    (4, 3, "s.s.c.o.*", "S"), (3, 2, "scoscPPP*", "R2"), (8, 1, "ooosssccc*", "R4"), (8, 2, "oosscc.x*", "R2"), (4, 1, "occxo*", "R4"),
    (16, 1, "sssssssssssss.*", "S"), (16, 2, "ssssssssssss.*", "R4"), (2, 3, "N.N.*", "S"), (5, 2, "cc.s.pppp.cc*", "S"),
]


def ioq_engine(ctx):
    b, err = harness("ioq-vs", ["ioq_h.c", "vsched.c"], ("ioq",), sched_flags(IOQ_WRAP + RING_WRAP))
    if not b:
        raise Broken("queue harness does not build:\n" + err[-2000:])
    ctx.rules.append("programs of queue calls (fixed and random) under a controlled scheduler: all schedules with few preemptions "
                     "(breadth first, up to a limit), then random ones; non-trivial: a different observable history")
    ctx.assumptions |= {"interleavings of atomic operations and lock operations are explored under sequential consistency; "
                        "io_uring is replaced by a stand-in that completes requests in any order"}
    rnd = 0
    execs = decs = full = 0
    while not ctx.viol:
        t = time.time()
        scen = list(IOQ_FIXED) if rnd == 0 else []
        for i in range(60):
            rng = random.Random("ioq/%d/%d/%d" % (ctx.seed, rnd, i))
            scen.append((rng.choice([1, 2, 2, 3, 4, 4, 8, 16]), rng.choice([1, 1, 2, 2, 3]), ioq_program(rng),
                         rng.choice(["S", "S", "S", "R4", "R2", "C4", "O2"])))
        bound, mx, nr = (2, 900, 500) if ctx.quick else (3, 5000, 3000)
        runs = pmap(lambda s: explore(b, [bound, mx, nr, ctx.seed + 17 * rnd, s[0], s[1], s[2], s[3]]), scen)
        inputs, shown = [], []
        for s, (logs, st) in zip(scen, runs):
            execs += st["execs"]
            decs += st["decs"]
            full += st["complete"]
            for l in logs:
                inputs.append({"depth": s[0], "st": l["st"], "ev": l["ev"]})
                shown.append("depth %d, %d threads, program %s, ring %s: %s" % (*s, show_events(l)))
        ctx.batch_judge("IoqTrace", inputs, shown, "queue", corrupt_ioq)
        rnd += 1
        if ctx.quick or time.time() - t > ctx.left():
            break
    if not ctx.viol:
        for n, bt, w, r, early in ([(2, 2, 1, 2, True), (2, 1, 1, 3, False)] if ctx.quick else
                                   [(2, 2, 2, 2, False), (2, 1, 2, 3, False), (2, 2, 2, 2, True), (4, 2, 2, 2, False), (2, 2, 1, 4, True)]):
            ctx.model_check("IoqModel", {"N": n, "B": bt, "W": w, "R": r, "Early": str(early).upper()},
                            "INVARIANTS AtMostOnce OnlyAfter" + ("\nPROPERTY Termination" if n * w * r < 8 else ""))
    ctx.note("executions", execs)
    ctx.note("scheduling decisions", decs)
    ctx.note("scenarios explored completely within the bound", full)
    ctx.note("rounds", rnd)


def show_events(l):
    return " ".join("%s(%s%s)" % (e["o"], e["k"], ",%s" % e["r"] if e["r"] else "") for e in l["ev"]) + " -> " + l["st"]


def corrupt_ioq(rng, T):
    T = json.loads(json.dumps(T))
    pops = [j for j, e in enumerate(T["ev"]) if e["o"] == "pop"]
    ex = [j for j, e in enumerate(T["ev"]) if e["o"] == "exec"]
    k = rng.randrange(4)
    if k == 0 and pops:
        T["ev"][rng.choice(pops)]["r"] -= 1000
    elif k == 1 and ex:
        j = rng.choice(ex)
        T["ev"].insert(j, dict(T["ev"][j]))
    elif k == 2 and pops:
        j = rng.choice(pops)
        T["ev"].insert(j, dict(T["ev"][j]))
    else:
        T["st"] = "deadlock"
    return T


# ---------------------------------------------------------------------------
# Signal hooks (P19)

FATAL = [s for s in range(1, 65) if s not in (9, 14, 17, 18, 19, 20, 21, 22, 23, 28, 32, 33)]


def hooks_program(rng):
    sigs = [rng.choice([10, 15, 34, 64, 11, 1, 12]), rng.choice([10, 28, 23, 15]), rng.choice([28, 10])]
    nthreads = rng.choice([1, 2, 2, 2, 3])
    names = iter("abcdefghijklmnopqrstuvwxyz")
    progs, live = [], []
    for t in range(nthreads):
        out = []
        for _ in range(rng.randrange(2, 8 if nthreads == 1 else 5)):
            x = rng.random()
            if x < .45 or not live:
                n = next(names)
                s = rng.choice(sigs + [sigs[0], 0])
                f = rng.choice(["c", "c", "-", "o", "co"]) if s else "-"
                nest = rng.choice([0] * 6 + [28, 23])
                if nest == s:
                    nest = 0
                if rng.random() < .05:
                    out.append("F%d" % rng.choice([1, 1, 2, 3]))
                if nthreads == 1 and rng.random() < .05:
                    s = 9
                out.append("+%s:%d:%s:%d" % (n, s, f, nest))
                live.append(n)
            elif x < .65:
                n = rng.choice(live)
                live.remove(n)
                out.append("-" + n)
            elif x < .93:
                out.append("!%d" % rng.choice(sigs + sigs[1:]))
            elif x < .98:
                out.append("R")
            else:
                out.append("S" if rng.random() < .3 else "R")
        if t == 0 and nthreads > 1 and rng.random() < .8:
            i = rng.randrange(len(out) + 1)
            out[i:i] = ["+z:%d:c:0" % sigs[0], "|"]
        progs.append(" ".join(out))
    a = "-" if rng.random() < .3 else " ".join(str(x) for x in {rng.choice(sigs[1:]), rng.choice(sigs)})
    return a, "/".join(progs)


HOOKS_FIXED = [
    ("10 28", "+a:10:c:0 +b:10:c:0 +c:10:c:0 -b +d:10:c:0 -d +e:10:c:0 !10 -a !10 -e -c !10"),
    ("10", "+z:10:c:0 +a:10:co:0 +b:10:-:28 !10 -a !10"),
    ("28", "+x:0:-:0 +y:0:-:0 +a:15:o:0 +b:28:-:0 !28 R !15"),
    ("15", "+x:0:-:0 -x +a:15:c:0 !15 +y:0:-:0 -a !15"),
    ("-", "+z:10:c:0 | +a:10:c:0 !10 -a/!10 !10"),
    ("-", "+z:10:c:0 +a:10:c:0 | -a +b:10:c:0/!10 !10"),
    ("-", "+z:10:c:0 +a:10:o:0 | !10/!10/!10"),
    ("-", "+z:10:c:0 | +a:10:-:0 -a/+b:10:-:0 -b/!10"),
    ("10", "+z:10:c:0 F1 +a:10:c:0 +b:10:c:0 F2 +c:15:c:0 !15"),
    ("-", "R +a:10:c:0 R +x:0:-:0 R -a R/R R"),
    ("-", "+a:1:c:0 !1 -a !1"), ("-", "!1 !23 +x:0:-:0 !23 !1"), ("-", "+a:11:c:0 !11 S"), ("-", "+x:0:-:0 S"),
    ("28", "+a:28:-:0 +b:28:o:0 !28 !28 -a !28 -b !28"), ("-", "+a:9:c:0 +b:19:c:0 !28"),
    ("10", "+z:10:c:0 +a:10:-:0 +b:10:-:0 -b -a +c:10:-:0 -z"),
]
HOOKS_ALL = [("-", "+a:%d:c:0 !%d +x:0:-:0 !%d -a +b:%d:o:0 !%d" % (s, s, s, s, s)) for s in FATAL] \
    + [("-", "+x:0:-:0 !%d" % s) for s in FATAL] + [("-", "+x:0:-:0 +a:%d:-:0 !%d -a !%d" % (s, s, s)) for s in (17, 18, 23, 28)]


def hooks_engine(ctx):
    wrap = ["malloc", "aligned_alloc"]
    b, err = harness("hooks-vs", ["hooks_h.c", "vsched.c"], ("sighook",), sched_flags(wrap))
    if not b:
        raise Broken("hook harness does not build:\n" + err[-2000:])
    ctx.rules.append("programs of registrations, removals and deliveries (fixed and random, 1-3 threads) under a controlled scheduler, "
                     "with signals arriving at any scheduling point: all schedules with few preemptions (breadth first, up to a limit), "
                     "then random ones; non-trivial: a different observable history")
    ctx.assumptions |= {"interleavings of atomic operations and lock operations are explored under sequential consistency"}
    rnd = 0
    execs = decs = full = 0
    while not ctx.viol:
        t = time.time()
        scen = [(a, p, 2, 1500, 500) for a, p in HOOKS_FIXED] + [(a, p, 0, 5, 0) for a, p in HOOKS_ALL] if rnd == 0 else []
        bound, mx, nr = (2, 900, 500) if ctx.quick else (3, 5000, 4000)
        for i in range(70):
            rng = random.Random("hooks/%d/%d/%d" % (ctx.seed, rnd, i))
            scen.append((*hooks_program(rng), bound, mx, nr))
        runs = pmap(lambda s: explore(b, [s[2], s[3], s[4], ctx.seed + 17 * rnd, s[0], s[1]]), scen)
        inputs, shown = [], []
        for s, (logs, st) in zip(scen, runs):
            execs += st["execs"]
            decs += st["decs"]
            full += st["complete"]
            for l in logs:
                m = re.fullmatch(r"signal (\d+)", l["st"])
                end = 0 if l["st"] == "ok" else int(m.group(1)) if m else 99
                inputs.append({"ign": [1], "cau": [23], "st": end, "ev": l["ev"]})
                shown.append("program %s, arriving %s: %s -> %s" % (s[1], s[0], " ".join(hook_event(e) for e in l["ev"]), l["st"]))
        ctx.batch_judge("HooksTrace", inputs, shown, "hooks", corrupt_hooks)
        rnd += 1
        if ctx.quick or time.time() - t > ctx.left():
            break
    ctx.note("executions", execs)
    ctx.note("scheduling decisions", decs)
    ctx.note("scenarios explored completely within the bound", full)
    ctx.note("rounds", rnd)


def hook_event(e):
    return "%s(%s)" % (e["o"], ",".join(str(v) for k, v in e.items() if k != "o"))


def corrupt_hooks(rng, T):
    T = json.loads(json.dumps(T))
    runs = [j for j, e in enumerate(T["ev"]) if e["o"] == "run"]
    k = rng.randrange(3)
    if k == 0 and runs:
        j = rng.choice(runs)
        T["ev"].insert(j, dict(T["ev"][j]))
    elif k == 1 and runs:
        T["ev"][rng.choice(runs)]["s"] += 1
    else:
        T["st"] = 99
    return T
