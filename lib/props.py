"""What each property's conformance check generates."""
from gen import *
import itertools

BASE = {"kinds": {"f": 5, "d": 5, "l": 1}, "modes": .1, "sizes": .2}
ALL_LEAVES = {k: 1 for k in LEAVES if k != "type1"}
PATHY = {"name": 3, "path": 2, "type": 3, "bool": 1, "empty": 1, "depthn": 1, "hidden": 1}
IFACE = {"print": 5, "printf_path": 1}
LINKS = {"kinds": {"f": 3, "d": 4, "l": 6, "h": 1}, "outside": True}


def mutate(c, kw, argv):
    """Turn a command line into one that may be malformed."""
    r = c.rng
    words = [b"-print", b"(", b")", b"!", b"-not", b",", b"-o", b"-a", b"-or", b"-and", b"-name", b"-type", b"f", b"a",
             b"-depth", b"-prune", b"-true", b"-false", b"-exec", b"-quit", b"-maxdepth", b"1", b"-mindepth", b"-bogus",
             b"--", b"-", b"-size", b"+3k", b"-perm", b"-printf", b"%q", b"-links", b"x", b"-newer", b"-delete", b"-exclude",
             b"-S", b"dfs", b"-O9", b"-j", b"-j0", b"-L", b"-follow", b";", b"+", b"{}", b"-exit", b"-limit", b"0", b"-f", b"",
             b"-regextype", b"-D", b"-E", b"-X", b"-nohidden", b"-unique", b"-fprint", b"-noleaf", b"-ls", b"-user", b"nope",
             b"-uid", b"-perm", b"u+q", b"-used", b"1x", b"-sparse", b"-samefile", b"-dep", b"-prin", b"-type", b"z", b"f,,d"]
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(5)
        i = r.randrange(len(argv) + 1)
        if k == 0 and argv:
            del argv[min(i, len(argv) - 1)]
        elif k == 1:
            argv.insert(i, r.choice(words))
        elif k == 2 and argv:
            argv[min(i, len(argv) - 1)] = r.choice(words)
        elif k == 3 and len(argv) > 1:
            j = min(i, len(argv) - 1)
            a = argv.pop(j)
            argv.insert(r.randrange(len(argv) + 1), a)
        elif argv:
            argv.insert(i, argv[r.randrange(len(argv))])
    if b"-s" not in argv and len(c.plan) > 8:
        argv.insert(0, b"-s")                   # too many orders to consider otherwise
    if sum(a[:1] != b"-" for a in argv) > 1:
        argv[:] = [b"-prune" if a == b"-delete" else a for a in argv]       # deleting overlapping paths depends on the order
    # Whatever became of the arguments, only write to known files, and don't read them
    acts = (b"-fprint", b"-fprint0", b"-fprintf", b"-fls")
    for i in range(len(argv)):
        if (b"/o/" in argv[i] or b"@O@" in argv[i] or argv[i] == b"/dev/stdout") and not (i and argv[i - 1] in acts):
            argv[i] = b"a"
    for i in range(len(argv) - 1):
        if argv[i] in acts and not argv[i + 1].startswith(b"../../o/"):
            argv[i + 1] = b"../../o/2"
            kw["streams"] = max(kw.get("streams", 1), 2)


def files0(c, kw, argv):
    """Replace the starting paths by -files0-from."""
    r = c.rng
    roots = [r.choice(c.rel + [b".", b"./", b"nope", b"../w"]) for _ in range(r.randint(1, 4))]
    roots = [q for q in roots]
    data = b"\0".join(roots) + (b"\0" if r.random() < .7 else b"")
    if r.random() < .05:
        data = data.replace(b"\0", b"\0\0", 1)
    if r.random() < .4:
        kw["stdin"] = data
        name = b"-"
    else:
        name = b"../../o/f0"
        kw["f0"] = {name: data}
        if r.random() < .06:
            name = r.choice([b".", b"nope", b"../w", b"../../o/none"])
    argv[:] = [b"-files0-from", name] + argv if r.random() < .5 else argv + [b"-files0-from", name]


def fault_extra(ops, errs, n=(1, 3), opt=None):
    def go(c, kw, argv):
        r = c.rng
        fl = []
        ents = [e for e in c.inw]
        r.shuffle(ents)
        for e in ents[:r.randint(*n)]:
            rel = b"/".join(e["p"][1:])
            op = r.choice(ops)
            if op in ("open", "read") and e["t"] != "d":
                op = "stat" if "stat" in ops else None
            if op is None:
                continue
            # (EPERM from statx() means that it is not available)
            fl.append((op, r.choice([x for x in errs if op != "stat" or x != "EPERM"]), r.randrange(0, 3) if op == "read" else 0, b"./" + rel, e["p"]))
        if any(isinstance(a, bytes) and re.match(rb"-([aBcm]?newer|samefile)", a) for a in argv):
            fl = [f for f in fl if f[0] != "stat"]      # the file referred to is examined, too
        kw["faults"] = fl
        # only tests that cannot be optimized away
        argv[:] = [b"-1" + a[2:] if isinstance(a, bytes) and re.match(rb"-0+[a-zA-Z]?$", a) else a for a in argv]
        if opt:
            argv.insert(0, opt)
        kw["nouring"] = True
    return go


P = {}

P["P01"] = [
    dict(tree=dict(BASE, n=(3, 30), depth=8, nasty=.3), leaves=PATHY, actions=IFACE, pexpr=.3, psort=.4, pdepth=.25, pj=.7,
         dups=.25, nroots=[1, 1, 2, 3, 4], nouring=.5),
    dict(tree=dict(BASE, n=(1, 12), depth=6, nasty=.5), leaves=PATHY, actions=IFACE, pexpr=.5, psort=.6, pdepth=.3, dflt=.2,
         dups=.3, nroots=[1, 2, 3], maxdepth=.2, mindepth=.1),
]
P["P02"] = [
    dict(tree=dict(BASE, n=(5, 30), depth=9, nasty=.2, deep=.5, chain=.4, chainlen=22), leaves=PATHY, actions=IFACE, pexpr=.3, psort=.55, pdepth=.45,
         pj=.8, nouring=.5, strats=[b"bfs", b"dfs", b"ids", b"eds", b"eds"]),
    dict(tree=dict(BASE, n=(5, 25), depth=9, collide=.5), leaves=PATHY, actions=dict(IFACE, prune=3), pexpr=.7, psort=.5, pdepth=.3,
         pj=.6, nouring=.6, nroots=[1, 2, 3], dflt=.3),
]
P["P03"] = [
    dict(tree=dict(BASE, n=(4, 18), depth=6), leaves=PATHY, actions={"print": 3, "prune": 4}, pact=.5, psort=.6, pdepth=.3,
         mindepth=.5, maxdepth=.5, exclude=.4, p_nohidden=.25, dups=.2, dflt=.3, nroots=[1, 2, 3]),
    dict(tree=dict(LINKS, n=(4, 14), targets={"any": 3, "dev2": 6, "broken": 1, "up": 1}), leaves=PATHY,
         actions={"print": 3, "prune": 1}, psort=.6, pdepth=.4, follow={"P": 1, "H": 1, "L": 5}, p_xdev=.6, p_mount=.4,
         mindepth=.15, maxdepth=.15, nroots=[1, 1, 2], exclude=.1),
]
P["P04"] = [
    dict(tree=dict(LINKS, n=(4, 16), chain=.3, chainlen=20, chainlink=.8), leaves=dict(PATHY, lname=2, type=5, size=1, samefile=1, empty=2, links=1, access=1),
         actions=dict(IFACE, printf=2), psort=.6, pdepth=.2, follow={"P": 1, "H": 2, "L": 4}, nroots=[1, 1, 2, 3], dflt=.3, maxdepth=.1),
    dict(tree=dict(LINKS, n=(4, 12), targets={"self": 3, "chain": 4, "up": 3, "any": 4, "notdir": 2, "abs": 2, "broken": 1}),
         leaves=PATHY, actions=dict(IFACE, printf_path=4), psort=.5, pdepth=.25, follow={"P": 1, "H": 2, "L": 5}, dflt=.4, p_unique=.1),
]
P["P05"] = [
    dict(tree=dict(BASE, n=(2, 7)), leaves=dict(PATHY, size=1, perm=1, bool=3), actions=dict(print=5, prune=1, quit=.3, fprint=.5, exec=.3),
         pact=.4, psort=.8, edepth=[2, 3, 3, 4], pdepth=.1, mindepth=.1, maxdepth=.1, exclude=.1, streams=1, p_nohidden=.05,
         follow={"P": 5, "H": 1, "L": 1}, pO=.2),
    dict(tree=dict(BASE, n=(2, 6)), leaves=dict(PATHY, **{k: .5 for k in ("size", "perm", "time", "owner", "links", "regex", "samefile")}),
         actions=dict(print=3, prune=1, exec=1, printf=1, limit=.5, exit=.5, fprint=1), streams=1, pact=.4, psort=1, edepth=[1, 1, 2, 3],
         extra=mutate, pdepth=.1, maxdepth=.1, pO=.2),
    dict(tree=dict(BASE, n=(2, 8)), leaves=PATHY, actions=IFACE, psort=.8, dflt=.95, edepth=[0, 1, 2], extra=files0, maxdepth=.2, pdepth=.1),
]
P["P06"] = [
    dict(tree=dict(BASE, n=(3, 10), kinds={"f": 6, "d": 4, "l": 2, "h": 1, "p": 1}, owners=.3, sizes=.6, modes=.4, times=.3),
         leaves=ALL_LEAVES, actions=dict(print=4, prune=2, printf=1, quit=.2, exit=.2, limit=.3, exec=.3), pact=.25, psort=.9, pO=1,
         edepth=[2, 3, 3, 4, 5], pdepth=.15, maxdepth=.15, mindepth=.1, exclude=.15, follow={"P": 4, "H": 1, "L": 1}, pexpr=1),
    dict(tree=dict(BASE, n=(3, 10), owners=.5, sizes=.8, modes=.5, kinds={"f": 6, "d": 3, "h": 2, "l": 2}),
         leaves={"type": 4, "size": 4, "links": 2, "owner": 4, "depthn": 3, "inum": 1, "samefile": 1, "empty": 3, "access": 2, "hidden": 1,
                 "perm": 1, "bool": 2, "lname": 1, "name": 1, "sparse": .5},
         actions=dict(print=3, prune=1, limit=.3), pact=.12, psort=1, pO=1, edepth=[3, 4, 4, 5], mindepth=.3, maxdepth=.3, pdepth=.2,
         pexpr=1, exclude=.1),
]
P["P06"] += [
    dict(tree=dict(BASE, n=(4, 10), owners=.5, sizes=.8, modes=.5, times=.5, kinds={"f": 6, "d": 4, "h": 2, "l": 2, "p": .5}),
         leaves=ALL_LEAVES, actions=dict(print=3, prune=2), probe="family", psort=1, pO=1, nprobe=(2, 4), mindepth=.15, maxdepth=.15, pdepth=.15,
         pexpr=1, follow={"P": 3, "H": 1, "L": 1}),
] * 2
P["P10"] = [
    dict(tree=dict(BASE, n=(4, 20), depth=6), leaves=PATHY, actions=dict(print=4, quit=2, exit=2, limit=4, exec=.6, prune=.5, fprint=1), streams=1,
         pact=.6, psort=.6, pdepth=.25, pj=.7, edepth=[1, 2, 3], dups=.1, maxdepth=.1, mindepth=.1, nouring=.4, pexpr=1),
]
P["P12"] = [
    dict(tree=dict(BASE, n=(3, 10), kinds={"f": 6, "d": 4, "l": 3, "h": 1, "p": 1, "s": 1}, nasty=.4, owners=.3, sizes=.6, modes=.4, times=.5),
         leaves=PATHY, actions=dict(print=3, printf=10, ls=3, fprint=6), pact=.85, streams=1, psort=.9, edepth=[0, 1, 2], pdepth=.1,
         follow={"P": 4, "H": 1, "L": 2}, pexpr=1, maxdepth=.1, dflt=.3),
    dict(tree=dict(LINKS, n=(3, 10), nasty=.4), leaves=PATHY, actions=dict(printf=3, ls=1), pact=.9, psort=.9, edepth=[0, 1], pexpr=1,
         follow={"P": 2, "H": 1, "L": 2}, dflt=.3),
]
META = {"type": 3, "size": 4, "links": 1, "inum": .5, "owner": 3, "perm": 6, "empty": 1, "samefile": 1, "depthn": 1, "access": 2, "sparse": 1}
P["P13"] = [
    dict(tree=dict(BASE, n=(4, 14), kinds={"f": 6, "d": 3, "l": 2, "h": 1, "p": 1, "s": 1}, owners=.4, sizes=.8, modes=.8),
         leaves=META, actions=IFACE, pact=.1, psort=1, edepth=[0, 0, 1, 2], pexpr=1, follow={"P": 4, "H": 1, "L": 2}, pO=.3, dflt=.7),
    dict(tree=dict(BASE, n=(6, 20), kinds={"f": 8, "d": 3, "h": 1}, sizes=1, modes=1, owners=.5), leaves={"size": 4, "perm": 6, "owner": 2, "access": 2, "links": 1},
         actions=IFACE, pact=0, psort=1, edepth=[0], pexpr=1, dflt=.9),
]
P["P13"] += [
    dict(tree=dict(BASE, n=(6, 14), kinds={"f": 7, "d": 3, "h": 1, "l": 2, "p": 1, "s": .5}, sizes=.8, modes=.8, owners=.5), leaves=META,
         actions=IFACE, pact=0, probe="leaf", nprobe=(4, 8), psort=1, pexpr=1, dflt=.8, follow={"P": 4, "H": 1, "L": 2}),
]
P["P14"] = [
    dict(tree=dict(BASE, n=(5, 20), kinds={"f": 6, "d": 4, "l": 3}, nasty=.4, outside=True),
         leaves={"name": 5, "path": 3, "lname": 2, "regex": 4}, actions=IFACE, pact=.05, psort=1, edepth=[0, 0, 1, 2], pexpr=1, dflt=.5,
         follow={"P": 4, "L": 1}, pO=.3),
    dict(tree=dict(BASE, n=(8, 24), kinds={"f": 8, "d": 3}, nasty=.2, collide=.2), leaves={"name": 5, "path": 1, "regex": 2}, actions=IFACE, pact=0,
         psort=1, edepth=[0, 1], pexpr=1, dflt=.8),
]
P["P14"] += [
    dict(tree=dict(BASE, n=(6, 16), kinds={"f": 6, "d": 4, "l": 3}, nasty=.5, outside=True), leaves={"name": 5, "path": 3, "lname": 2, "regex": 2},
         actions=IFACE, pact=0, probe="leaf", nprobe=(3, 7), psort=1, pexpr=1, dflt=.6, follow={"P": 4, "L": 1}),
]
P["P15"] = [
    dict(tree=dict(LINKS, n=(4, 16), kinds={"f": 4, "d": 4, "l": 4, "h": 4}), leaves=PATHY, actions=dict(IFACE, prune=.4), psort=.7,
         pdepth=.35, follow={"P": 2, "H": 1, "L": 4}, p_unique=1, dups=.3, nroots=[1, 2, 3], dflt=.3, pexpr=.4, maxdepth=.1,
         pj=.6, nouring=.4),
]
P["P18"] = [
    dict(tree=dict(BASE, n=(5, 12), times=.95), leaves={"time": 1}, actions=IFACE, pact=0, probe="leaf", nprobe=(3, 7), psort=1, pexpr=1, dflt=.9,
         p_daystart=.25),
    dict(tree=dict(BASE, n=(4, 14), times=.95), leaves={"time": 1}, actions=IFACE, pact=0, psort=1, edepth=[0, 0, 1, 2], pexpr=1, dflt=.8,
         p_daystart=.3),
    dict(tree=dict(BASE, n=(3, 8), times=.95), leaves={"time": 1}, actions=dict(printf=1), pact=.7, psort=1, edepth=[0, 1], pexpr=1, dflt=.8),
    dict(tree=dict(BASE, n=(3, 8), times=.5), leaves={"time": 1}, actions=IFACE, pact=0, psort=1, edepth=[0, 1], pexpr=1, dflt=.8, realnow=True,
         p_daystart=.2),
]


def tail_delete(c):
    r = c.rng
    t = a_delete(c)
    if r.random() < .3:
        t = t + [r.choice([b"-print", b"-print0"])]
    elif r.random() < .3:
        t = [b"-print"] + t
    elif r.random() < .2:
        t = [b"("] + t + [b"-o", b"-print", b")"]
    return t


def one_link(rng, plan):
    """For -L: at most one symbolic link leads to a directory, and to one outside w."""
    plan.append({"p": (b"y",), "t": "d", "mode": 0o755, "uid": UID, "gid": GID})
    plan.append({"p": (b"y", b"f"), "t": "f", "mode": 0o644, "uid": UID, "gid": GID})
    first = True
    for e in plan:
        if e["t"] == "l":
            if first and e["p"][0] == b"w" and rng.random() < .6:
                e["tgt"] = relto(e["p"], (b"x",))
                first = False
            elif rng.random() < .8:
                e["tgt"] = relto(e["p"], (b"y", b"f"))
            else:
                e["tgt"] = b"nowhere"


DEL_LEAVES = {"name": 4, "path": 2, "type": 3, "bool": 1, "lname": 1, "hidden": 1, "depthn": 1}
P["P07"] = [
    dict(tree=dict(LINKS, n=(4, 18), nowrite=.15, nasty=.2), leaves=DEL_LEAVES, actions=dict(print=1), pact=.1, psort=.7, tail=tail_delete,
         follow={"P": 6, "H": 1}, dups=0, nroots=[1, 1, 2, 3], disjoint=True, mindepth=.2, maxdepth=.1, pexpr=.6, pj=.5, nouring=.4, badroots=False,
         exclude=.1, p_nohidden=.05, p_ignore_readdir_race=.3),
    dict(tree=dict(LINKS, n=(4, 14), kinds={"f": 4, "d": 5, "l": 4}), leaves=DEL_LEAVES, actions=dict(print=1), pact=.1, psort=.7, tail=tail_delete,
         follow={"P": 2, "H": 2, "L": 4}, pexpr=.7, mindepth=.1, maxdepth=.15, p_mount=.05, plan_fix=one_link, nroots=[1, 2], dups=0,
         disjoint=True, badroots=False),
]
P["P08"] = [
    dict(tree=dict(BASE, n=(3, 14), nasty=.4, kinds={"f": 5, "d": 5, "l": 1}), leaves=PATHY, actions=dict(exec=6, print=1), ok=1, pact=.75, psort=.75,
         edepth=[0, 1, 2], pdepth=.2, nroots=[1, 2, 3], dflt=.3, dups=.2, pexpr=1, maxdepth=.1, pj=.5),
    dict(tree=dict(BASE, n=(3, 12), noperm=.15, nasty=.2), leaves=PATHY, actions=dict(exec=6, print=1), pact=.7, psort=.8, edepth=[0, 1, 2],
         pdepth=.2, nroots=[1, 2, 3, 3], dflt=.2, dups=.1, pexpr=1),
    dict(tree=dict(BASE, n=(3, 10)), leaves=PATHY, actions=dict(exec=6, print=1, quit=1, limit=1, exit=.5), pact=.8, psort=.8, edepth=[1, 2],
         nroots=[1, 2], dflt=.4, pexpr=1),
]
P["P09"] = [
    dict(tree=dict(BASE, n=(4, 16), noperm=.3), leaves=dict(PATHY, size=1), actions=dict(IFACE, printf=.5), psort=.6, pdepth=.25, pj=.6, dflt=.5, pexpr=.6,
         nroots=[1, 2, 3], p_noerror=.08, maxdepth=.1),
    dict(tree=dict(BASE, n=(5, 16)), leaves=PATHY, actions=IFACE, psort=.6, pdepth=.25, pj=.6, dflt=1, pexpr=.5, follow={"P": 1},
         extra=fault_extra(["open", "read"], ["EACCES", "EIO", "ENOMEM", "ESTALE", "EPERM"], (1, 4)), p_noerror=.05, maxdepth=.1, pO=0),
]
P["P17"] = [
    dict(tree=dict(BASE, n=(5, 16)), leaves=PATHY, actions=IFACE, psort=.6, pdepth=.25, pj=.6, dflt=1, pexpr=.5, follow={"P": 1},
         extra=fault_extra(["open", "read"], ["ENOENT", "ENOTDIR", "EIO", "EACCES"], (1, 4)), p_ignore_readdir_race=.5, pO=0, maxdepth=.1),
]



def batch_extra(c, kw, argv):
    """One -exec ... + with so little room for arguments that its batches are split."""
    r = c.rng
    words = [r.choice([b"x", b"--", b"", b"yy" * 9]) for _ in range(r.randint(0, 3))]
    kind = r.choice([b"-exec", b"-exec", b"-execdir"])
    cond = l_name(c) if r.random() < .3 else []
    argv += cond + [kind, b"vh", r.choice([b"t", b"t", b"e"])] + words + [b"{}", b"+"]
    kw["ntmpl"] = 2 + len(words)
    longest = 60 + max([len(q) for q in c.rel] + [6]) * 2
    k = r.randrange(3)
    if kind == b"-execdir" and r.random() < .7:
        # room for a few files of each directory
        need = 8 * (len(words) + 5) + 40 + sum(len(w) for w in words) + max([len(e["p"][-1]) for e in c.plan])
        kw["argmax"] = (0 if k else need + r.randrange(300), need + r.choice([30, 60, 120, 240]))
        return
    kw["argmax"] = (0 if k == 0 else longest + r.randrange(1500), 0 if k == 1 else longest + 200 + r.randrange(1500))


P["P08"] += [
    dict(tree=dict(BASE, n=(6, 22), kinds={"f": 8, "d": 3, "l": 1}, depth=4, nasty=.3), leaves=PATHY, actions=IFACE, psort=.85, pdepth=.2, nroots=[1, 2],
         dflt=.7, pexpr=0, extra=batch_extra, pj=.5),
    dict(tree=dict(BASE, n=(3, 10), kinds={"f": 4, "d": 5}, depth=4, wide=.8), leaves=PATHY, actions=IFACE, psort=.85, pdepth=.2, nroots=[1, 2],
         dflt=.7, pexpr=0, extra=batch_extra, pj=.5),
]

FDA = dict(print=4, exec=2, printf_path=1)
P["P11"] = [
    dict(tree=dict(BASE, n=(2, 12), chain=.9, chainmin=6, chainlen=24, wide=.2, chainlink=.2), leaves=dict(PATHY, empty=2, samefile=1), actions=FDA, pact=.4,
         rlimit=(7, 14), psort=.6, pdepth=.35, pj=.8, dflt=.5, nroots=[1, 2, 3], nouring=.5, maxdepth=.1, follow={"P": 4, "H": 1, "L": 2}, pexpr=.8),
    dict(tree=dict(BASE, n=(6, 30), depth=9, deep=.5, wide=.3, chain=0), leaves=dict(PATHY, empty=2), actions=dict(FDA, fprint=1, delete=0), streams=1, pact=.4,
         rlimit=(7, 12), psort=.6, pdepth=.3, pj=.8, dflt=.5, nroots=[1, 2, 3], nouring=.5, pexpr=.8),
    dict(tree=dict(BASE, n=(6, 20), depth=9, deep=.5, chain=.5, chainmin=6, chainlen=20), leaves=PATHY, actions=dict(print=1), pact=.1, badroots=False, disjoint=True,
         rlimit=(7, 12), psort=.7, pj=.8, dflt=.8, nouring=.5, pexpr=.5, follow={"P": 1}, tail=lambda c: a_delete(c)),
]
LONG = dict(tree=dict(n=(1, 4), kinds={"f": 1, "d": 1}, chainlink=0, chain=1, chainmin=17, chainlen=18, chainnames=[b"n" * 255, b"N" * 250, b"m" * 230 + b"\xc3\xa9", b"l" * 255], wide=0),
            leaves=dict(type=2, bool=1, empty=2, depthn=1), actions=dict(print=3, exec=1), pact=.3, psort=.8, pdepth=.3, pj=.8, dflt=.9, rlimit=(7, 14), prlimit=.7, pexpr=.4, edepth=[0, 0, 1])
SPECIAL = {"P11": [(16, LONG)]}

NQ = {"P11": 1400}
N_QUICK = 2000
ROUNDS_QUICK = 1


# --- colours ----------------------------------------------------------------

CKEYS = [b"no", b"fi", b"di", b"ln", b"or", b"mi", b"ex", b"su", b"sg", b"st", b"ow", b"tw", b"mh", b"ca", b"pi", b"so", b"bd", b"cd", b"do"]
CVALS = [b"01;31", b"32", b"0", b"", b"00", b"4;33", b"38;5;9", b"01;34", b"\\e[7", b"^[1", b"7\\_", b"\\0331", b"\\x1b2", b"\\101", b"a\\:b",
         b"\\\\", b"00;", b"1\\nx", b"\\?", b"^?", b"x\\=", b"=", b"\xff", b"0000", b"\\x", b"\\400", b"\\x141"]


def ls_colors(c):
    """A value for $LS_COLORS, about the files of the tree."""
    r = c.rng
    out = []
    exts = []
    for _ in range(r.choice([1, 2, 4, 8, 14])):
        k = r.random()
        if k < .42:
            n = r.choice(c.names)
            e = n[r.randrange(len(n)):] if r.random() < .7 else r.choice([b".txt", b".c", b".c.d", b"", b".TXT", b"c", b"oo", b".Txt"])
            if exts and r.random() < .5:
                b = r.choice(exts)
                e = r.choice([b, b.swapcase(), b.upper(), b[1:], b"." + b, b.capitalize(), b + b"x", b.lower(), b"a" + b])
            exts.append(e)
            t = b"".join(b"\\" + bytes([x]) if bytes([x]) in b"=\\^" else bytes([x]) if r.random() < .97 else b"\\%03o" % x for x in e)
            out.append(b"*" + t + b"=" + (r.choice([b"31", b"31", b"32"]) if r.random() < .5 else r.choice(CVALS)))
        elif k < .9:
            out.append(r.choice(CKEYS) + b"=" + (b"target" if r.random() < .04 else r.choice(CVALS) if r.random() < .6 else b"%d;%d" % (r.randrange(9), 30 + r.randrange(8))))
        elif k < .94:
            out.append(b"ln=target")
        elif k < .97:
            out.append(r.choice([b"lc", b"rc", b"ec", b"rs"]) + b"=" + r.choice([b"<", b">", b"\\e[", b"", b"0", b"{}", b"m"]))
        else:
            out.append(r.choice([b"zz=31", b"", b"di", b"bld=1", b"*x", b"cl=\\e[K", b"a\\", b"fi=^", b"*\\=1=2"]))
    return b":".join(out) + r.choice([b"", b":"])


def color_extra(c, kw, argv):
    r = c.rng
    kw["tty"] = r.random() < .35
    if r.random() < .75:
        kw["lsc"] = ls_colors(c)
    if r.random() < .25:
        kw["bfsc"] = ls_colors(c)
    if r.random() < .15:
        kw["noc"] = r.choice([b"1", b"0"])
    opts = r.choice([[b"-color"], [b"-color"], [b"-color"], [b"-nocolor"], [b"-color", b"-nocolor"], [b"-nocolor", b"-color"], []] if not kw["tty"] else
                    [[], [], [], [b"-color"], [b"-nocolor"]])
    argv[0:0] = opts


EXTN = [b"x.gZ", b"c.gZ", b"x.gz", b"x.GZ", b"x.Gz", b"a.tar.gz", b"a.TAR.GZ", b"a.tar.GZ", b"a.TAR.gz", b"gz", b".gz", b"xgz", b"b.tar", b"b.TAR", b"r.gz.tar", b"zz", b"y.gz.gz"]
EXTS = [b".gz", b".GZ", b".Gz", b".tar.gz", b".TAR.GZ", b".tar.GZ", b"gz", b"z", b".tar", b".TAR", b"", b"x.gz", b"X.GZ", b"GZ"]


def ext_plan(rng, plan):
    """Many regular files whose names end alike."""
    for n in rng.sample(EXTN, rng.randint(6, 11)):
        if all(e["p"] != (b"w", n) for e in plan):
            plan.append({"p": (b"w", n), "t": "f", "mode": 0o644, "uid": UID, "gid": GID})


def ext_extra(c, kw, argv):
    r = c.rng
    few = r.sample(EXTS, r.choice([2, 3, 5])) if r.random() < .7 else [b".gz", b".GZ", b".Gz"]
    v = lambda: r.choice([b"31", b"32", b"33", b"0", b""] if r.random() < .1 else [b"31", b"32", b"33"])
    one = lambda: b":".join(b"*%s=%s" % (r.choice(few), v()) for _ in range(r.choice([2, 3, 4, 6])))
    kw["lsc"] = one()
    if r.random() < .25:
        kw["bfsc"] = one()
    argv[0:0] = [b"-color"]


CA = dict(print=4, printf_col=3, ls=2, exec=.2, fprint=.3)
CT = dict(kinds={"f": 6, "d": 4, "l": 4, "h": 1.5, "p": .5, "s": .5}, nasty=.25, modes=.45, outside=True)
P["P21"] = [
    dict(tree=dict(CT, n=(3, 11)), leaves=PATHY, actions=CA, pact=.7, psort=.95, edepth=[0, 0, 1, 2], dflt=.4, nroots=[1, 1, 2, 3], extra=color_extra,
         follow={"P": 4, "H": 1, "L": 2}, pexpr=.9, streams=1),
    dict(tree=dict(CT, n=(3, 10), targets={"any": 5, "broken": 5, "self": 1, "up": 2, "notdir": 4, "abs": 2, "chain": 3, "deep": 3}, kinds={"f": 4, "d": 3, "l": 6}),
         leaves=PATHY, actions=dict(printf_col=2, ls=3, print=2), pact=.9, psort=.95, edepth=[0, 0, 1], dflt=.5, nroots=[1, 2], extra=color_extra,
         follow={"P": 4, "H": 1, "L": 1}, pexpr=1),
    dict(tree=dict(n=(0, 1), kinds={"f": 1}, chain=0, wide=0), plan_fix=ext_plan, leaves=PATHY, actions=dict(print=1), pact=0, psort=1, pexpr=0, dflt=1, extra=ext_extra, pdepth=0,
         maxdepth=0, mindepth=0),
]


# --- pairs of related tests on a tree with one of everything ----------------

def zoo(rng, plan):
    """One of everything."""
    f = lambda n, **k: dict({"p": (b"w",) + tuple(n.split(b"/")), "t": "f", "mode": 0o644, "uid": UID, "gid": GID}, **k)
    ls = lambda n, to: f(n, t="l", mode=0o777, tgt=to)
    must = [f(b"e"), f(b"s1", size=1), f(b"d0", t="d", mode=0o755), f(b"d1", t="d", mode=0o755), f(b"d1/f", size=rng.choice([0, 2, 512]))]
    rest = [f(b"s512", size=512), f(b"s513", size=513), f(b"s2", size=2), f(b"s1024", size=1024), f(b"big", size=1 << 20), f(b"d1/.h"), f(b"d1/d2", t="d", mode=0o711),
            ls(b"le", b"e"), ls(b"ld", b"d0"), ls(b"lx", b"nope"), ls(b"ls", b"s1"), ls(b".l", b"e"), ls(b"lp", b"p"), ls(b"lt", b"e/x"), ls(b"ll", b"ll"),
            f(b"p", t="p"), f(b"k", t="s"), f(b"h1", t="h", to=(b"w", b"s1")), f(b"h2", t="h", to=(b"w", b"e")),
            f(b"o0", uid=0, gid=0), f(b"o1", uid=12345, gid=54321), f(b"o2", uid=1, gid=12345), f(b"o3", uid=0, gid=12345), f(b"o4", uid=54321, gid=1),
            f(b"m0", mode=0), f(b"mr", mode=0o444), f(b"mx", mode=0o755), f(b"mw", mode=0o200, size=1), f(b"mX", mode=0o111), f(b"mm", mode=0o777)]
    k = rng.randint(8, 13)
    rng.shuffle(rest)
    plan += must + sorted(rest[:k], key=lambda e: len(e["p"]))
    have = {e["p"] for e in plan}
    plan[:] = [e for e in plan if e["p"][:-1] in have or len(e["p"]) == 1]


def z_num(opt, lo, hi):
    return lambda c: [opt, c.rng.choice([b"", b"+", b"-", b"+", b"-"]) + b"%d" % c.rng.randint(lo, hi)]


def z_words(*ws):
    return lambda c: list(c.rng.choice([w.split(b" ") for w in ws]))


ZOO = {
    "type": [z_words(*[b"-%stype %s" % (x, t) for x in (b"", b"x") for t in (b"f", b"d", b"l", b"p", b"s", b"f,d", b"d,l", b"l,p", b"f,l,s", b"d,s")])] * 3 +
            [z_words(b"-empty")] * 3 + [z_words(b"-lname *", b"-lname e", b"-ilname D0"), z_num(b"-links", 0, 2), z_words(b"-sparse", b"-hidden", b"-size 0", b"-size -1", b"-size +0")],
    "size": [z_words(*[b"-size %s%s" % (s, v) for s in (b"", b"+", b"-") for v in
                       (b"0c", b"1c", b"2c", b"511c", b"512c", b"513c", b"0", b"1", b"2", b"0w", b"1w", b"256w", b"0k", b"1k", b"2b", b"1M", b"0M")])] * 5 +
            [z_words(b"-empty"), z_words(b"-type f", b"-type d", b"-type f,d", b"-sparse")],
    "uid": [z_words(*[b"-uid %s%s" % (s, v) for s in (b"", b"+", b"-") for v in (b"0", b"1", b"2", b"12345", b"12344", b"54321")])] * 4 +
           [z_words(b"-nouser"), z_words(b"-nouser"), z_words(b"-user root", b"-user daemon", b"-user 12345", b"-user 7")],
    "gid": [z_words(*[b"-gid %s%s" % (s, v) for s in (b"", b"+", b"-") for v in (b"0", b"1", b"2", b"12345", b"12344", b"54321")])] * 4 +
           [z_words(b"-nogroup"), z_words(b"-nogroup"), z_words(b"-group root", b"-group daemon", b"-group 12345", b"-group 7")],
    "num": [z_num(b"-depth", 0, 3), z_num(b"-depth", 0, 3), z_num(b"-links", 0, 3), z_num(b"-links", 0, 3), l_inum, l_inum, l_samefile, l_samefile, z_words(b"-type d", b"-true", b"-false")],
    "access": [z_words(b"-readable", b"-writable", b"-executable")] * 4 + [z_words(b"-hidden", b"-perm -400", b"-perm /222", b"-uid 0", b"-type f", b"-sparse", b"-empty")],
    "mix": [z_words(b"-hidden", b"-empty", b"-sparse", b"-nouser", b"-nogroup", b"-readable", b"-xattr", b"-type f", b"-xtype l", b"-name e", b"-name *", b"-path ./d*", b"-true", b"-false")] * 2 +
           [z_num(b"-depth", 0, 3), z_words(b"-uid 0", b"-gid +0", b"-size +0c", b"-size -1")],
}
ZW = {"type": 5, "size": 5, "uid": 2, "gid": 2, "num": 4, "access": 1.5, "mix": 2}


def zoo_pair(c):
    r = c.rng
    g = ZOO[wpick(r, ZW)]
    n = lambda: ([b"!"] if r.random() < .4 else []) + r.choice(g)(c)
    a, b = n(), n()
    k = r.random()
    lab = lambda s: [b"-printf", s]
    if k < .3:
        return a + b
    if k < .45:
        return a + [b"-o"] + b
    if k < .55:
        return a + b + n()
    if k < .63:
        return a + [b"-o"] + b + [b"-o"] + n()
    if k < .71:
        return [b"("] + a + [b"-o"] + b + [b")"] + n()
    if k < .78:
        return a + b + [b"-o"] + n()
    if k < .84:
        return [b"("] + a + [b","] + b + [b")"] + n()
    if k < .88:
        return [b"!", b"("] + a + r.choice([[], [b"-o"], [b","]]) + b + [b")"] + n()
    if k < .92:
        return a + [b"-print0"] + [b"-o"] + b + n()
    if k < .96:
        return [b"("] + a + [b"-print0"] + [b","] + b + [b")"] + n()
    return a + r.choice([[b"-prune"], [b"-print0"], [b"!", b"-print0"]]) + [b"-o"] + b + n()


def zoo_extra(c, kw, argv):
    argv += probes(c, zoo_pair, c.rng.randint(5, 9))


P["P06"] = P["P06"][:3] + [
    dict(tree=dict(n=(0, 0), chain=0, wide=0), plan_fix=zoo, leaves=PATHY, actions=IFACE, pexpr=0, psort=1, pO=.95, dflt=1, nroots=[1], pdepth=.1, mindepth=.08, maxdepth=.08,
         extra=zoo_extra, follow={"P": 5, "H": 1, "L": 5}, pj=.2),
] * 2


# --- extended attributes ------------------------------------------------------

def with_xattrs(prof, p, leaf=0, **kw):
    q = dict(prof, tree=dict(prof["tree"], xattrs=p), **kw)
    if leaf:
        q["leaves"] = dict(q["leaves"], xattr=leaf)
    return q


P["P12"][0] = with_xattrs(P["P12"][0], .15)
P["P13"] = [with_xattrs(P["P13"][0], .25, 2), P["P13"][1], with_xattrs(P["P13"][2], .3, 3)]
P["P21"] = [with_xattrs(q, .2) for q in P["P21"][:-1]] + P["P21"][-1:]


# --- mount points (pretended by the shim) ------------------------------------

P["P03"].append(
    dict(tree=dict(BASE, n=(4, 14), depth=6, kinds={"f": 3, "d": 7, "l": .5}, mounts=1), leaves=dict(PATHY, samefile=.5), actions={"print": 3, "prune": 1, "printf": 1}, pact=.4,
         psort=.6, pdepth=.4, follow={"P": 5, "H": 1, "L": 1.5}, p_xdev=.55, p_mount=.5, mindepth=.2, maxdepth=.2, nroots=[1, 1, 2, 3], exclude=.1, p_unique=.1, dflt=.5))

# --- commands given by a path -------------------------------------------------

P["P08"].append(
    dict(tree=dict(BASE, n=(3, 12), noperm=.08, nasty=.2, kinds={"f": 6, "d": 5, "l": 1.5}, progs=.6, collide=.3), leaves=PATHY, actions=dict(exec=6, print=1), cmds=.9, ok=1,
         pact=.75, psort=.85, edepth=[0, 1, 2], pdepth=.2, nroots=[1, 1, 2, 3], dflt=.4, dups=.1, pexpr=1, maxdepth=.1))

# --- -X ------------------------------------------------------------------------

P["P09"].append(
    dict(tree=dict(BASE, n=(4, 14), nasty=.55, noperm=.05), leaves=PATHY, actions=IFACE, pX=1, psort=.7, pdepth=.3, pj=.4, dflt=.5, pexpr=.6, nroots=[1, 2, 3], maxdepth=.1,
         p_noerror=.08, mindepth=.1))


# --- output that cannot be written ---------------------------------------------

def full_extra(c, kw, argv):
    r = c.rng
    used = [k for k in range(3 if kw.get("log") else 2, 5) if any(a.endswith(b"/%d" % k) and b"o/" in a for a in argv)]
    kw["full"] = r.choice(used) if used and r.random() < .6 else 1
    for i in range(len(argv) - 1, -1, -1):
        if argv[i] == b"-exit" and argv[i + 1:i + 2] not in ([b"1"], [b"7"], [b"255"], [b"42"]):
            argv[i + 1:i + 2 if argv[i + 1:i + 2] == [b"0"] else i + 1] = [b"7"]


P["P12"].append(
    dict(tree=dict(BASE, n=(2, 9), nasty=.2, noperm=.1), leaves=PATHY, actions=dict(print=4, printf=3, ls=1, fprint=6, exec=2, quit=.4, exit=.4), pact=.7, streams=1, psort=.9, edepth=[0, 1, 2],
         pdepth=.1, pexpr=1, dflt=.5, extra=full_extra))
P["P09"].append(P["P12"][-1])

# --- starting paths that are not there -----------------------------------------

P["P17"].append(
    dict(tree=dict(LINKS, n=(3, 9), noperm=.1), leaves=PATHY, actions=IFACE, psort=.7, pdepth=.3, pj=.5, dflt=.1, pexpr=.5, nroots=[1, 2, 3, 4], follow={"P": 2, "H": 2, "L": 2},
         p_ignore_readdir_race=.7, maxdepth=.1))

# --- files that cannot be examined ---------------------------------------------

STATS = dict(tree=dict(BASE, n=(5, 12), modes=.1, kinds={"f": 5, "d": 5, "l": 1.5, "h": .5}), leaves=dict(PATHY, size=2, links=1, owner=1, time=1, perm=1, inum=.5, access=.5),
             actions=dict(IFACE, printf=.5), psort=.6, pdepth=.25, pj=.6, dflt=1, pexpr=.9, follow={"P": 1}, pdtunk=0, pO=0, maxdepth=.1)
for q, errs, kw in (("P09", ["EACCES", "EIO", "ENOMEM", "ESTALE", "EPERM"], dict(p_noerror=.05)), ("P17", ["ENOENT", "ENOTDIR", "EIO", "EACCES"], dict(p_ignore_readdir_race=.5))):
    P[q] += [dict(STATS, extra=fault_extra(["stat", "stat", "open", "read"], errs, (1, 4), b"-O0"), **kw),
             dict(STATS, edepth=[0], pact=0, extra=fault_extra(["stat", "stat", "open", "read"], errs, (1, 4)), **kw)]
