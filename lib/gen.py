"""Random commands and trees for the conformance checks."""
import re
from cases import *

STRATS = [b"bfs", b"dfs", b"ids", b"eds"]


class Ctx:
    def __init__(self, rng, plan, prof):
        self.rng, self.plan, self.prof = rng, plan, prof
        self.names = [e["p"][-1] for e in plan if len(e["p"]) > 1] or [b"a"]
        self.inw = [e for e in plan if e["p"][0] == b"w" and len(e["p"]) > 1]
        self.rel = [b"/".join(e["p"][1:]) for e in self.inw] or [b"a"]
        self.dirs = [b"/".join(e["p"][1:]) for e in self.inw if e["t"] == "d"] or [b"."]
        self.links = [e for e in plan if e["t"] == "l"]
        self.streams = 1
        self.stdin = b""
        self.spell = {}
        self.now = 0
        self.tzoff = 0
        self.umask = 0o22

    def entry(self, kinds=None):
        es = [e for e in self.inw if kinds is None or e["t"] in kinds]
        return self.rng.choice(es) if es else None

    def tune(self, p=.6):
        """Whether to adapt a file to the test just generated, to get close to its boundary."""
        return self.prof.get("tune", True) and self.rng.random() < p

    def ref(self):
        """A path that can be named on the command line (mostly exists)."""
        r = self.rng.choice(self.rel) if self.rng.random() < 0.9 else b"nope"
        return b"./" + r if r[:1] in (b"-", b"(", b"!", b")", b",") or self.rng.random() < 0.2 else r


# --- patterns ---------------------------------------------------------------

CLASSES = [b"alpha", b"digit", b"alnum", b"lower", b"upper", b"punct", b"space", b"print", b"xdigit", b"graph", b"cntrl", b"blank"]


def glob_of(rng, s):
    out = b""
    i = 0
    while i < len(s):
        c = s[i:i + 1]
        r = rng.random()
        if r < 0.5:
            out += b"\\" + c if c in b"*?[\\" and rng.random() < 0.9 else c
        elif r < 0.6:
            out += b"?"
        elif r < 0.72:
            out += b"*"
            i += rng.randrange(0, 4)
            continue
        elif r < 0.8 and c not in b"]-!^[\\:" and c < b"\x80":
            lo, hi = sorted([c[0], max(33, min(126, c[0] + rng.randrange(-3, 4)))])
            if any(x in b"]-!^[\\/:" for x in (lo, hi)):
                out += c
            elif rng.random() < 0.5:
                out += b"[%c-%c]" % (lo, hi)
            else:
                out += b"[%s%c%c]" % (rng.choice([b"", b"!", b"^"]), lo, hi)
        elif r < 0.85:
            out += b"[[:%s:]]" % rng.choice(CLASSES)
        elif r < 0.88:
            out += b"\\" + c
        elif r < 0.92:
            out += rng.choice([b"[]a]", b"[!]a]", b"[a-]", b"[", b"[a", b"[*]", b"[?]", b"\\?", b"**", b"?*", b"[[:alpha:]0-9_]"])
        else:
            out += c.swapcase()
        i += 1
    return out


def rx_esc(c):
    return b"\\" + c if c in b".*[]\\^$+?(){}|" else c


def regex_of(rng, s, ere):
    out = b""
    i = 0
    star = True       # an operator may follow
    while i < len(s):
        c = s[i:i + 1]
        r = rng.random()
        lit = c if c not in b".*[]\\^$+?(){}|" else (b"[%s]" % c if c not in b"]\\^[" else b"\\" + c)
        if not ere and c in b"+?(){}|":
            lit = c
        if c >= b"\x80":
            lit = b"."
        if r < 0.5:
            out += lit
        elif r < 0.6:
            out += b"."
        elif r < 0.7:
            out += b".*"
            i += rng.randrange(0, 4)
            continue
        elif r < 0.75:
            out += lit + b"*"
        elif r < 0.82 and ere:
            k = rng.randrange(4)
            if k == 0:
                out += b"(%s|%s)" % (lit, rng.choice([b"b", b"x", b"a", b"[0-9]"]))
            elif k == 1:
                out += lit + rng.choice([b"+", b"?", b"{1}", b"{1,3}", b"{0,2}", b"{2,}"])
            elif k == 2:
                out += b"(%s|%s.)" % (lit, lit)
            else:
                out += b"(%s)" % lit
        elif r < 0.82:
            out += rng.choice([b"\\(%s\\)" % lit, lit + b"\\{1,2\\}", lit + b"\\{1\\}"])
        elif r < 0.9:
            out += rng.choice([b"[[:alpha:]]", b"[a-z]", b"[^a]", b"[^/]", b"[./]", b"[[:alnum:]_.]", b"[]a/.]"])
        elif r < 0.95:
            out += lit
        else:
            out += b"z" if rng.random() < 0.3 else lit
        i += 1
    return out


# --- leaves -----------------------------------------------------------------

def sign(rng):
    return rng.choice([b"", b"+", b"-"])


def num(rng, lo, hi):
    return sign(rng) + str(rng.randint(lo, hi)).encode()


def l_name(c):
    r = c.rng
    base = r.choice(c.names)
    n = glob_of(r, base) if r.random() < 0.7 else base
    if c.tune(.25) and c.prof.get("grow", True):
        # add a near miss
        k = r.randrange(5)
        i = r.randrange(len(base) + 1)
        m = (base[:i] + base[i + 1:] if k == 0 else base[:i] + r.choice([b"a", b"*", b"?", b"\\", b".", b"[", b"]", b"-"]) + base[i:] if k == 1 else
             base.swapcase() if k == 2 else base[::-1] if k == 3 else base + base[-1:])
        ds = [e["p"] for e in c.plan if e["t"] == "d" and e["p"][0] == b"w" and e["mode"] & 0o700 == 0o700]
        q = r.choice(ds) + (m,) if ds else None
        if q and m not in (b"", b".", b"..") and len(m) < 256 and b"/" not in m and all(e["p"] != q for e in c.plan):
            c.plan.append({"p": q, "t": "f", "mode": 0o644, "uid": UID, "gid": GID})
    return [r.choice([b"-name", b"-name", b"-iname"]), n]


def l_path(c):
    r = c.rng
    p = r.choice([b"./", b"", b"*/"]) + glob_of(r, r.choice(c.rel))
    return [r.choice([b"-path", b"-ipath", b"-wholename"]), p]


def l_lname(c):
    r = c.rng
    if c.links and r.random() < 0.8:
        t = r.choice(c.links)["tgt"]
        t = t if b"@" not in t else b"*/w*"
    else:
        t = r.choice([b"*", b"a*", b"../*", b"n?where"])
    return [r.choice([b"-lname", b"-ilname"]), glob_of(r, t)]


def l_regex(c):
    r = c.rng
    ere = r.random() < 0.5
    longest = max(map(len, c.rel))
    if longest > 100:
        return l_path(c)        # the regex library gives up on long subjects
    p = b"./" + r.choice(c.rel)
    if r.random() < 0.15:
        p = r.choice(c.rel)
    pat = regex_of(r, p, ere)
    while longest > 30 and pat.count(b"*") > 2:
        pat = pat.replace(b"*", b"", 1)
    pre = [b"-regextype", b"posix-extended"] if ere else [b"-regextype", r.choice([b"posix-basic", b"ed", b"sed"])]
    return pre + [r.choice([b"-regex", b"-iregex"]), pat]


def l_type(c):
    r = c.rng
    ks = r.sample([b"f", b"d", b"l", b"p", b"s", b"b", b"c", b"D", b"w"][:7 if r.random() < .9 else 9], r.choice([1, 1, 1, 2, 3]))
    return [r.choice([b"-type", b"-type", b"-xtype"]), b",".join(ks)]


def l_size(c):
    r = c.rng
    v = r.choice([0, 1, 2, 3, 4, 5, 8, 10, 512, 513, 1024, 2048, 100, 700, 1023, 1025, 1 << 20, 1048577])
    u = r.choice([b"", b"c", b"k", b"w", b"b", b"M", b"G", b"T", b"c", b"k", b"P", b"c"])
    scale = {b"": 512, b"b": 512, b"c": 1, b"w": 2, b"k": 1 << 10, b"M": 1 << 20, b"G": 1 << 30, b"T": 1 << 40, b"P": 1 << 50}[u]
    e = c.entry("f")
    if e and r.random() < .6:
        if "size" in e and r.random() < .5:
            v = max(0, -(-e["size"] // scale) + r.choice([0, 0, 1, -1]))
        elif c.prof.get("tree", {}).get("sizes", 0) > 0:
            v = r.choice([0, 1, 1, 2, 3, r.randrange(10)])
            z = v * scale + r.choice([0, 0, 1, -1, scale - 1, 1 - scale])
            if 0 <= z < 1 << 43:
                e["size"] = z
    return [b"-size", sign(r) + str(v).encode() + u]


def l_links(c):
    return [b"-links", num(c.rng, 0, 4)]


def l_inum(c):
    r = c.rng
    e = r.choice(c.plan)
    return [b"-inum", ("ino", e["p"], sign(r))]


def l_owner(c):
    r = c.rng
    k = r.randrange(6)
    if k == 0:
        return [b"-uid", sign(r) + r.choice([b"0", b"1", b"2", b"12345", b"65534", b"54321"])]
    if k == 1:
        return [b"-gid", sign(r) + r.choice([b"0", b"1", b"2", b"12345", b"65534", b"4"])]
    if k == 2:
        return [b"-user", r.choice([b"root", b"daemon", b"nobody", b"12345", b"0", b"+1", b"-5"])]
    if k == 3:
        return [b"-group", r.choice([b"root", b"daemon", b"nogroup", b"12345", b"0", b"+1", b"adm"])]
    return [r.choice([b"-nouser", b"-nogroup"])]


def sym_mode(r):
    cl = []
    for _ in range(r.choice([1, 1, 2, 3])):
        who = b"".join(r.sample([b"u", b"g", b"o", b"a"], r.choice([0, 1, 1, 2, 3])))
        act = b""
        for _ in range(r.choice([1, 1, 2])):
            op = r.choice([b"+", b"=", b"-", b"="])
            if r.random() < 0.2:
                act += op + r.choice([b"u", b"g", b"o"])
            else:
                act += op + b"".join(r.sample([b"r", b"w", b"x", b"X", b"s", b"t"], r.choice([0, 1, 1, 2, 3])))
        cl.append(who + act)
    return b",".join(cl)


def mode_value(s, umask, isdir):
    """What a symbolic mode denotes (only used to pick interesting files)."""
    m = 0
    for cl in s.decode().split(","):
        i = 0
        who = 0
        while i < len(cl) and cl[i] in "ugoa":
            who |= {"u": 0o700, "g": 0o070, "o": 0o007, "a": 0o777}[cl[i]]
            i += 1
        mask = who or 0o777 & ~umask
        who = who or 0o777
        while i < len(cl):
            op = cl[i]
            i += 1
            ch = 0
            if i < len(cl) and cl[i] in "ugo":
                b = m >> {"u": 6, "g": 3, "o": 0}[cl[i]] & 7
                ch = (b | b << 3 | b << 6) & mask
                i += 1
            else:
                while i < len(cl) and cl[i] in "rwxXst":
                    k = cl[i]
                    i += 1
                    ch |= {"r": 0o444 & mask, "w": 0o222 & mask, "x": 0o111 & mask, "X": 0o111 & mask if isdir else 0,
                           "s": (0o4000 if who & 0o700 else 0) | (0o2000 if who & 0o070 else 0), "t": 0o1000 if who & 7 else 0}[k]
            m = (m & ~who | ch) if op == "=" else m | ch if op == "+" else m & ~ch
    return m


def l_perm(c):
    r = c.rng
    if c.tune(.5) and c.prof.get("tree", {}).get("modes", 0) >= .4:
        s = sym_mode(r)
        e = c.entry("fdp")
        if e:
            m = mode_value(s, c.umask, e["t"] == "d") | r.choice([0, 0, 0, 1 << r.randrange(12)])
            if r.random() < .2:
                m &= ~(1 << r.randrange(12))
            if e["t"] != "d" or (m & 0o500 == 0o500 and e["uid"] == UID):
                e["mode"] = m
            return [b"-perm", r.choice([b"", b"", b"-", b"/"]) + s]
    modes = [e["mode"] for e in c.plan if e["t"] != "l"]
    m = r.choice(modes) if r.random() < 0.7 else r.choice([0, 0o222, 0o111, 0o4000, 0o7000, 0o7777, 0o644])
    if r.random() < 0.3:
        m &= r.choice([0o700, 0o070, 0o007, 0o7000, 0o111])
    s = b"%o" % m if r.random() < 0.55 else sym_mode(r)
    if r.random() < 0.1 and s[:1].isdigit():
        s = b"0" + s
    return [b"-perm", r.choice([b"", b"-", b"/"]) + s]


def l_empty(c):
    return [b"-empty"]


def l_samefile(c):
    return [b"-samefile", c.ref()]


def l_depthn(c):
    return [b"-depth", num(c.rng, 0, 4)]


def l_access(c):
    return [c.rng.choice([b"-readable", b"-writable", b"-executable"])]


def l_sparse(c):
    return [b"-sparse"]


def l_xattr(c):
    r = c.rng
    return r.choice([[b"-xattr"], [b"-acl"], [b"-capable"], [b"-xattrname", r.choice([b"user.t", b"user.a", b"user.tt", b"user.T", b"security.capability",
                                                                                       b"system.posix_acl_access", b"system.posix_acl_default", b"nope"])]])


def l_hidden(c):
    return [b"-hidden"]


def l_bool(c):
    return [c.rng.choice([b"-true", b"-false", b"-true"])]


def l_time(c):
    r = c.rng
    k = r.randrange(7)
    f = r.choice([b"a", b"c", b"m", b"B", b"m"])
    if c.prof.get("tree", {}).get("times") and c.tune(.5):
        # a file right at the boundary of the test
        e = c.entry("fdp")
        f = r.choice([b"a", b"m"])
        fld = {b"a": "at", b"m": "mt"}[f]
        near = r.choice([0, 0, 1, -1, 10**9, -10**9, 5 * 10**8, 999999999])
        if e and k <= 2:
            u, name = r.choice([(60, b"min"), (86400, b"time"), (1, b"s"), (3600, b"h"), (86400, b"d"), (604800, b"w"), (60, b"m")])
            n = r.choice([0, 1, 2, 3, 7, 30])
            ref = c.now // 10**9 if u > 1 else c.now // 10**9
            e[fld] = c.now - (n + r.choice([0, 1, 0])) * u * 10**9 + near
            if name in (b"min", b"time"):
                return [b"-%s%s" % (f, name), sign(r) + str(n).encode()]
            return [b"-%stime" % f, sign(r) + str(n).encode() + name]
        e2 = c.entry("fdp")
        if e and e2 and e2 is not e and k in (3, 4) and "mt" in e2:
            e[fld] = e2["mt"] + near
            q = b"/".join(e2["p"][1:])
            return [b"-newer%sm" % f, b"./" + q]
        if e and k == 5:
            d, t = gen_date(c, True)
            if t is not None:
                e[fld] = t * 10**9 + near
            return [b"-newer" + f + b"t", d]
    if k == 0:
        return [b"-%smin" % f, sign(r) + str(r.choice([0, 1, 2, 7, 60, 1440, 1441, r.randrange(3000)])).encode()]
    if k == 1:
        return [b"-%stime" % f, sign(r) + str(r.choice([0, 1, 2, 7, 40, 400, 365])).encode()]
    if k == 2:
        parts = b"".join(str(r.choice([0, 1, 2, 10, 26, 90])).encode() + u
                         for u in r.choice([[b"s"], [b"m"], [b"h"], [b"d"], [b"w"], [b"d", b"h"], [b"h", b"m"], [b"d", b"h", b"m", b"s"], [b"w", b"s"]]))
        return [b"-%stime" % f, sign(r) + parts]
    if k == 3:
        return [r.choice([b"-newer", b"-anewer", b"-cnewer", b"-mnewer", b"-Bnewer"]), c.ref()]
    if k == 4:
        return [b"-newer" + f + r.choice([b"a", b"c", b"m", b"B"]), c.ref()]
    if k == 5:
        return [r.choice([b"-newer" + f + b"t", b"-%ssince" % f, b"-since"]), gen_date(c)]
    return [b"-used", num(r, 0, 3)]


def gen_date(c, both=False):
    import datetime
    r = c.rng
    mts = [e["mt"] // 10**9 for e in c.plan if "mt" in e]
    t = r.choice(mts) + r.choice([0, 0, 1, -1, 3600, -3600, 86400]) if mts and r.random() < 0.7 else T0 + r.randrange(-10**7, 10**6)
    if r.random() < 0.12:
        d = b"@" + str(t).encode() if t >= 0 else b"@%d" % t
        return (d, t) if both else d
    zone = r.random() < .6
    off = r.choice([0, 0, 3600, -18000, 19800, 20700, -34200, -12600, 45900, -1800]) if zone else c.tzoff
    dt = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t + off)
    ds = r.choice(["-", "-", ""])
    ts = r.choice([":", ":", ""])
    s = "%04d%s%02d%s%02d" % (dt.year, ds, dt.month, ds, dt.day)
    lvl = r.choice([0, 1, 2, 3, 3, 3])
    if lvl >= 1:
        s += r.choice(["T", " ", "T"]) + "%02d" % dt.hour
        if lvl >= 2:
            s += ts + "%02d" % dt.minute
            if lvl >= 3:
                s += ts + "%02d" % dt.second
        if zone:
            if off == 0:
                s += "Z" if r.random() < 0.6 else "+00:00"
            else:
                a = abs(off)
                s += "%s%02d" % ("+" if off > 0 else "-", a // 3600)
                if a % 3600 or r.random() < 0.5:
                    s += r.choice([":", ""]) + "%02d" % (a // 60 % 60)
    if r.random() < 0.1:
        # spoil a valid date somewhere
        i = r.randrange(len(s) + 1)
        s = r.choice([s[:i] + s[i + 1:], s[:i] + r.choice("0123459:-+TZ .x") + s[i:], s[:i] + r.choice("059:-+TZx") + s[i + 1:], s[:-1], s[:-1]])
        t = None
    elif r.random() < 0.06:
        s = r.choice([s + "x", s[:-1], "2026-13-45", "20261", "2026-1-1", s + " ", "", "now", "@", "@1x", s + "+1", "2026-01-01T", "2026-01-01T10:", "-5"])
        t = None
    elif lvl == 0:
        t -= (t + c.tzoff) % 86400
    elif lvl == 1:
        t -= (t + off) % 3600
    elif lvl == 2:
        t -= (t + off) % 60
    return (s.encode(), t) if both else s.encode()


FMT_DIRS = b"abcdDfgGhHiklmMnpPstuUwyY"
FMT_TIMES = b"%+@aAbBcCdDeFgGhHIjklmMnprRsStTuUVwWxXyYz"


def gen_format(c, stat=True, times=True):
    r = c.rng
    out = b""
    dirs = FMT_DIRS if stat else b"dfhHpPyYl"
    for _ in range(r.randint(1, 6)):
        k = r.random()
        if k < 0.12:
            out += r.choice([b"x", b" ", b"|", b"[", b"%%", b"abc", b"\xc3\xa9"])
        elif k < 0.22:
            out += b"\\" + r.choice([b"n", b"t", b"0", b"101", b"7", b"\\", b"a", b"b", b"f", b"r", b"v", b"1234", b"60"])
        elif k < 0.24:
            out += b"\\c"
        elif k < 0.85 or not times:
            d = bytes([r.choice(dirs)])
            fl = b""
            if r.random() < 0.35:
                if d in b"dm":
                    fl = b"".join(r.sample([b"-", b"+", b" ", b"0", b"#"], r.randint(0, 2)))
                else:
                    fl = r.choice([b"", b"-"])
                fl += r.choice([b"", b"5", b"12", b"3", b"20"])
                fl += r.choice([b"", b"", b".3", b".0", b".", b".10"])
            out += b"%" + fl + d
        else:
            out += b"%" + r.choice([b"", b"", b"-30", b"40"]) + bytes([r.choice(b"ACTBW"), r.choice(FMT_TIMES)])
        out += r.choice([b"", b" ", b":"])
    return out + b"\\n"


def a_print(c):
    return [c.rng.choice([b"-print", b"-print", b"-print0", b"-printx"])]


def stream(c):
    r = c.rng
    k = r.choice([2, 3, 4]) if c.prof.get("streams", 0) else 1
    if k == 1:
        return None
    c.streams = max(c.streams, 4)
    n = b"../../o/%d" % k
    for alt in (b"../../o/./%d" % k, b"../../c/../o/%d" % k, b"@O@/%d" % k):
        if r.random() < 0.2:
            c.spell[alt] = k
            return alt
    return n


def a_fprint(c):
    r = c.rng
    f = stream(c)
    if r.random() < 0.2:
        f = b"/dev/stdout"
        c.spell[f] = 1
    if f is None:
        return [b"-print"]
    k = r.randrange(5)
    if k == 0:
        return [b"-fprint", f]
    if k == 1:
        return [b"-fprint0", f]
    if k == 2:
        return [b"-fls", f]
    return [b"-fprintf", f, gen_format(c)]


def a_printf(c):
    return [b"-printf", gen_format(c)]


def a_printf_path(c):
    return [b"-printf", gen_format(c, False, False)]


def a_printf_col(c):
    r = c.rng
    f = b""
    for _ in range(r.randint(1, 4)):
        f += r.choice([b"", b" ", b"x", b"\\n"]) + b"%" + r.choice([b"", b"", b"", b"", b"-9", b"12", b".3"]) + r.choice([b"p", b"f", b"h", b"H", b"P", b"l", b"l", b"y", b"d"])
    return [b"-printf", f + b"\\n"]


def a_ls(c):
    return [b"-ls"]


def a_prune(c):
    return [b"-prune"]


def a_quit(c):
    return [b"-quit"]


def a_exit(c):
    r = c.rng
    return [b"-exit"] + r.choice([[], [b"0"], [b"1"], [b"7"], [b"255"], [b"42"]])


def a_limit(c):
    return [b"-limit", str(c.rng.choice([1, 1, 2, 3, 5, 8])).encode()]


def a_delete(c):
    return [c.rng.choice([b"-delete", b"-delete", b"-rm"])]


def command(c):
    """A command given by a path: a copy of the helper, or a file that is none."""
    r = c.rng
    ps = [e["p"] for e in c.plan if e.get("prog")] + [e["p"] for e in c.plan if r.random() < .1]
    p = r.choice(ps or [(b"w", b"none")])
    k = r.randrange(6)
    if k == 0:
        return b"{}"
    if k == 1:
        return b"./{}" if r.random() < .5 else b"../{}"
    if k == 2:
        return b"@ABS@/" + b"/".join(p)
    if k == 3:
        return b"./" + b"/".join(p[1:]) if p[1:] else b"./x"
    return r.choice([b"./", b"./", b".//", b"../"]) + p[-1]


def a_exec(c):
    r = c.rng
    kind = r.choice([b"-exec", b"-exec", b"-execdir", b"-execdir", b"-ok", b"-okdir"] if c.prof.get("ok") else [b"-exec", b"-execdir"])
    cmd = [b"vh", r.choice([b"t", b"t", b"f", b"e", b"e", b"k"])]
    if r.random() < 0.04:
        cmd = [r.choice([b"nonexistent-cmd", b"/nonexistent/x"])]
    if c.prof.get("cmds") and r.random() < c.prof["cmds"]:
        cmd[0] = command(c)
    multi = r.random() < 0.4 and not kind.startswith(b"-ok")
    extra = [r.choice([b"x", b"{}", b"a{}b", b"{}{}", b"--", b"", b"+", b"{", b"}{", b"-o", b"(", b"{}{"]) for _ in range(r.randint(0, 3))]
    if multi:
        extra = [x for x in extra if b"{}" not in x and x != b";"]
        return [kind] + cmd + extra + [b"{}", b"+"]
    toks = extra + ([b"{}"] if r.random() < 0.8 else [])
    # "{} +" would end the command
    toks = [t for i, t in enumerate(toks) if not (t == b"+" and i > 0 and toks[i - 1] == b"{}")]
    if kind.startswith(b"-ok"):
        c.stdin += b"".join(r.choice([b"y\n", b"n\n", b"\n", b"yes\n", b"Y\n", b"x\n", b"no\n"]) for _ in range(r.randint(0, 6)))
    return [kind] + cmd + toks + [b";"]


LEAVES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("l_")}
ACTIONS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("a_")}


def leaf(c):
    p = c.prof
    if c.rng.random() < p.get("pact", 0.3):
        return ACTIONS[wpick(c.rng, p["actions"])](c)
    return LEAVES[wpick(c.rng, p["leaves"])](c)


FAMILIES = {
    "size": {"size": 6, "empty": 2, "type1": 2, "sparse": .3},
    "owner": {"owner": 6, "access": 1},
    "links": {"links": 4, "type1": 1}, "depth": {"depthn": 5, "type1": 1, "bool": 1},
    "inum": {"inum": 3, "samefile": 4, "links": 1}, "type": {"type": 5, "lname": 2, "empty": 2, "sparse": .5, "type1": 1},
    "name": {"name": 3, "hidden": 3, "path": 1}, "access": {"access": 4, "perm": 2, "owner": 1}, "time": {"time": 1},
    "any": None,
}


def l_type1(c):
    return [c.rng.choice([b"-type", b"-type", b"-xtype"]), c.rng.choice([b"f", b"d", b"l", b"f", b"d"])]


LEAVES["type1"] = l_type1


def family(c):
    """An expression over related tests, labelled by both outcomes."""
    f = c.rng.choice([k for k in c.prof.get("families", FAMILIES)])
    p = dict(c.prof, pact=c.prof.get("fam_act", .05), leaves=FAMILIES[f] or {k: 1 for k in LEAVES})
    old, c.prof = c.prof, p
    e = expr(c, c.rng.choice([1, 2, 2, 3]))
    c.prof = old
    return e


def probes(c, sub, k):
    """Several independent expressions in one command, each labelled."""
    out = []
    for i in range(k):
        e = [b"("] + sub(c) + [b")"]
        lab = b"%d" % i
        yes = [b"-printf", lab + b"+ %p\\n"]
        no = [b"-printf", lab + b"- %p\\n"]
        m = c.rng.random()
        part = (e + yes + [b"-o"] + no if m < .5 else e + yes if m < .75 else [b"!"] + e + no if m < .85 else e + [b"-o"] + no)
        out += ([b","] if out else []) + [b"("] + part + [b")"]
    return out


def expr(c, d):
    r = c.rng
    k = r.random()
    if d <= 0 or k < 0.3:
        return leaf(c)
    if k < 0.4:
        return [r.choice([b"!", b"-not"])] + factor(c, d - 1)
    if k < 0.5:
        return [b"("] + expr(c, d - 1) + [b")"]
    a, b = expr(c, d - 1), expr(c, d - 1)
    if k < 0.68:
        return a + b
    if k < 0.74:
        return a + [r.choice([b"-a", b"-and"])] + b
    if k < 0.94:
        return a + [r.choice([b"-o", b"-or"])] + b
    return a + [b","] + b


def factor(c, d):
    r = c.rng
    if r.random() < 0.5:
        return leaf(c)
    return [b"("] + expr(c, d) + [b")"]


# --- whole commands ---------------------------------------------------------

def gen_roots(c):
    r = c.rng
    p = c.prof
    k = r.random()
    if k < p.get("dflt", 0.45):
        return [], []
    rs = []
    for _ in range(r.choice(p.get("nroots", [1, 1, 1, 2, 3]))):
        q = r.choice(c.dirs) if r.random() < 0.6 else r.choice(c.rel)
        v = r.random()
        if v < 0.35:
            q = q
        elif v < 0.45:
            q = b"./" + q
        elif v < 0.55:
            q += b"/"
        elif v < 0.60:
            q = b"."
        elif v < 0.64:
            q = b"./"
        elif v < 0.68:
            q = b"../w"
        elif v < 0.70 and p.get("tree", {}).get("outside"):
            q = b"../x"
        elif v < 0.76:
            q = b"@ABS@/w/" + q
        elif v < 0.80 and p.get("badroots", True):
            q = b"nope"
        elif v < 0.84:
            q = q + b"/."
        elif v < 0.86:
            q = q + b"//"
        if q[:1] == b"-" or q in (b"(", b"!", b")", b",", b""):
            q = b"./" + q
        rs.append(q)
    if r.random() < p.get("dups", 0.1) and rs:
        rs.append(r.choice(rs))
    if r.random() < 0.05 and not p.get("disjoint"):
        return [], [x for q in rs for x in (b"-f", q)]
    return rs, []


def gen_case(rng, prof):
    p = dict(prof)
    if callable(p.get("vary")):
        p = p["vary"](rng, p)
    plan = gen_tree(rng, p.get("tree", {}))
    if "plan_fix" in p:
        p["plan_fix"](rng, plan)
    c = Ctx(rng, plan, p)
    c.now = (T0 + rng.choice([0, 0, 86400 * 140, 5, -3600, rng.randrange(-10**5, 10**5)])) * 10**9 + rng.choice([0, 0, 5 * 10**8, rng.randrange(10**9)])
    if p.get("realnow"):
        c.now = int(time.time()) * 10**9 + rng.choice([0, 10**9 * 86400, 10**9 * 3600, 60 * 10**9, 0])
    tz = rng.choice([(b"UTC", 0), (b"UTC", 0), (b"AAA", 3600), (b"BBB", -18000), (b"CCC", 19800)])
    c.tzoff = tz[1]
    c.umask = rng.choice([0o22, 0o22, 0o77, 0, 0o27])
    roots, rootflags = gen_roots(c)
    if p.get("disjoint") and len(roots) > 1:
        # one starting path per top-level entry, so that no file is reachable twice
        tops = {}
        for q in roots:
            k = [x for x in q.replace(b"@ABS@/w/", b"").split(b"/") if x not in (b"", b".")]
            if k and k[0] != b"..":
                tops.setdefault(k[0], q)
        roots = list(tops.values()) or [b"."]
    flags = list(rootflags)
    sort = rng.random() < p.get("psort", 0.7)
    if len(roots) > 1 and len(plan) > 9:
        sort = True     # overlapping starting paths without -s: keep the possible orders few
    st = rng.choice(p.get("strats", STRATS))
    opts = []
    if st != b"bfs" or rng.random() < 0.2:
        flags.append([b"-S", st] if rng.random() < 0.6 else [b"-S" + st])
    fl = wpick(rng, p.get("follow", {"P": 8, "H": 1, "L": 1}))
    if p.get("disjoint") and fl != "P":
        roots = roots[:1]
    if p.get("disjoint") and "plan_fix" not in p:
        # a starting path that goes through a link may lead to its own directory, and delete itself
        links = {b"/".join(e["p"][1:]) for e in plan if e["t"] == "l" and e["p"][0] == b"w"}
        through = lambda q: q[-1:] in (b"/", b".") or fl != "P"
        norm = lambda q: b"/".join(x for x in q.replace(b"@ABS@/w/", b"").split(b"/") if x not in (b"", b"."))
        roots = [q for q in roots if not (norm(q) in links and through(q))] or [b"."]
    if fl != "P" or rng.random() < 0.05:
        (opts if fl == "L" and rng.random() < 0.2 else flags).append(
            [b"-follow"] if fl == "L" and rng.random() < 0.2 else [b"-" + fl.encode()])
    if p.get("tree", {}).get("noperm"):
        # whether an unneeded stat() is attempted (and fails) depends on the optimization level
        flags.append([b"-O0"])
    elif rng.random() < p.get("pO", 0.3):
        flags.append([b"-O" + rng.choice([b"0", b"1", b"2", b"3", b"fast", b"4"])])
    if rng.random() < p.get("pj", 0.4):
        flags.append([b"-j" + rng.choice([b"1", b"2", b"3", b"4", b"8"])])
    post = rng.random() < p.get("pdepth", 0.15)
    if post or "tail" in p or fl == "L":
        # -O4 and -Ofast infer -maxdepth: they may reorder visits under -depth, and not reach loops
        flags = [[b"-O3"] if f in ([b"-O4"], [b"-Ofast"]) else f for f in flags]
    if post:
        (flags if rng.random() < 0.1 else opts).append(rng.choice([[b"-depth"], [b"-depth"], [b"-d"]]))
    for name, opt in (("mindepth", b"-mindepth"), ("maxdepth", b"-maxdepth")):
        if rng.random() < p.get(name, 0.1):
            opts.append([opt, str(rng.choice([0, 1, 1, 2, 2, 3, 5])).encode()])
    for name in ("xdev", "mount", "unique", "nohidden", "noerror", "ignore_readdir_race", "daystart"):
        if rng.random() < p.get("p_" + name, 0):
            opts.append([b"-" + name.encode()] if name != "xdev" or rng.random() < 0.8 else [b"-x"])
    if rng.random() < p.get("pX", 0):
        flags.append([b"-X"])
    if [b"-unique"] in opts and (post or any(o[0] == b"-mindepth" for o in opts)):
        sort = True     # which duplicate wins is decided by visits that leave no trace
    if sort:
        flags.append([b"-s"])
    rng.shuffle(flags) if not rootflags else None
    flags = [x for f in flags for x in (f if isinstance(f, list) else [f])]
    for _ in range(1 if rng.random() < p.get("exclude", 0) else 0):
        c2 = Ctx(rng, plan, dict(p, pact=0))
        opts.append([b"-exclude"] + factor(c2, 1))
    e = []
    if rng.random() < p.get("pexpr", 0.9):
        if "probe" in p:
            e = probes(c, family if p["probe"] == "family" else leaf, rng.randint(*p.get("nprobe", (2, 5))))
        else:
            e = expr(c, rng.choice(p.get("edepth", [0, 1, 2, 2, 3])))
    tail = p["tail"](c) if "tail" in p else []
    if tail:
        e = ([b"("] + e + [b")"] if e else []) + tail
    kw = {}
    if not sort:
        e = [b"-fprintf", b"../../o/2", b"%p\\0"] + ([b"("] + e + [b")"] if e else [])
        c.streams = max(c.streams, 2)
        kw["log"] = 2
    # spread options: in front of the expression or between terms at the top level
    front = []
    back = []
    for o in opts:
        (front if rng.random() < 0.7 else back).append(o)
    front = [x for o in front for x in o]
    back = [x for o in back for x in o]
    mid = front + e + back
    if back and not e:
        mid = front + back
    where = rng.random()
    if where < 0.8 or any(x[:1] == b"-" for x in roots):
        argv = flags + roots + mid
    elif where < 0.9:
        argv = roots + flags + mid
    else:
        argv = flags + mid + roots
    for i, a in enumerate(argv[:-1]):
        if a in (b"-depth", b"-d") and a not in e and re.match(rb"[-+]?[0-9]", argv[i + 1]):
            argv[i + 1] = b"./" + argv[i + 1]       # not -depth N
    if any(a == b"-xattrname" for a in argv) and any(e["t"] in "fdh" and e.get("mode", 0) & 0o444 != 0o444 for e in plan):
        # an unneeded test of an unreadable file's attributes may or may not be made (and fail)
        argv = [b"-O0"] + [a for a in argv if not (isinstance(a, bytes) and re.match(rb"-O([0-9]|fast)$", a))]
    if "streams" not in kw:
        kw["streams"] = c.streams
    kw["spell"] = c.spell
    kw["stdin"] = c.stdin
    kw["eager"] = bool(p.get("tree", {}).get("noperm")) or bool(p.get("tree", {}).get("modes"))
    kw["now"], kw["tz"], kw["umask"] = c.now, tz, c.umask
    kw["shm"] = bool(p.get("tree", {}).get("targets", {}).get("dev2"))
    if rng.random() < p.get("nouring", 0.3):
        kw["nouring"] = True
        if rng.random() < 0.5:
            kw["delay"] = rng.randrange(1, 10**6)
    if rng.random() < p.get("pchunk", .15):
        kw["chunk"] = rng.choice([100, 320, 600, 1500])
    if rng.random() < p.get("pdtunk", .12) and not p.get("tree", {}).get("noperm"):
        kw["dtunk"] = rng.randrange(1, 10**6)
    if "rlimit" in p and rng.random() < p.get("prlimit", .9):
        kw["rlimit"] = rng.randint(*p["rlimit"]) + c.streams + argv.count(b"-execdir")
    if "extra" in p:
        p["extra"](c, kw, argv)
    return Case(plan, argv, **kw)
