"""Fixed cases: the histories of the defects that were repaired, and shapes worth trying on every run."""
from cases import *


def F(p, **kw):
    return dict({"p": (b"w",) + tuple(x.encode() for x in p.split("/")), "t": "f", "mode": 0o644, "uid": UID, "gid": GID}, **kw)


def D(p, **kw):
    return F(p, t="d", mode=kw.pop("mode", 0o755), **kw)


def L(p, tgt, **kw):
    return F(p, t="l", tgt=tgt.encode(), **kw)


def H(p, to):
    return F(p, t="h", to=(b"w",) + tuple(x.encode() for x in to.split("/")))


W = {"p": (b"w",), "t": "d", "mode": 0o755, "uid": UID, "gid": GID}
X = [{"p": (b"x",), "t": "d", "mode": 0o755, "uid": UID, "gid": GID},
     {"p": (b"x", b"f"), "t": "f", "mode": 0o644, "uid": UID, "gid": GID}]


def T(*es):
    return [dict(W)] + list(es)


def C(plan, argv, **kw):
    return Case(plan, [a.encode() if isinstance(a, str) else a for a in (argv.split() if isinstance(argv, str) else argv)], **kw)


BASIC = T(D("a"), D("a/b"), D("a/b/c"), F("a/b/c/f"), F("a/g"), D("d"), D("d/e"), F("d/e/h"), F("i"), D(".q"), F(".q/z"))
DEEP = T(*([D("/".join(["n"] * k)) for k in range(1, 12)] + [F("/".join(["n"] * k + ["f"])) for k in range(0, 12)]))


def strategies(plan, args, **kw):
    return [C(plan, ["-s", "-S", s] + (args.split() if isinstance(args, str) else args), **kw) for s in ("bfs", "dfs", "ids", "eds")]


R = {}
R["P01"] = (strategies(BASIC, "-print . a a/b") + strategies(BASIC, "a . a -depth") + strategies(DEEP, "") + strategies(DEEP, "-depth n n/n/n .")
            + strategies(BASIC, "a// ./ ./d/ @ABS@/w/a/") + strategies(BASIC, "a a -depth -prune") + strategies(BASIC, "a . a/b -prune -depth")
            + [C(BASIC, "-S %s -j1 -fprintf ../../o/2 %%p\\0 a a" % s, streams=2, log=2) for s in ("bfs", "dfs", "ids", "eds")])
R["P02"] = strategies(DEEP, "") + strategies(DEEP, "-depth") + strategies(BASIC, "") + strategies(BASIC, "-depth") + strategies(BASIC, "a d . -depth")
SHM = T(D("a"), L("a/m", "@SHM@"), L("k", "@SHM@/s"), F("a/z"), D("a/y"))
R["P03"] = (strategies(SHM, "-L -xdev -depth", shm=True) + strategies(SHM, "-L -xdev", shm=True) + strategies(SHM, "-L -mount -depth", shm=True)
            + strategies(BASIC, "a . -mindepth 1 -name b -prune -print") + strategies(BASIC, "a . -mindepth 2 -maxdepth 3") +
            strategies(BASIC, "./ -nohidden") + strategies(BASIC, "./ -exclude -hidden") + strategies(BASIC, ". a -prune") +
            strategies(BASIC, ". a ( -name a -prune ) -o -print") + strategies(BASIC, "-exclude -name b . a/b a"))
LOOP = T(D("a"), L("a/up", ".."), L("self", "self"), L("c1", "c2"), L("c2", "a"), L("br", "nope"), L("f/x", "y") if False else F("f"), L("fs", "f/"),
         L("fx", "f/x"), D("d"), L("d/a", "../a"))
R["P04"] = (strategies(LOOP, "-L") + strategies(LOOP, "-H c1 br self fx a/up") + strategies(LOOP, "-L -xtype l") + strategies(LOOP, "-P -xtype l")
            + strategies(LOOP, "-H c1 -follow") + strategies(LOOP, "-L -printf %p:%y:%Y:%l\\n") + strategies(LOOP, "-P -printf %p:%y:%Y:%l\\n"))
R["P05"] = [C(BASIC, a) for a in (
    "-s -name a -o -name d -print", "-s ( -name a -o -name d ) -print", "-s ! -name a -name d -o -name i", "-s ! ! -name a",
    "-s -false , -print", "-s -print , -name", "-s (", "-s )", "-s ( )", "-s -o", "-s !", "-s -name a -o", "-s -o -name a", "-s -print -maxdepth 0",
    "-s -false -maxdepth 0 -o -print", "-s -depth -depth -2", "-s a -print d", "-s -f a -f d -print", "-s -print -- a", "-- a -s",
    "-s -not -not -not -name a", "-s -name a -a -o -name b", "-s ( -name a", "-s -name a )", "-s -exclude -name a", "-s -exclude ( -name a -o -name d )",
    "-s -print -exclude -print", "-s -bogus", "-s -exec vh t {}", "-s -delete -bogus", "-s -print -size 1x", "-s -type", "-s -maxdepth x -print",
    "-s -false -o -true -false , -print -o -print", "-s -print -quit -print", "-s -true , -false -o -name i")]
OPT = T(F("a", size=600, uid=1, gid=1), F("b", size=1500, uid=0, gid=0), D("d"), F("d/c", uid=2, gid=2, size=0), L("l", "a"), H("h", "a"), F("z", mode=0o600))
R["P06"] = [C(OPT, ["-s", "-O" + o] + a.split()) for o in "0123" for a in (
    "( ! -uid 1 -uid 2 ) -o -print", "! -gid 1 -gid 0 -print", "-false , -print -o -uid 1 -print", "-print -follow , -print0",
    "-size -2k -size +1000c -print", "-size 1k -size -1000c -print", "( -size +1k -a -size +2 ) -o -print",
    "! -samefile a -samefile h -o -print", "-samefile a -o -samefile b", "! -samefile a ! -samefile b",
    "( -type f -o -type d ) , -type l -print", "-print -false -o -print0", "-links +1 -links -2 -o -links 2 -print",
    "-depth +0 -depth -2 -print", "( -depth 1 -o -depth 2 ) -prune -print", "! ( -print -o -name a )", "! ( -name a , -print )",
    "-name a -o ! -name a -print", "-true -o -print , -print0", "( -print -o -true ) -print0", "-type f ! -type f -o -print",
    "-uid -1 -uid +0 , -print", "-maxdepth 1 -depth 1 -print", "-mindepth 1 -depth 0 -print", "( -false -print , -print0 ) -o -print",
    "-quit -o -print", "-print ! -quit -print0", "-name a -exit 3 -o -print", "-user 1 -o -user 2 -print", "-inum 1 -o -print",
    "-limit 2 -false -o -print", "-type d -prune -false -o -print", "-follow -type l -o -print", "-empty -type f -print -o -empty -type d -print0")]
R["P07"] = ([C(T(F("f"), D("d"), D("d/e"), F("d/g")), a) for a in (
    "-s -S eds f d -delete", "-s -S eds f -print -delete", "-s -S ids f d -print -delete", "-s -S dfs f d -delete", "-s f d -delete", "-s -delete", "-s d/ -delete",
    "-s d/. -delete", "-s -S eds f -maxdepth 0 -delete", "-s -S ids f -maxdepth 0 -depth -delete", "-s ./d -name g -delete -print", "-s -S eds -name e -delete")]
    + [C(T(L("l", "../x"), L("b", "no"), D("d"), F("d/f"), L("d/u", "..")) + X, a) for a in (
        "-s -delete", "-s -L -name l -delete", "-s -H l -delete", "-s l/ -delete", "-s -L l -delete", "-s -L d -delete")])
R["P08"] = [C(T(D("a"), D("a/b"), F("a/f"), F("a/b/g"), F("a/b/h"), D("c"), F("c/i"), F("j")), a) for a in (
    "-s -execdir vh t {} +", "-s -S dfs -execdir vh t {} +", "-s a c -execdir vh t {} +", "-s a/f a/b/g c/i j -execdir vh t {} +",
    "-s -exec vh e {} ;", "-s -exec vh f {} + -name j -quit", "-s -exec vh t {} + -quit", "-s -exec vh t {} + -exit 4", "-s -exec vh e x{}y{} ; -print",
    "-s -execdir vh t {} ; -print", "-s a/ -execdir vh t {} ;", "-s -depth -execdir vh t {} +", "-s -S ids -execdir vh t {} +", "-s -S eds -execdir vh t {} +",
    "-s -exec nonexistent {} ; -print", "-s -exec nonexistent {} + -print", "-s a//b -execdir vh t {} + -o -print")]
R["P08"] += [C(T(D("a"), F("a/f"), D("b", mode=0o311), F("b/g"), F("c")), "-O0 -s b/g a/f c -execdir vh t {} +", eager=True)]
WIDE = T(*[F("%s%02d" % ("x" * (5 + 37 * (i % 5)), i)) for i in range(40)])
R["P08"] += [C(WIDE, "-s -exec vh t a {} +", argmax=m, ntmpl=3) for m in ((0, 700), (0, 2000), (0, 3500), (300, 0), (2500, 0), (3000, 1000), (3000, 2500), (5000, 400))]
R["P09"] = [C(T(D("a", mode=0), D("b"), F("b/f"), D("c", mode=0o444), F("c/g"), D("d", mode=0o111), F("d/h")), "-O0 -s" + a, eager=True)
            for a in ("", " -S dfs", " -S ids", " -S eds", " -depth", " -S eds -depth", " a b c d", " -noerror", " -size +0", " d/h a", " nope b", " -empty")]
R["P10"] = [C(BASIC, a) for a in ("-s -quit", "-s -print -quit -print", "-s -limit 3 -print", "-s -print -limit 1", "-s -S ids -limit 4", "-s -S eds -depth -limit 4",
                                  "-s -name b -exit 5 -o -print", "-s -exit -print", "-s -print -exit", "-s ( -quit -o -print ) , -print", "-s ! -quit -print",
                                  "-s -limit 2 -limit 3 -print", "-s nope -print -quit", "-s nope a -print -exit 0", "-s -print -limit 0", "-s -S ids -depth -name a -quit -o -print",
                                  "-s -exec vh t {} + -limit 3", "-s . a d -limit 13 -print")]
R["P12"] = [C(T(F("a b"), L("l", "zz"), L("loop", "loop"), F("n\ny"), F("-"), F("q'\"$`\\"), D("d"), F("d/x", size=1000)), ["-s"] + a) for a in (
    ["-printx"], ["-print0"], ["-printf", "%p|%f|%h|%P|%H|%d|%y|%Y|%l|\\n"], ["d/", "-printf", "%p|%f|%h|%P|%H\\n"], ["./d/", ".", "-printf", "%p|%f|%h|%P|%H\\n"],
    ["-printf", "%5d|%-5d|%05d|%+d|% d|%m|%#m|%05m|\\n"], ["-printf", "%10f|%-10f|%.2f|%10.2f|\\n"], ["-printf", "a\\tb\\101\\0\\\\\\cxyz"], ["-ls"],
    ["-L", "-printf", "%p %y %Y %l\\n"], ["-printf", "%M %m %n %s %b %k %u %g %U %G\\n"])]
R["P12"] += [C(T(F("a"), F("b")), "-s -fprint ../../o/2 -fprint0 ../../o/./2 -fprintf @O@/2 %f -print", streams=2, spell={b"../../o/./2": 2, b"@O@/2": 2}),
             C(T(F("a"), F("b")), "-s -fprint /dev/stdout -print", spell={b"/dev/stdout": 1}),
             C(T(F("a"), F("b")), "-s -fls ../../o/2 -fprint ../../o/2 -print -fprint0 /dev/stdout", streams=2, spell={b"/dev/stdout": 1})]
R["P13"] = [C(T(F("a", size=0), F("b", size=1), F("c", size=512), F("d", size=513), F("e", size=1024), F("f", size=1025, mode=0o4755), D("g", mode=0o1777),
                F("h", mode=0), H("i", "a"), F("j", uid=0, gid=0, mode=0o640), F("k", uid=12345, gid=12345), L("l", "a"), F("m", size=1 << 30),
                F("o", mode=0o775), F("p", mode=0o755)), ["-s"] + a.split(), umask=u) for u in (0o22, 0o77) for a in (
    "-size 1", "-size +1", "-size -1", "-size 0", "-size 1k", "-size +1k", "-size -2k", "-size 1c", "-size +512c", "-size 1M", "-size 1G", "-size -1G",
    "-perm 644", "-perm -644", "-perm /222", "-perm /0", "-perm -0", "-perm 0", "-perm u=rw,go=r", "-perm -u+s", "-perm /u+s,g+s", "-perm +w", "-perm =w",
    "-perm -+w+x", "-perm =rwx", "-perm +t", "-perm a+X", "-perm u=rwx,g=u,o=g", "-perm -g=u", "-perm go-w", "-perm u=rwx,go=rx", "-perm =r+w",
    "-links 2", "-links +1", "-nouser", "-nogroup", "-uid +0", "-uid -1", "-gid 12345", "-user root", "-readable", "-writable", "-executable", "-empty",
    "-type f,d", "-xtype l", "-samefile a", "-L -samefile l", "-sparse", "-depth 1", "-depth -1")]
R["P14"] = [C(T(F("a"), F("ab"), F("a.b"), F(".a"), F("[a]"), F("a*"), F("A"), D("d"), F("d/ab"), F("aba"), F("x\\y"), L("l", "a/../b"), F("a]b"), F("-")), ["-s"] + a) for a in (
    ["-name", "a*"], ["-name", "*a"], ["-name", "?"], ["-name", "[a]"], ["-name", "\\[a\\]"], ["-name", "a\\*"], ["-name", "[!a]*"], ["-name", "[]a]*"],
    ["-name", "*"], ["-name", ".*"], ["-iname", "A*"], ["-path", "./d*b"], ["-path", "*/ab"], ["-lname", "a*b"], ["-ilname", "A/*"], ["-name", "x\\\\y"],
    ["-regex", ".*a"], ["-regextype", "posix-extended", "-regex", "./(a|ab)"], ["-regextype", "posix-extended", "-regex", "./(a|aba|ab)"], ["-iregex", "./A"],
    ["-regex", "./a"], ["-regex", "a"], ["d/", "-name", "d"], ["d//", "-name", "d"], ["./", "-name", "."], [".", "-name", "."], ["-name", "a[!b]b"], ["-name", "[[:upper:]]"],
    ["-name", "[a-"], ["-name", "a["], ["-name", "ab", "-o", "-name", "a?"], ["-name", "\\"], ["-name", "a\\"])]
UNI = T(F("a"), H("b", "a"), D("d"), H("d/c", "a"), L("l", "d"), D("e"), L("e/m", "../d"), F("e/z"))
R["P15"] = (strategies(UNI, "-unique") + strategies(UNI, "-unique -depth") + strategies(UNI, "-L -unique") + strategies(UNI, "-L -unique -depth")
            + strategies(UNI, ". . -unique") + strategies(UNI, "d d -unique -depth") + strategies(UNI, "d . e -L -unique") + strategies(UNI, "-unique a b d/c"))
R["P17"] = [C(BASIC, a, faults=[("open", "ENOENT", 0, b"./a/b", (b"w", b"a", b"b"))]) for a in
            ("-s", "-s -ignore_readdir_race", "-s -S dfs -ignore_readdir_race", "-s -S eds", "-s -S ids -depth -ignore_readdir_race")]
R["P17"] += [C(BASIC, ["-s"] + f + ["-printf", "%p %s\\n"], faults=[("stat", "ENOENT", 0, b"./a/g", (b"w", b"a", b"g"))], eager=True) for f in ([], ["-ignore_readdir_race"])]
R["P18"] = []
PROGS = T(D("a"), F("a/s", mode=0o755, prog=True), F("a/f"), D("a/b"), F("a/b/s", mode=0o755, prog=True), F("a/b/g"), F("t", mode=0o755, prog=True))
R["P08"] += [C(PROGS, a) for a in ("-s -execdir ./s t {} ;", "-s -execdir ./s t {} +", "-s -exec ./a/s t {} ;", "-s -type f -execdir {} t {} ;", "-s -exec {} e {} ;",
                                   "-s a -execdir ../t t {} ;", "-s -execdir @ABS@/w/t t {} ;", "-s a a/b -execdir ./t t ;")]
# A directory that does not fit into one buffer of directory entries
BIG = T(D("a"), *[F("a/%s%d" % ("n" * 200, i)) for i in range(320)], F("b"))
R["P01"] += [C(BIG, "-s"), C(BIG, "-s -S dfs -j1 -depth -type f")]
R["P05"] += [C(BASIC, a) for a in ("-s -files0-from .", "-s -files0-from nope", "-files0-from a -s -print")]
