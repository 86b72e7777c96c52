#!/usr/bin/env python3
"""Validate planted bugs, and see which checks catch them.

seed.py make FILE...      FILE defines SEEDS = {id: dict(prop, edits=[(file, old, new)], demo, needs, breaks, files={})}
seed.py check ID... [--prop P] [--tests]   (re)validate and run the property's quick check
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WC = "/tmp/wc"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fresh():
    if not os.path.exists(WC):
        sh(["git", "clone", "-q", "/repo", WC])
        for f in ("build.sh", "test.sh"):
            s = open("/opt/vp/" + f).read().replace("/repo", WC).replace('"$(dirname -- "$(realpath -- "$0")")/build.sh"', "/tmp/wc-build.sh")
            open("/tmp/wc-" + f, "w").write(s)
    sh(["git", "-C", WC, "checkout", "-q", "--", "."])
    sh(["git", "-C", WC, "clean", "-qfd", "src"])
    sh(["git", "-C", WC, "pull", "-q"])


def build():
    r = sh(["bash", "/tmp/wc-build.sh"])
    if r.returncode:
        print(r.stdout[-2000:])
    return r.returncode == 0


def tests():
    sh(["bash", "/tmp/wc-test.sh", "/tmp/wc-out.json"])
    b = json.load(open("/opt/vp/BASELINE.json"))
    o = json.load(open("/tmp/wc-out.json"))
    ok = set(o["passed"])
    return [t for t in b["stable"] if t not in ok]


def demo(d):
    t = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy2(os.path.join(d, f), t)
    s = open(os.path.join(t, "demo.sh")).read().replace("/repo", WC)
    open(os.path.join(t, "demo.sh"), "w").write(s)
    try:
        r = sh(["bash", os.path.join(t, "demo.sh")], cwd=WC, timeout=300)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    finally:
        shutil.rmtree(t, ignore_errors=True)


def check(i, prop=None, do_tests=True, run=True):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    fresh()
    if not build():
        return "base build failed"
    rc0, out0 = demo(d)
    if rc0 != 0:
        return "DEMO FAILS ON BASE: %d %s" % (rc0, out0[-500:])
    r = sh(["git", "-C", WC, "apply", os.path.join(d, "patch.diff")])
    if r.returncode:
        return "PATCH DOES NOT APPLY " + r.stdout
    if not build():
        return "BUILD FAILS"
    rc1, out1 = demo(d)
    if rc1 == 0:
        return "DEMO PASSES WITH BUG: " + out1[-500:]
    if do_tests:
        m = tests()
        if m:
            return "TESTS CATCH IT: %d %s" % (len(m), m[:4])
    res = "valid"
    if run:
        for p in [prop or meta["property"]]:
            r = sh([os.path.join(V, "check.py"), p, "quick"], env=dict(os.environ, VERIF_REPO=WC, VERIF_EVIDENCE="/tmp/wc-evidence"))
            res += "; check %s exit %d" % (p, r.returncode)
            if r.returncode == 1:
                i = r.stdout.find("VIOLATION")
                res += " CAUGHT: " + r.stdout[i:].split("\n", 2)[1][:150]
            else:
                res += " " + r.stdout[-200:]
    return res


def make(files):
    for f in files:
        g = {}
        exec(open(f).read(), g)
        for i, s in g["SEEDS"].items():
            if len(sys.argv) > 3 and sys.argv[3:] and i not in sys.argv[3:]:
                continue
            fresh()
            bad = None
            for fn, old, new in s["edits"]:
                p = os.path.join(WC, fn)
                t = open(p).read()
                if t.count(old) != 1:
                    bad = "%s: %d matches of %r" % (fn, t.count(old), old[:60])
                    break
                open(p, "w").write(t.replace(old, new))
            if bad:
                print(i, bad)
                continue
            d = os.path.join(V, "seeded", i)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(sh(["git", "-C", WC, "diff"]).stdout)
            open(d + "/demo.sh", "w").write(s["demo"].lstrip("\n"))
            for n, c in s.get("files", {}).items():
                open(os.path.join(d, n), "w").write(c)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = check(i)
            print(i, s["prop"], r, flush=True)
            if not r.startswith("valid"):
                shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2:3])
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
        for i in ids:
            print(i, check(i, do_tests="--tests" in sys.argv), flush=True)
