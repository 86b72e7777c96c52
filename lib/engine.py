"""Runs the engines that decide a property, and reports."""
import copy, glob, hashlib, importlib, json, os, random, sys, time, traceback
from vlib import *
from cases import *
from cases import _bad as cases_bad
import unit

TECHNIQUE = {}   # property -> deciding method, where it is not the default
NOTES = {}
NA = {}


class Ctx:
    def __init__(self, prop, tier, seed, budget):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.quick = tier == "quick"
        self.budget = budget or (70 if self.quick else 600)
        self.states = self.transitions = self.traces = self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.viol = []
        self.notes = {}
        self.assumptions = set()
        self.rules = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def violation(self, kind, what, data):
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, kind, len(self.viol) + 1))
        with open(path, "w") as f:
            json.dump(dict(data, property=self.prop, kind=kind, what=what), f, indent=1)
        self.viol.append(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        print("  " + what.replace("\n", "\n  "), flush=True)

    def undecided(self, v):
        k = sum(x is None for x in v)
        if k:
            self.note("histories that took too long to judge, not counted", k)
        self.traces -= k
        self.evals -= k

    def batch_judge(self, module, inputs, shown, kind, corrupt=None):
        """Have TLC judge recorded histories against a trace module; rejected ones are violations."""
        rng = random.Random("%s/%d/%s" % (self.prop, self.seed, kind))
        bad = []
        if corrupt and inputs:
            bad = [corrupt(rng, inputs[rng.randrange(len(inputs))]) for _ in range(max(4, len(inputs) // 100))]
            bad = [b for b in bad if b is not None]
        v, gen, dist = judge(inputs + bad, module=module)
        self.states += dist
        self.transitions += gen
        self.traces += len(inputs)
        self.evals += len(inputs)
        rej = [i for i in range(len(inputs)) if v[i] not in (True, None)]
        self.undecided(v)
        acc = [i for i in range(len(bad)) if v[len(inputs) + i] is True]
        if acc and not rej:
            raise Broken("a corrupted history was accepted: " + json.dumps(bad[acc[0]])[:600])
        self.note("corrupted histories rejected", len(bad) - len(acc))
        for s in shown:
            self.nontrivial.add(hashlib.md5(s.encode()).hexdigest())
        if inputs and len(self.samples) < 4:
            i = rng.randrange(len(inputs))
            self.samples.append({"history": shown[i][:600], "verdict": str(v[i])})
        for i in rej[:3]:
            self.violation(kind, "%s\n   specification: %s" % (shown[i][:3000], v[i]), {"input": inputs[i]})
        self.log("%s: %d histories, %d rejected, %d states" % (kind, len(inputs), len(rej), gen))

    def model_check(self, module, consts, checks, workers=8, timeout=600, heap="8g", label=""):
        """Have TLC explore every behaviour of a model; a failure here is an error of the specification, not of bfs."""
        cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "".join(" %s = %s\n" % c for c in consts.items()) + checks + "\n"
        rc, out = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap)
        gen, dist = tlc_stats(out)
        if not tlc_ok(rc, out):
            raise Broken("%s %r: %s" % (module, consts, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.note("states of " + module, dist)
        self.log("%s %s: %d states, no error" % (module, " ".join("%s=%s" % c for c in consts.items()), dist))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def evidence(self, level):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "evaluations": self.evals, "distinct_nontrivial": len(self.nontrivial), "rule": " | ".join(self.rules),
               "samples": self.samples[:6], "details": self.notes}
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": sorted(self.assumptions), "wall_s": round(time.time() - self.t0, 2),
                       "violations": len(self.viol)}, f, indent=1)


# ---------------------------------------------------------------------------
# Conformance of whole runs of bfs with spec/Search.tla

def summary(case, obs, why):
    show = lambda bs: bytes(bs)[:300]
    return "%s\n-> status %s, stdout %r\n   stderr %r\n   commands %d, removed %d\n   specification: %s" % (
        case.pretty(), obs["ret"], show(obs["outs"][0]), obs["stderr"][:300], len(obs["log"]), len(obs["gone"]), why)


def corrupt(rng, E):
    """A copy of an observation with one thing wrong, or None."""
    E = dict(E)
    o = E["obs"] = copy.deepcopy(E["obs"])
    k = rng.randrange(7)
    outs = [i for i, x in enumerate(o["outs"]) if x]
    if k == 0 and outs:
        o["outs"][rng.choice(outs)].pop()
    elif k == 1 and outs:
        x = o["outs"][rng.choice(outs)]
        x[rng.randrange(len(x))] ^= 1
    elif k == 2 and o["log"]:
        if rng.random() < .5:
            o["log"].pop()
        else:
            o["log"][-1]["a"].append([120])
    elif k == 3 and not o["chunks"]:
        o["chunks"] = [list(b"zzz: something\n")]
    elif k == 4:
        o["gone"] = o["gone"][:-1] if o["gone"] else [{"d": 1, "n": [122]}]
    elif k == 5:
        o[rng.choice(["fds", "leak"])] = 1
    else:
        o["ret"] = 77 if o["ret"] != 77 else 0
    return E


class Conformance:
    """Run generated commands, and have TLC decide whether each observed run is a behaviour of Search.tla."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.R = Runner()
        self.retries = 8 if ctx.quick else 12

    def run_all(self, cs):
        return procmap(self.R.run, cs)

    def batch(self, cases, label):
        ctx = self.ctx
        ins = self.run_all(cases)
        cases_bad.value = 0
        ctx.note("trees with too many ways through links, not used", sum(E is None for E in ins))
        cases = [c for c, E in zip(cases, ins) if E is not None]
        ins = [E for E in ins if E is not None]
        rng = random.Random("%s/%d/corrupt/%s" % (ctx.prop, ctx.seed, label))
        # a sample of corrupted observations must be rejected
        bad = [corrupt(rng, ins[rng.randrange(len(ins))]) for _ in range(max(4, len(ins) // 60))]
        v, gen, dist = judge(ins + bad)
        ctx.states += dist
        ctx.transitions += gen
        ctx.traces += len(cases)
        ctx.evals += len(cases)
        rej = [i for i in range(len(ins)) if v[i] not in (True, None)]
        ctx.undecided(v)
        acc_bad = [i for i in range(len(bad)) if v[len(ins) + i] is True]
        if acc_bad and not rej:
            raise Broken("a corrupted observation was accepted: " + json.dumps(bad[acc_bad[0]]["obs"])[:600])
        ctx.note("corrupted observations rejected", len(bad) - len(acc_bad))
        for c, E in zip(cases, ins):
            o = E["obs"]
            if any(o["outs"]) or o["chunks"] or o["log"] or o["gone"]:
                ctx.nontrivial.add(hashlib.md5(repr((c.plan, c.argv)).encode()).hexdigest())
        if len(ctx.samples) < 4 and ins:
            i = rng.randrange(len(ins))
            ctx.samples.append({"command": cases[i].pretty(), "status": ins[i]["obs"]["ret"],
                                "stdout": bytes(ins[i]["obs"]["outs"][0])[:160].decode("latin-1"),
                                "entries": len(cases[i].plan), "verdict": str(v[i])})
        for i in rej[:12]:
            self.confirm(cases[i], ins[i], v[i], label)
            if len(ctx.viol) >= 3:
                break
        ctx.log("%s: %d runs, %d rejected at first, %d states" % (label, len(cases), len(rej), gen))

    def confirm(self, case, E, why, label):
        """A rejection is reported if the same command is rejected again."""
        ctx = self.ctx
        slow = E["obs"]["ret"] >= 998
        cases_bad.value = 0
        again = procmap(self.R.run, [case] * (3 if slow else self.retries), 3 if slow else JOBS)
        v, gen, dist = judge(again)
        ctx.states += dist
        ctx.transitions += gen
        ctx.traces += len(again)
        ctx.evals += len(again)
        rep = [j for j in range(len(again)) if v[j] not in (True, None)]
        if rep:
            j = rep[0]
            ctx.violation("run", summary(case, again[j]["obs"], v[j]) + "\n   rejected in %d of %d repetitions" % (len(rep), len(again)),
                          dict(case.to_json(), obs=again[j]["obs"]["stderr"]))
        else:
            ctx.note("rejections not repeated")
            ctx.log("not repeated:", label, summary(case, E["obs"], why))

    def go(self, share=1.0):
        import props, regress
        from gen import gen_case
        ctx = self.ctx
        profs = props.P.get(ctx.prop, [])
        t_end = time.time() + ctx.left() * share
        fixed = regress.R.get(ctx.prop, [])
        ctx.rules.append("%d fixed commands and random commands from %d generator profiles, each on a random tree; a run counts as "
                         "non-trivial when it printed, reported, executed or removed something" % (len(fixed), len(profs)))
        if fixed:
            self.batch(fixed, "fixed")
        rnd = 0
        while profs and not ctx.viol:
            t = time.time()
            n = (props.NQ.get(ctx.prop, props.N_QUICK) if ctx.quick else 1200) // len(profs)
            cs = [gen_case(random.Random("%s/%d/%d/%d/%d" % (ctx.prop, ctx.seed, q, rnd, i)), prof)
                  for q, prof in enumerate(profs) for i in range(n)]
            cs += [gen_case(random.Random("%s/%d/s%d/%d/%d" % (ctx.prop, ctx.seed, q, rnd, i)), prof)
                   for q, (m, prof) in enumerate(props.SPECIAL.get(ctx.prop, [])) for i in range(m)]
            self.batch(cs, "round %d" % rnd)
            rnd += 1
            if ctx.quick and rnd >= props.ROUNDS_QUICK or time.time() + (time.time() - t) > t_end:
                break
        ctx.note("rounds", rnd)


def conformance(ctx):
    ctx.assumptions |= {"the kernel's file system calls behave as POSIX says and files do not change except through bfs (and the injected faults)",
                        "C locale; fixed offset time zones; clock fixed by a preloaded shim"}
    Conformance(ctx).go()


ENGINES = {p: [conformance] for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P17", "P18", "P21")}
ENGINES["P20"] = [unit.trie_engine]
ENGINES["P16"] = [unit.ioq_engine]
ENGINES["P19"] = [unit.hooks_engine]
TECHNIQUE["P19"] = "TLA+ specification of the hooks (spec/Hooks.tla), checked with TLC; executions of the real code under a controlled scheduler, with signals at every scheduling point, are validated as behaviours of it (spec/HooksTrace.tla)"
TECHNIQUE["P16"] = "TLA+ specification of the queue (spec/Ioq.tla), checked with TLC; executions of the real code under a controlled scheduler are validated as behaviours of it (spec/IoqTrace.tla)"
TECHNIQUE["P20"] = "TLA+ specification of the table (spec/Trie.tla), checked with TLC; recorded histories of calls to the real code are validated as behaviours of it (spec/TrieTrace.tla)"


def replay(ctx, path):
    d = json.load(open(path))
    if d["kind"] != "run":
        raise Broken("replay of kind %s: run the check again" % d["kind"])
    c = Case.from_json(d)
    cf = Conformance(ctx)
    E = cf.R.run(c)
    v, _, _ = judge([E])
    print(summary(c, E["obs"], v[0]))
    return 0 if v[0] is True else 1


def main(a):
    ctx = Ctx(a.property, "thorough" if a.tier.startswith("t") else "quick", a.seed, a.budget)
    try:
        if a.replay:
            return replay(ctx, a.replay)
        if a.property not in ENGINES:
            raise Broken("no such check: " + a.property)
        for e in ENGINES[a.property]:
            e(ctx)
            if ctx.viol:
                break
        ctx.evidence("model_checking")
    except Broken as e:
        if ctx.viol:
            ctx.evidence("model_checking")
            return 1
        print("ERROR: the check itself failed:", e)
        return 2
    if ctx.viol:
        return 1
    print("OK property=%s: %d runs agree with the specification, %d states, %.1f s" % (a.property, ctx.traces, ctx.states, time.time() - ctx.t0))
    return 0
