"Fault sweeps over a scenario (shared by P07..P10, P12, P24)."
import shutil

from .lib import *
from .scen import *


def gen_sweep(rng, tier, behaves, fails=0.0, modes=("plain", "cancel"), **kw):
    while True:
        spec = gen_spec(rng, behaves, fails=rng.random() < fails, **kw)
        if spec["behave"] in ("ign", "log"):
            spec["ct"] = 0.05
        yield {
            "spec": spec,
            "loop": spec["loop"],
            "mode": rng.choice(list(modes)),
            "seed": rng.randrange(1 << 30),
            "max": 10 if tier == "quick" else 30,
        }


def faults(case, rng, nsusp, rlimit_loops):
    "The fault sweep of one case."
    mode, spec = case["mode"], case["spec"]
    if mode == "plain":
        yield {}
    elif mode in ("cancel", "cancel2", "cancel3"):
        js = list(range(1, nsusp + 1))
        rng.shuffle(js)
        for j in js[: case["max"]]:
            f = {"cancel": [j, rng.choice([0, 0, 1, 2, 3, 5, 8, 13, -1, -3])]}
            if mode != "cancel":
                f["cancel2"] = [rng.randrange(1, nsusp + 4), rng.choice([0, 0, 1, 2, 4, 7, -1])]
            if mode == "cancel3":
                f["cancel3"] = [rng.randrange(1, nsusp + 5), rng.choice([0, 0, 1, 2, 4, 7, -1])]
            yield f
    elif mode == "inject":
        kind = rng.choice(["pipe", "open", "openpty", "fork", "socketpair"])
        for n in range(1, 9):
            yield {"inject": [kind, n]}
    elif mode == "rlimit" and case["loop"] in rlimit_loops:
        # (uvloop 0.20 itself leaks descriptors when libuv cannot spawn)
        for extra in sorted(rng.sample(range(0, 26), case["max"])):
            yield {"rlimit": extra}
    elif mode == "timeout":
        yield {}


def fault_key(f):
    if not f:
        return "none"
    k = sorted(f)[0]
    if k == "cancel":
        return ("cancel3" if "cancel3" in f else "cancel2" if "cancel2" in f else "cancel") + f":{f['cancel'][0]}"
    return f"{k}:{f[k]}"


async def sweep(case, m, judge, audit=None, collect=("fd",), linger=0, fallback=None, rlimit_loops=("default", "debug", "eager", "threaded", "shw")):
    """Run the scenario under its faults; judge(o, fault, tag) inspects every run.

    `audit()` makes the audit callback of each run.
    """
    rng = random.Random(case["seed"])
    spec = dict(case["spec"])
    if case["mode"] == "timeout":
        spec["timeout"] = rng.choice([0, 0.001, 0.01, 0.03])
    running = spec["behave"] in RUNNING
    base = {"fallback": 40} if running else {}
    if running and case["mode"] == "timeout":
        # In a pipeline the timeout ends one command only.
        base = {"fallback": 200}
    if running and spec["style"] in ("with", "withcap") and spec["body"] == "cancelrun":
        base = {"fallback": 150}
    if running and fallback:
        base = {"fallback": fallback}
    n = 0
    o0 = None
    await warm_up()

    if case["mode"] in ("inject", "rlimit"):
        base0 = {"fallback": 40} if running else {}
    else:
        base0 = base

    async def one(f):
        nonlocal n
        n += 1
        tmp = m.tmp / f"r{n}"
        tmp.mkdir()
        rec = audit() if audit else None
        o = await observe(spec, tmp, {**(base if f else base0), **f}, rec, collect, linger)
        o.rec = rec
        o.base = o0
        m.event("runs")
        m.event("outcome_" + (o.outcome[1] if o.outcome[0] == "raise" else "value"))
        m.event("cancels_sent", len(o.cancel_sent))
        if o.fired:
            m.event("failures_injected")
        tag = f"{spec['shape']}/{spec['style']}/{spec['behave']} fail={(spec.get('fail') or {}).get('kind')} fault={f} -> {o.outcome[:2]}"
        judge(o, f, tag)
        shutil.rmtree(tmp, ignore_errors=True)
        m.sig(
            spec["shape"], spec["n"], spec["style"], spec["behave"], spec.get("fail", {}).get("kind"), fault_key(f),
            o.outcome[1] if o.outcome[0] == "raise" else "value", spec["in"], spec["so"],
        )
        return o

    o0 = await one({})
    nsusp = o0.suspensions
    if case["mode"] not in ("plain", "timeout"):
        for f in faults(case, rng, nsusp, rlimit_loops):
            o = await one(f)
            if fallback and running and o.cancel_sent:
                break  # too late to hit anything: the rest would only wait
            if m.violations or (m.deadline and time.monotonic() > m.deadline):
                break
