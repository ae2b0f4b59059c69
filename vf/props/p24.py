"P24: a failed launch surfaces as its exception, promptly and everywhere."
from ..lib import *
from ..sweep import *

PROP = "P24"
LEVEL = "fault_enumeration"
BUDGET = {"quick": 28, "thorough": 300}
TECHNIQUE = "runtime monitoring: launch failures of every kind in every position, style and shape (real and injected); outcome, promptness and a following run observed"
RULE = (
    "a run is (command shape, position and kind of failure, style, behaviour of the healthy parts, injected call); runs whose "
    "failure actually happened count; distinct = (shape, commands, style, behaviour, failure, fault, outcome, redirections)"
)
CONFIRM = ("timing",)
BEHAVES = ["ok", "ok", "hang", "hang", "trap", "flood", "flooderr", "log", "noread"]
MODES = ["plain", "plain", "inject", "rlimit"]


HELD_EXC = {"RuntimeError": RuntimeError, "AssertionError": AssertionError, "OSError": OSError, "KeyError": KeyError, "ValueError": ValueError}


def held_cases(rng):
    "A process substitution of one command can't be launched; the block sees it when it is left."
    out = []
    for n in (1, 2, 3):
        for pos in range(n):
            for style in ("prompt", "with", "await", "iter"):
                for exc in [*HELD_EXC, "FileNotFoundError"]:
                    for side in ("read", "write"):
                        out.append({"mode": "held", "n": n, "pos": pos, "style": style, "exc": exc, "side": side, "wait": rng.choice([0, 0.02, 0.2])})
    rng.shuffle(out)
    return out


async def run_held(case, m):
    def adapter(fd):
        raise HELD_EXC[case["exc"]]("launch failed here")

    if case["exc"] == "FileNotFoundError":
        sub = sh("/nonexistent/vf-no-such-program")
    else:
        sub = sh(vpath(), "cat").set(pty=adapter)
    if case["side"] == "write":
        sub = sub.writable
    cmds = [sh(vpath(), "pmode:ignore", sub, "cat") if i == case["pos"] else sh(vpath(), "cat") for i in range(case["n"])]
    cmds[0] = cmds[0].stdin(sh.DEVNULL)
    target = cmds[0]
    for c in cmds[1:]:
        target = target | c

    async def go():
        if case["style"] == "await":
            return await target
        if case["style"] == "iter":
            return [x async for x in target]
        if case["style"] == "prompt":
            async with target.prompt():
                await asyncio.sleep(case["wait"])
            return None
        async with target as r:
            await asyncio.sleep(case["wait"])
        return r.result()

    t0 = time.monotonic()
    try:
        got = ("value", repr(await asyncio.wait_for(go(), 10)))
    except asyncio.TimeoutError:
        got = ("timeout", None)
    except Exception as ex:
        got = ("raise", type(ex).__name__)
    m.event("failed_launches")
    m.event("held_runs")
    m.sig("held", *[case[k] for k in ("n", "pos", "style", "exc", "side")], got[1])
    m.eq(got, ("raise", case["exc"]), "launch-error-lost", f"{case}: process substitution that can't be launched")
    m.check(time.monotonic() - t0 < 8, "timing:launch-failure-slow", f"{case}: took {time.monotonic() - t0:.2f}s")


def gen(rng, tier):
    held = held_cases(rng)
    yield from held[:12]
    held = held[12:]
    for i, case in enumerate(gen_runs(rng, tier)):
        yield case
        if held and i % 3 == 0:
            yield held.pop()


def gen_runs(rng, tier):
    for case in gen_sweep(rng, tier, BEHAVES, fails=1.0, modes=MODES):
        spec = case["spec"]
        if case["mode"] == "plain" and not spec.get("fail"):
            continue  # (nothing would fail)
        spec["body"] = rng.choice(["read", "read", "none", "early"])
        if spec["style"] in ("prompt", "withcap") and spec["body"] != "read" and (spec["out"] > 5000 or spec["shape"] in ("psr", "pspipe", "pipeps")):
            spec["body"] = "read"
        if spec["behave"] == "log":
            spec["ct"] = 0.05
        if case["mode"] in ("inject", "rlimit"):
            spec.pop("fail", None)
        yield case


async def run(case, m):
    if case["mode"] == "held":
        return await run_held(case, m)
    spec = case["spec"]
    fail = spec.get("fail")

    def judge(o, f, tag):
        want = None
        if fail and o.sc.expect_exc:
            want = o.sc.expect_exc
        elif o.fired:
            want = "OSError"
        if want is None:
            if not ("rlimit" in f and o.outcome[:2] == ("raise", "OSError")):
                return
            m.event("fd_exhaustions")
        m.event("failed_launches")
        m.event("oracle_checks")
        kind, what = o.outcome[:2]
        if want == "OSError":
            ok = kind == "raise" and what in ("OSError", "BlockingIOError")
        else:
            ok = want is None or (kind == "raise" and what == want)
        block = spec["style"] in ("with", "withcap", "prompt", "iter")
        if block and "ps" in spec["shape"] and spec["behave"] in RUNNING and o.cancel_sent:
            # Inside a block, a failed process substitution surfaces when the block is left.
            m.event("held_by_block")
            return
        inner = spec["n"] > 1 or "ps" in spec["shape"]
        if spec["style"] in ("with", "withcap", "iter") and inner and spec["body"] == "early" and kind == "value":
            # Inside a block, the failure of an inner command surfaces in run.result().
            m.event("left_early")
            return
        if o.cancel_sent:
            # The fallback had to end it: the failure did not surface in time.
            m.viol("timing:launch-failure-hangs", f"{tag}: failed launch ({want}) did not end the run within {o.elapsed:.2f}s")
            return
        if not ok and what in ("BrokenPipeError", "ConnectionResetError") and spec["shape"] not in ("cmd", "pty"):
            # a part that did start can fail first, because of its peer's absence
            m.event("peer_failures")
            return
        if not ok:
            m.viol("launch-error-lost", f"{tag}: launch failed with {want}, but the run gave {o.outcome[:2]} {o.exc_text}")
        m.check(o.elapsed < 12, "timing:launch-failure-slow", f"{tag}: took {o.elapsed:.2f}s")

    await sweep(case, m, judge, collect=(), fallback=5000)
    out = await sh(vpath(), "outx:6f6b")
    m.eq(out, "ok", "later-run", "a command run after failed launches")
