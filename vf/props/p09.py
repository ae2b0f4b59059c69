"P09: a finished run leaves no task, timer, warning or stray cancellation behind."
from ..lib import *
from ..sweep import *

PROP = "P09"
LEVEL = "fault_enumeration"
BUDGET = {"quick": 30, "thorough": 400}
TECHNIQUE = "runtime monitoring: task set, timer heap, loop exception handler, warnings and unraisable hooks, and later cancellations observed around every run of a fault sweep"
RULE = (
    "a run is (command shape, behaviour, style, failing part, fault kind and point); every run of the sweep counts; "
    "distinct = (shape, commands, style, behaviour, failure, fault, outcome, redirections)"
)
BEHAVES = ["ok", "ok", "fail", "die", "hang", "trap", "ign", "flood", "flooderr", "noread", "log"]
MODES = ["plain", "cancel", "cancel", "cancel", "cancel2", "cancel3", "inject", "rlimit", "timeout", "timeout"]


def gen(rng, tier):
    return gen_sweep(rng, tier, BEHAVES, fails=0.3, modes=MODES)


async def run(case, m):
    uv = case["loop"] == "uvloop"

    def judge(o, f, tag):
        m.event("oracle_checks", 6)
        if o.tasks_at_end:
            m.viol("task-left", f"{tag}: {o.tasks_at_end}")
        if o.timers:
            m.viol("timer-left", f"{tag}: {o.timers}")
        if o.loop_errors:
            m.viol("loop-exception-handler", f"{tag}: {o.loop_errors[:3]}")
        if o.warns:
            m.viol("warning", f"{tag}: {o.warns[:3]}")
        if o.unraisable:
            m.viol("unraisable", f"{tag}: {o.unraisable[:3]}")
        if o.cancelling != case["spec"].get("pre", 0) + len(o.cancel_sent):
            m.viol("cancel-count", f"{tag}: {case['spec'].get('pre', 0)} + {len(o.cancel_sent)} requests to cancel were made, Task.cancelling() is {o.cancelling}")
        if o.stray_cancel:
            m.viol("stray-cancel", f"{tag}: the caller was cancelled after the run had ended")

    # (asyncio's pidfd watcher forgets a child when no descriptor is left for its pidfd)
    await sweep(case, m, judge, collect=("task",), linger=0.02, rlimit_loops=("threaded",))
    # The loop still works.
    out = await sh(vpath(), "outx:6f6b")
    m.eq(out, "ok", "loop-unusable", "a command run after the sweep")
