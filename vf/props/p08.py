"P08: no child process outlives its run."
from ..lib import *
from ..sweep import *

PROP = "P08"
LEVEL = "fault_enumeration"
BUDGET = {"quick": 30, "thorough": 400}
TECHNIQUE = "runtime monitoring: kernel child-process table read at the instant each run hands control back, under cancellation and failures injected at every step"
RULE = (
    "a run is (command shape, behaviour, style, failing part, fault kind and point); every run of the sweep counts; "
    "distinct = (shape, commands, style, behaviour, failure, fault, outcome, redirections)"
)
BEHAVES = ["ok", "fail", "die", "hang", "hang", "trap", "ign", "ign", "flood", "flooderr", "noread", "log", "slow"]
MODES = ["plain", "cancel", "cancel", "cancel", "cancel2", "cancel3", "inject", "rlimit", "timeout"]


def gen(rng, tier):
    return gen_sweep(rng, tier, BEHAVES, fails=0.3, modes=MODES)


async def run(case, m):
    def judge(o, f, tag):
        m.event("oracle_checks")
        m.event("children_seen", o.children_seen)
        if o.kids_at_end:
            m.viol("child-outlives-run", f"{tag}: children of the run still exist when it ends: {o.kids_at_end}")

    # (asyncio's pidfd watcher forgets a child when no descriptor is left for its pidfd)
    await sweep(case, m, judge, collect=("kids",), rlimit_loops=("threaded",))
