"P07: a run leaves the parent's descriptors as they were."
from ..lib import *
from ..sweep import *

PROP = "P07"
LEVEL = "fault_enumeration"
BUDGET = {"quick": 30, "thorough": 400}
TECHNIQUE = "runtime monitoring: descriptor-table diff and os.close monitor under cancellation and failure injected at every step"
RULE = (
    "a run is (command shape, redirections, behaviour, style, failing part, fault kind and point); every run of the "
    "scenario's fault sweep counts; distinct = (shape, style, behaviour, failure, fault, outcome)"
)
BEHAVES = ["ok", "ok", "fail", "die", "hang", "trap", "ign", "flood", "flooderr", "noread", "log"]


MODES = ["plain", "cancel", "cancel", "cancel", "cancel2", "inject", "rlimit", "rlimit", "timeout"]


def gen(rng, tier):
    for i, case in enumerate(gen_sweep(rng, tier, BEHAVES, fails=0.4, modes=MODES)):
        if i % 6 == 1:
            yield flush_case(rng)
        yield case


def flush_case(rng):
    "A file object handed over with close=True can't be closed properly: its last data can't be written."
    n = rng.choice([1, 1, 2, 3])
    case = {
        "mode": "flush",
        "loop": pick_loop(rng),
        "n": n,
        "pos": rng.randrange(n),
        "full": rng.choice(["out", "err", "err", "both"]),
        "in": rng.choice(["none", "fdc", "filec", "path"]),
        "subs": [rng.choice(["r", "w", "pipe"]) for _ in range(rng.choice([0, 0, 1, 2]))],
        "passc": rng.choice([0, 0, 1, 2]),
        "style": rng.choice(STYLES[:5]),
        "child": rng.choice(["ok", "ok", "hang", "missing"]),
        "rounds": 3,
    }
    # (redirections that the pipe replaces are never used)
    if case["pos"] < n - 1:
        case["full"] = "err"
    if case["pos"] > 0:
        case["in"] = "none"
    return case


async def run_flush(case, m):
    await warm_up()
    for _ in range(case["rounds"]):
        await flush_once(case, m)


async def flush_once(case, m):
    before = fd_table()
    mine = []

    def full():
        f = open("/dev/full", "w")
        f.write("never fits")
        mine.append(f)
        return f

    cmds = []
    for i in range(case["n"]):
        at = i == case["pos"]
        ops = ["pmode:ignore"]
        subs = []
        for kind in case["subs"] if at else ():
            sub = {"r": sh(vpath(), "out:3000:1"), "w": sh(vpath(), "sink").writable, "pipe": sh(vpath(), "out:3000:1") | sh(vpath(), "cat")}[kind]
            subs.append(sub)
        if case["child"] == "missing" and at:
            cmd = sh("/nonexistent/vf-no-such-program", *subs)
        else:
            cmd = sh(vpath(), *ops, *subs, "sleep:30000" if case["child"] == "hang" and at else "sink")
        if at:
            cmd = cmd.set(cancel_timeout=0.5)
            if case["in"] == "fdc":
                cmd = cmd.stdin(os.open("/dev/null", os.O_RDONLY), close=True)
            elif case["in"] == "filec":
                f = open("/dev/null", "rb")
                mine.append(f)
                cmd = cmd.stdin(f, close=True)
            elif case["in"] == "path":
                cmd = cmd.stdin(Path("/dev/null"))
            if case["full"] in ("err", "both"):
                cmd = cmd.stderr(full(), close=True)
            if case["full"] in ("out", "both"):
                cmd = cmd.stdout(full(), close=True)
            if case["passc"]:
                cmd = cmd.set(pass_fds=[os.open("/dev/null", os.O_RDONLY) for _ in range(case["passc"])], pass_fds_close=True)
        elif i == 0:
            cmd = cmd.stdin(sh.DEVNULL)
        cmds.append(cmd)
    target = cmds[0]
    for cmd in cmds[1:]:
        target = target | cmd

    async def go():
        style = case["style"]
        if style == "iter":
            return [x async for x in target]
        if style in ("with", "withcap"):
            async with target as r:
                pass
            return r.result()
        return await target.coro() if hasattr(target, "coro") else await target

    try:
        got = ("value", repr(await asyncio.wait_for(go(), 15)))
    except asyncio.TimeoutError:
        got = ("timeout", "")
    except Exception as ex:
        got = ("raise", type(ex).__name__, getattr(ex, "errno", None))
    tag = str({k: v for k, v in case.items() if k not in ("mode", "rounds")})
    opened = closed = None

    def same():
        nonlocal opened, closed
        opened, closed = fd_diff(before, fd_table())
        return not opened and not closed

    await settle(same)
    m.event("runs")
    m.event("flush_failures")
    m.event("oracle_checks", 2)
    m.sig("flush", case["n"], case["pos"], case["full"], case["in"], tuple(case["subs"]), case["passc"], case["style"], case["child"], got[:2])
    m.check(not opened, "fd-leak", f"{tag} -> {got}: leaked {opened}")
    m.check(not closed, "caller-fd-closed", f"{tag} -> {got}: closed {closed}")
    for f in mine:
        m.check(f.closed, "given-fd-not-closed", f"{tag} -> {got}: {f.name} given with close=True still open")
        with contextlib.suppress(OSError):
            f.close()


async def run(case, m):
    if case["mode"] == "flush":
        return await run_flush(case, m)

    def judge(o, f, tag):
        m.event("close_calls", o.closes)
        m.event("oracle_checks", 4)
        kind = fault_key(f).split(":")[0]
        if o.leaked:
            m.viol("fd-leak", f"{tag}: leaked {o.leaked}")
        if o.lost:
            m.viol("caller-fd-closed", f"{tag}: caller's descriptors closed or replaced: {o.lost}")
        if o.unclosed:
            m.viol("given-fd-not-closed", f"{tag}: close=True descriptors still open: {o.unclosed}")
        if o.bad_close:
            m.viol("bad-close", f"{tag}: close of a descriptor that is not open: {o.bad_close[0]}")

    await sweep(case, m, judge)
