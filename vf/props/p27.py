"P27: an exception raised in a run's block stops the run and propagates unchanged."
import logging
import signal

from shellous import ResultError, cooked, raw
from shellous.runner import Runner

from ..lib import *

PROP = "P27"
LEVEL = "exploration"
BUDGET = {"quick": 24, "thorough": 240}
TECHNIQUE = "runtime monitoring: exceptions of many types raised at chosen points of the block; identity of what surfaces, liveness of the processes at that moment, exit status, signals (audit events) and leftovers checked"
RULE = (
    "a run is (block style, command form, child reaction, exception type, point at which it is raised, nesting, loop); distinct = those; "
    "every run raises an exception in a block while the process is running or has just ended"
)


class Boom(Exception):
    pass


class Base(BaseException):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False


class Empty(Exception):
    "(an exception that is also an empty collection)"

    def __len__(self):
        return 0


EXCS = {
    "Falsy": Falsy,
    "Empty": Empty,
    "Boom": Boom,
    "Base": Base,
    "ValueError": ValueError,
    "RuntimeError": RuntimeError,
    "BrokenPipeError": BrokenPipeError,
    "ConnectionResetError": ConnectionResetError,
    "TimeoutError": TimeoutError,
    "EOFError": EOFError,
    "OSError": lambda x: OSError(5, x),
    "ResultError": None,
    "AssertionError": AssertionError,
    "StopAsyncIteration": StopAsyncIteration,
    "UnicodeDecodeError": lambda x: UnicodeDecodeError("utf-8", b"\xff", 0, 1, x),
    "Group": lambda x: ExceptionGroup(x, [Boom(x)]),
}
FORMS = ["plain", "bigin", "bigin", "reader", "bytesio", "psr", "psw", "psrbig", "stringio", "logger", "path", "pty", "ptybig", "errbuf", "flood"]
STYLES = ["with", "with", "withcap", "pipe", "pipecap", "prompt", "runner"]


def gen(rng, tier):
    while True:
        case = {
            "style": rng.choice(STYLES),
            "form": rng.choice(FORMS),
            "react": rng.choice(["hang", "hang", "trap", "ign", "int", "kill", "done", "doneerr"]),
            "exc": rng.choice(list(EXCS)),
            "when": rng.choice(["at once", "sleep0", "ready", "read", "later"]),
            "nest": rng.choice([0, 0, 0, 1]),
            "loop": pick_loop(rng, 0.6),
            "seed": rng.randrange(1 << 30),
        }
        if case["form"].startswith("pty") and case["loop"] == "uvloop":
            case["loop"] = "default"
        if case["style"] in ("withcap", "pipecap", "prompt") and case["form"] in ("stringio", "logger", "path"):
            case["form"] = "plain"
        if case["style"] == "prompt" and case["form"] in ("bigin", "reader", "bytesio", "ptybig"):
            case["form"] = "psr"
        yield case


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(") ", 1)[1][0] not in "ZX"
    except OSError:
        return False


def build(case, tmp, audit):
    form, react = case["form"], case["react"]
    ready = tmp / "ready"
    ops = [f"touch:{ready}"]
    pre = {"ign": ["ign:15"], "trap": ["trap:15:7"], "int": ["trap:2:8"]}.get(react, [])
    last = [] if react == "done" else ["exit:3"] if react == "doneerr" else ["pause"]
    opts = {"cancel_timeout": 0.15 if react == "ign" else 5.0, "audit_callback": audit}
    if react == "int":
        opts["cancel_signal"] = signal.SIGINT
    elif react == "kill":
        opts["cancel_signal"] = None
    words = ["outx:e282"] if form in ("stringio", "logger") else ["outx:6162630a"]
    if form == "errbuf":
        words += ["err:3000:1"]
    if form == "flood":
        last = ["out:2000000000:3"]
    args = pre + words
    if form in ("psr", "psrbig"):
        args += ["pmode:name", V(f"out:{300000 if form == 'psrbig' else 100}:4")]
    elif form == "psw":
        args += ["pmode:name", (V("hash") | (tmp / "sub")).writable]
    cmd = sh.set(**opts)(vpath(), *args, *ops, *last)
    if form in ("bigin",):
        cmd = cmd.stdin(pat(500000, 3))
    elif form == "bytesio":
        cmd = cmd.stdin(io.BytesIO(pat(300000, 3)))
    elif form == "reader":
        r = asyncio.StreamReader()
        r.feed_data(pat(200000, 3))
        cmd = cmd.stdin(r)
    elif form == "stringio":
        cmd = cmd.stdout(io.StringIO())
    elif form == "logger":
        cmd = cmd.stdout(logging.getLogger("vf.p27"))
    elif form == "path":
        cmd = cmd.stdout(tmp / "out")
    elif form == "pty":
        cmd = cmd.set(pty=raw())
    elif form == "ptybig":
        cmd = cmd.stdin(b"xyz\n" * 50000).set(pty=cooked(echo=False))
    return cmd, ready


async def ready_wait(path):
    for _ in range(4000):
        if path.exists():
            return
        await asyncio.sleep(0.001)


async def body(case, run, ready, exc, info):
    info["pids"] = set(proc_children())
    info["run"] = run
    when = case["when"]
    if when == "sleep0":
        for _ in range(random.Random(case["seed"]).randrange(1, 12)):
            await asyncio.sleep(0)
    elif when in ("ready", "read", "later"):
        await ready_wait(ready)
        info["ready"] = True
        if when == "read" and getattr(run, "stdout", None) is not None:
            await run.stdout.read(2)
        if when == "later":
            await asyncio.sleep(0.01)
    info["pids"] |= set(proc_children())
    info["t"] = time.monotonic()
    raise exc


async def run(case, m):
    events = []

    def audit(phase, info):
        events.append((phase, info["signal"], info["failure"], id(info["runner"])))

    tag = " ".join(f"{k}={v}" for k, v in case.items() if k != "seed")
    m.sig(*[v for k, v in case.items() if k != "seed"])
    logging.getLogger("vf.p27").propagate = False
    errs = []
    loop = asyncio.get_running_loop()
    loop.set_exception_handler(lambda _l, ctx: errs.append(str(ctx)[:400]))
    cmd, ready = build(case, m.tmp, audit)
    if case["exc"] == "ResultError":
        exc = ResultError(await sh(vpath(), "exit:9").result)
    else:
        exc = EXCS[case["exc"]]("vf")
    info = {}
    style = case["style"]
    n = 1
    got = None
    outer = None
    try:
        async with contextlib.AsyncExitStack() as stack:
            if case["nest"]:
                outer = await stack.enter_async_context(V("pause"))
            if style == "with":
                async with cmd as r:
                    await body(case, r, ready, exc, info)
            elif style == "runner":
                async with Runner(cmd) as r:
                    await body(case, r, ready, exc, info)
            elif style == "withcap":
                async with cmd.stdout(sh.CAPTURE) as r:
                    await body(case, r, ready, exc, info)
            elif style == "pipe":
                n = 2
                async with V("out:5:5") | cmd if case["form"] not in ("bigin", "reader", "bytesio", "ptybig") else cmd | V("sink") as r:
                    await body(case, r, ready, exc, info)
            elif style == "pipecap":
                n = 2
                async with (cmd | V("cat")).stdout(sh.CAPTURE) as r:
                    await body(case, r, ready, exc, info)
            else:
                async with cmd.prompt() as cli:
                    await body(case, cli._runner, ready, exc, info)
        m.viol("swallowed", f"{tag}: the block ended normally")
    except BaseException as ex:
        got = ex
        after = time.monotonic()
        still = [p for p in info.get("pids", ()) if alive(p)]
    if got is None:
        return
    m.event("raised")
    if case["loop"] == "uvloop" and isinstance(got, RuntimeError) and "handler is closed" in str(got):
        m.event("uvloop_closed_transport")  # (uvloop's own way to report a broken pipe)
        return
    if not m.check(got is exc, "exception-replaced", f"{tag}: raised {exc!r}, got {got!r} (context {got.__context__!r})"):
        return
    m.check(not still, "left-running", f"{tag}: {still}")
    left = [p for p in proc_children() if alive(p)]
    m.check(not left, "left-running", f"{tag}: {left}")
    m.event("processes_seen", len(info["pids"]))
    # how the process was stopped
    sigs = [e[1] for e in events if e[0] == "signal"]
    first = {"int": "SIGINT", "kill": "SIGKILL"}.get(case["react"], "SIGTERM")
    m.check(not sigs or sigs[0] == first, "wrong-signal", f"{tag}: {sigs}")
    # (a failing I/O task may legitimately cut the wait short)
    quiet = case["form"] in ("plain", "path", "errbuf", "flood", "pty") and style in ("with", "runner", "withcap") and not case["nest"]
    if quiet and info.get("ready") and case["react"] in ("hang", "trap", "int", "kill") and case["form"] != "flood":
        m.check(sigs == [first], "wrong-signal", f"{tag}: {sigs}")
        code = info["run"].returncode
        want = {"hang": -15, "trap": 7, "int": 8, "kill": -9}[case["react"]]
        m.eq(code, want, "wrong-exit", tag)
    if quiet and info.get("ready") and case["react"] == "ign" and case["form"] != "flood":
        m.check(sigs == ["SIGTERM", "SIGKILL"], "wrong-signal", f"{tag}: {sigs}")
        m.check(after - info["t"] > 0.14, "killed-early", f"{tag}: {after - info['t']}")
    stops = [e for e in events if e[0] == "stop"]
    m.check(len(stops) == len([e for e in events if e[0] == "start"]) and all(not e[2] for e in stops), "audit", f"{tag}: {events}")
    if outer is not None:
        m.check(outer.returncode is not None, "outer-running", tag)
    await asyncio.sleep(0)
    tasks = other_tasks()
    m.check(await settle(lambda: not other_tasks(), 2), "tasks-left", f"{tag}: {tasks}")
    m.check(asyncio.current_task().cancelling() == 0, "cancelling", tag)
    got = exc = None
    gc.collect()
    m.check(not errs, "loop-error", f"{tag}: {errs}")
