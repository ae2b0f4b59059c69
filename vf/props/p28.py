"P28: the event loop keeps running while children do whatever they do."
import logging
import signal
import socket
import sys
import threading
import traceback

from shellous import Command, cbreak, cooked, raw
from shellous.runner import Runner

from ..lib import *

PROP = "P28"
LEVEL = "exploration"
BUDGET = {"quick": 26, "thorough": 240}
TECHNIQUE = "runtime monitoring: heartbeat in the event loop; time the loop's thread spent neither computing nor runnable nor serving the heartbeat is blocked time, attributed by sampled stacks"
RULE = (
    "a case is a set of concurrent runs (kind, redirection, style, child delay, fault) on one loop with a heartbeat; distinct = (kind and its choices, loop); "
    "non-trivial when a child kept its run waiting for at least half a second"
)
KINDS = [
    "late", "late", "igncancel", "igntimeout", "unread", "unread", "slowout", "slowout", "pty", "pty", "ptyprompt", "prompt", "promptsend",
    "procsub", "procsubw", "pipe", "hold", "iterbreak", "pipefail", "slowsink", "storm", "reader", "bodyraise", "noecho", "twocancels", "harvested", "ptyflood",
]  # fmt: skip
LIMIT = 0.3  # blocked seconds; every delay of a child is at least twice as long


def gen(rng, tier):
    while True:
        yield {
            "runs": [{"kind": rng.choice(KINDS), "d": rng.choice([700, 800, 900]), "a": rng.randrange(60), "b": rng.randrange(60), "seed": rng.randrange(1 << 30)} for _ in range(rng.choice([1, 3, 5]))],
            "loop": pick_loop(rng, 0.5),
            "wd": 60,
        }


def sched():
    with open("/proc/thread-self/schedstat") as f:
        return int(f.read().split()[1]) / 1e9


class Heart:
    "Measures how long the loop's thread is blocked between two beats."

    STEP = 0.005

    def __init__(self):
        self.loop = asyncio.get_running_loop()
        self.beats = 0
        self.worst = 0.0
        self.worst_gap = 0.0
        self.stack = ""
        self.samples = ""
        self.last = None
        self.tid = threading.get_ident()
        self.stopped = threading.Event()
        self.handle = None

    def start(self):
        self.last = (time.monotonic(), time.thread_time(), sched())
        self.thread = threading.Thread(target=self.sampler, daemon=True)
        self.thread.start()
        self.handle = self.loop.call_later(self.STEP, self.beat)

    def beat(self):
        now = (time.monotonic(), time.thread_time(), sched())
        gap, cpu, wait = (b - a for a, b in zip(self.last, now))
        blocked = gap - cpu - wait - self.STEP
        self.beats += 1
        self.worst_gap = max(self.worst_gap, gap)
        if blocked > self.worst:
            self.worst = blocked
            self.stack = self.samples if gap > 0.1 else ""
        self.samples = ""
        self.last = now
        self.handle = self.loop.call_later(self.STEP, self.beat)

    def sampler(self):
        while not self.stopped.wait(0.03):
            last = self.last
            if time.monotonic() - last[0] > 0.12 and not self.samples:
                f = sys._current_frames().get(self.tid)
                text = "".join(traceback.format_stack(f)[-6:]) if f else ""
                if self.last is last:
                    self.samples = text

    def stop(self):
        self.beat()
        self.handle.cancel()
        self.stopped.set()
        self.thread.join()


class Boom(Exception):
    pass


async def started(path, task):
    for _ in range(3000):
        if path.exists() or task.done():
            return
        await asyncio.sleep(0.002)


async def one(r, tmp, uv):
    "One run; its outcome does not matter here."
    kind, d, a, b = r["kind"], r["d"], r["a"], r["b"]
    tmp.mkdir()
    D = f"sleep:{d}"
    ready = tmp / "ready"
    styles = ["await", "result", "with", "runner", "cap"]

    async def go(cmd, style=styles[b % 5]):
        if style == "await":
            return await cmd
        if style == "result":
            return await cmd.result()
        if style == "runner" and isinstance(cmd, Command):
            async with Runner(cmd) as run:
                pass
            return run.result(check=False)
        if style == "cap":
            async with cmd.stdout(sh.CAPTURE) as run:
                while await run.stdout.read(4096):
                    pass
            return None
        async with cmd:
            pass
        return None

    async def cancelled(cmd, after=0.02, again=None):
        task = asyncio.ensure_future(go(cmd))
        await started(ready, task)
        await asyncio.sleep(after)
        task.cancel()
        if again is not None:
            await asyncio.sleep(again)
            task.cancel()
        return await task

    sinks = [lambda: bytearray(), lambda: io.BytesIO(), lambda: io.StringIO(), lambda: logging.getLogger("vf.p28"), lambda: tmp / "out", lambda: sh.DEVNULL, lambda: sh.BUFFER]
    if kind == "late":
        cmd = V("outx:61", "close:1", "close:2", D, *[["exit:3"], []][a % 2])
        cmd = [cmd, cmd.stdin(b"x" * 100), cmd.stdin(sh.DEVNULL), cmd.stderr(sh.STDOUT)][b % 4]
        return await go(cmd)
    if kind == "igncancel":
        sig = [15, 2][a % 2]
        return await cancelled(V(f"ign:{sig}", f"touch:{ready}", "pause").set(cancel_timeout=d / 1000, cancel_signal=signal.Signals(sig)))
    if kind == "twocancels":
        return await cancelled(V("ign:15", f"touch:{ready}", "pause").set(cancel_timeout=3.0), again=d / 1000)
    if kind == "igntimeout":
        cmd = V("ign:15", "pause").set(timeout=0.1, cancel_timeout=d / 1000)
        return await go([cmd, V("cat") | cmd, cmd | V("cat")][a % 3])
    if kind == "unread":
        data = pat(300000, 1)
        (tmp / "in").write_bytes(data)
        src = [lambda: data, lambda: bytearray(data), lambda: tmp / "in", lambda: io.BytesIO(data), lambda: io.StringIO("é" * 150000), lambda: data.hex()][a % 6]()
        cmd = V(D, "hash").stdin(src)
        return await go([cmd, cmd | V("cat")][b % 2])
    if kind == "slowout":
        cmd = V("outx:610a", "errx:620a", D, "out:70000:3", "err:3000:4", D)
        return await go(cmd.stdout(sinks[a % 7]()).stderr(sinks[b % 7]()), ["await", "with"][b % 2])
    if kind == "pty":
        mode = [True, raw(), cooked(echo=False), cbreak()][a % 4]
        lines = b"0123456789\n" * 3000
        cmd = V(D, "outx:61", D).set(pty=mode) if b % 2 else V(D, "rdline", D, "rdline").set(pty=mode).stdin(lines)
        return await asyncio.wait_for(go(cmd, ["await", "result", "with"][b % 3]), 2.5)
    if kind == "ptyflood":
        # the child floods its terminal and nobody reads
        async with V("out:2000000:1").set(pty=raw()).stdout(sh.CAPTURE) as run:
            await asyncio.sleep(d / 1000)
            raise Boom
    if kind == "ptyprompt":
        async with V(D, "echo:" + b"> ".hex()).set(pty=[cooked(echo=False), raw()][a % 2]).prompt("> ", timeout=3.0) as cli:
            await cli.command("hello")
            with contextlib.suppress(asyncio.TimeoutError):
                await cli.expect("never", timeout=d / 1000)
            cli.echo
            if b % 2:
                raise Boom
            await cli.send("quit")
            return await cli.read_all()
    if kind == "noecho":
        # the terminal echoes for a while: no_echo waits for that to end
        async with V(D, "noecho", "rdline").set(pty=cooked(echo=True)).prompt(timeout=5.0) as cli:
            await cli.send("secret", no_echo=True)
            return await cli.read_all()
    if kind == "prompt":
        cmd = V(D, "echo:" + b"> ".hex())
        async with (cmd if a % 2 else V("cat") | cmd).prompt("> ", timeout=[None, 4.0][b % 2]) as cli:
            await cli.command("hello")
            with contextlib.suppress(asyncio.TimeoutError):
                await cli.command("more", prompt="never", timeout=d / 1000)
            await cli.send("quit")
            return await cli.read_all()
    if kind == "promptsend":
        async with V("out:50000:1", D, "hash", D).prompt(timeout=6.0) as cli:
            await cli.send(b"y" * 400000, end="")
            cli.close()
            return await cli.read_all()
    if kind == "procsub":
        sub = V(D, "out:3000:1", D)
        return await go(V("pmode:cat", [sub, sub | V("cat"), V("cat").stdin(b"z" * 200000) | V(D, "cat")][a % 3]))
    if kind == "procsubw":
        return await go(V("pmode:write:90000:2", (V(D, "cat", D) | sinks[a % 7]()).writable))
    if kind == "pipe":
        stages = [V(D, "out:90000:1"), V(D, "cat"), V("cat", D)]
        cmd = stages[a % 3] | stages[(a + 1) % 3] | V("cat")
        return await go(cmd)
    if kind == "hold":
        return await go(V("outx:61", f"hold:{d}", *[[], ["exit:2"]][a % 2]))
    if kind == "iterbreak":
        cmd = V("ign:15", "outx:610a620a", "pause").set(cancel_timeout=d / 1000)
        async for _ in [cmd, cmd | V("cat"), V("cat") | cmd][a % 3]:
            raise Boom
    if kind == "pipefail":
        slow = V("ign:15", "pause").set(cancel_timeout=d / 1000)
        return await go([V("sleep:50", "exit:3") | slow, slow | V("sleep:50", "exit:3"), sh("vf-no-such") | slow, slow | sh("vf-no-such")][a % 4], ["await", "result", "with"][b % 3])
    if kind == "slowsink":
        s1, s2 = socket.socketpair()
        s1.setblocking(False)
        reader, writer = await asyncio.open_connection(sock=s2)

        async def drain_late():
            await asyncio.sleep(d / 1000)
            loop = asyncio.get_running_loop()
            while await loop.sock_recv(s1, 65536):
                pass

        t = asyncio.ensure_future(drain_late())
        try:
            return await go(V("out:900000:1").stdout(writer), ["await", "with"][b % 2])
        finally:
            writer.close()
            await t
            s1.close()
    if kind == "storm":
        cmds = [go(V("outx:61", D, f"exit:{i % 3}").set(exit_codes={0, 1, 2}), "result") for i in range(12)]
        if a % 2:
            cmds += [go(sh("vf-no-such"), "result") for _ in range(4)]
        return await asyncio.gather(*cmds, return_exceptions=True)
    if kind == "harvested":
        from shellous.harvest import harvest

        return await harvest(go(V(D, "outx:61"), "await"), go(V("sleep:20", "exit:4"), "await"), go(V("ign:15", "pause").set(cancel_timeout=d / 1000), "await"))
    if kind == "reader":
        rd = asyncio.StreamReader()

        async def feed():
            for _ in range(3):
                rd.feed_data(pat(80000, 2))
                await asyncio.sleep(d / 2000)
            rd.feed_eof()

        t = asyncio.ensure_future(feed())
        try:
            return await go(V(D, "hash").stdin(rd))
        finally:
            await t
    if kind == "bodyraise":
        cmd = V("ign:15", f"touch:{ready}", "pause").set(cancel_timeout=d / 1000)
        cmd = [cmd, cmd | V("cat"), cmd.stdin(pat(300000, 4)), V("pmode:ignore", V("ign:15", "pause").set(cancel_timeout=d / 1000), f"touch:{ready}", "pause")][a % 4]
        async with [cmd, cmd.stdout(sh.CAPTURE)][b % 2]:
            await started(ready, asyncio.get_running_loop().create_future())
            raise Boom
    raise AssertionError(kind)


async def attempt(case, m, tmp):
    heart = Heart()
    heart.start()
    t0 = time.monotonic()
    tmp.mkdir()
    tasks = [asyncio.ensure_future(one(r, tmp / str(i), case["loop"] == "uvloop")) for i, r in enumerate(case["runs"])]
    _, stuck = await asyncio.wait(tasks, timeout=20)
    for t in stuck:  # (another property's business)
        m.event("stuck")
        t.cancel()
    if stuck:
        await asyncio.wait(tasks)
    heart.stop()
    for t in tasks:
        name = "cancelled" if t.cancelled() else "value" if t.exception() is None else type(t.exception()).__name__
        m.event(f"ended_{name}")
        if name in ("AssertionError", "TypeError", "AttributeError", "NameError", "FileExistsError"):
            raise t.exception()
    return heart, time.monotonic() - t0


async def run(case, m):
    logging.getLogger("vf.p28").propagate = False
    asyncio.get_running_loop().set_exception_handler(lambda _l, ctx: None)
    if case["loop"] == "uvloop":
        case = {**case, "runs": [r for r in case["runs"] if r["kind"] not in ("pty", "ptyprompt", "noecho", "ptyflood")]}
        if not case["runs"]:
            return
    for r in case["runs"]:
        m.sig(r["kind"], r["a"] % 12, r["b"] % 12, case["loop"])
    worst, text = 1e9, ""
    for i in range(3):
        heart, took = await attempt(case, m, m.tmp / f"a{i}")
        m.event("beats", heart.beats)
        m.event("loop_milliseconds_watched", int(took * 1000))
        if took > 0.5:
            m.event("runs_kept_waiting", len(case["runs"]))
        if heart.worst < worst:
            worst, text = heart.worst, heart.stack
        if worst <= LIMIT:
            break
        m.event("repeated")
    m.check(worst <= LIMIT, "loop-blocked", f"the event loop did nothing for {worst:.2f} s (every time in three attempts) while running {[r['kind'] for r in case['runs']]} on {case['loop']}: {text}")
