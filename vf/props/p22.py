"P22: the child watcher reports every exit exactly once with the right status."
import errno
import resource
import select
import signal
import threading

from shellous import sh
from shellous.watcher import DefaultChildWatcher

from ..lib import *

PROP = "P22"
LEVEL = "fault_enumeration"
BUDGET = {"quick": 22, "thorough": 240}
TECHNIQUE = "runtime monitoring: exactly-once/true-status ledger of watcher callbacks over many children, exit timings, close/reopen histories and real descriptor exhaustion; thread and descriptor census after close"
RULE = (
    "a case is (mode, strategy, number of children, exit kinds and moments, registering threads, faults, close/reopen history); "
    "distinct = (mode, strategy, size class, exit kinds x moments, fault and its outcome); non-trivial when at least one callback was received"
)

HOW = ["code", "code", "zero", "sig", "sigkill", "sigself", "stop", "forked"]
WHEN = ["before", "before", "race", "soon", "later", "order"]
SIGS = [1, 2, 3, 6, 9, 10, 12, 13, 14, 15, 24, 34, 64]


def kid(rng):
    return {"how": rng.choice(HOW), "when": rng.choice(WHEN), "n": rng.randrange(1, 256), "sig": rng.choice(SIGS), "ms": rng.choice([0, 1, 3, 10, 30])}


def gen(rng, tier):
    i = 0
    while True:
        i += 1
        mode = rng.choice(["direct", "direct", "direct", "exhaust", "fault", "loops", "runs", "close", "close"])
        strat = rng.choice(["epoll", "epoll", "thread"])
        if i <= 9:
            mode, strat, k = "exhaust", "epoll", i - 1
        else:
            k = rng.randrange(0, 9)
        n = rng.choice([1, 2, 3, 5, 8, 13, 30, 60] + ([150] if tier == "thorough" or i % 40 == 0 else []))
        if mode in ("exhaust", "fault"):
            n = rng.choice([1, 2, 3, 5, 8])
        yield {
            "mode": mode,
            "strat": strat,
            "kids": [kid(rng) for _ in range(n)],
            "rounds": rng.choice([1, 1, 2, 3]),
            "threads": rng.choice([1, 1, 3]),
            "twice": rng.random() < 0.5,
            "raise": rng.random() < 0.3,
            "fds": k,
            "warm": rng.random() < 0.5 if i > 9 else False,
            "fault": rng.choice(["pidfd", "pidfd", "register", "epoll", "pipe"]),
            "spare": rng.randrange(2, 26),
            "shape": rng.choice(["one", "one", "pipe", "pty", "many"]),
            "err": rng.choice([errno.EMFILE, errno.ENFILE, errno.ENOMEM]),
            "fault_at": sorted(rng.sample(range(n + 1), rng.choice([1, 1, 2]))) if n > 1 else [0],
            "nloops": rng.choice([1, 2, 3, 4]),
            "ncmds": rng.choice([1, 3, 6]),
            "aclose": rng.choice([False, False, True]),
            "loop": "default",
        }


class Kid:
    "One child of ours and the single report that is due for it."

    def __init__(self, spec, tmp, tag):
        self.spec = spec
        self.tag = tag
        self.calls = []
        self.add_failed = None
        self.gate = tmp / f"go{tag}"
        how, n, s = spec["how"], spec["n"], spec["sig"]
        gated = spec["when"] in ("later", "order") or how in ("sig", "sigkill", "stop")
        ops = ([f"wait:{self.gate}"] if gated else []) + ([f"sleep:{spec['ms']}"] if spec["when"] in ("soon", "race") else [])
        self.gated = gated
        self.want = None
        self.outside = None  # signal that we send
        if how == "zero":
            self.want = 0
        elif how == "sigself":
            ops += [f"kill:{s}"]
            self.want = -s
        elif how == "sig":
            self.outside, self.want = s, -s
        elif how == "sigkill":
            self.outside, self.want = 9, -9
        else:
            ops += [f"exit:{n}"]
            self.want = n
        devnull = os.open("/dev/null", os.O_RDWR)
        try:
            self.pid = os.posix_spawn(
                vpath(),
                [vpath(), *ops],
                {"PATH": "/usr/bin:/bin"},
                file_actions=[(os.POSIX_SPAWN_DUP2, devnull, i) for i in (0, 1, 2)],
                setsigdef=[signal.SIGPIPE, signal.SIGXFSZ],
            )
        finally:
            os.close(devnull)

    def go(self):
        "Let the child end."
        if self.spec["how"] == "stop":
            for s in (signal.SIGSTOP, signal.SIGCONT):
                with contextlib.suppress(ProcessLookupError):
                    os.kill(self.pid, s)
        if self.outside:
            with contextlib.suppress(ProcessLookupError):
                os.kill(self.pid, self.outside)
        elif self.gated:
            self.gate.touch()

    def wait_dead(self):
        "Wait until it has ended, leaving it to be reaped."
        os.waitid(os.P_PID, self.pid, os.WEXITED | os.WNOWAIT)


LOG_LOCK = threading.Lock()


def report(kid, raising):
    mark = (kid.tag, object())
    kid.mark = mark

    def callback(pid, status, *args):
        with LOG_LOCK:
            kid.calls.append((pid, status, args))
        if raising and kid.spec["n"] % 3 == 0:
            raise RuntimeError("Event loop is closed")

    return callback, mark


def fds():
    gc.collect()
    return fd_table()


async def reported(kids, limit):
    return await settle(lambda: all(k.calls for k in kids), limit)


def ledger(m, kids, where, expect_killed=False):
    "Exactly one report with the truth for each."
    for k in kids:
        desc = f"{where} {k.spec}"
        if k.add_failed is not None and not k.calls:
            m.viol(f"lost-failed-add:{where}", f"registering a child failed ({k.add_failed}) and its exit was never reported", pid=k.pid, spec=k.spec)
            continue
        if not m.check(len(k.calls) == 1, f"count:{where}", f"{len(k.calls)} reports for one child: {desc}"):
            continue
        pid, status, args = k.calls[0]
        m.eq(pid, k.pid, f"pid:{where}", desc)
        ok = {k.want}
        if k.add_failed is not None:
            ok.add(-9)
        m.check(status in ok, f"status:{where}", f"reported {status}, expected {k.want}: {desc}")
        m.check(len(args) == 2 and args[0] == k.tag and args[1] is k.mark[1], f"args:{where}", desc)
        m.event("reports")


def make_watcher(case):
    return DefaultChildWatcher(thread_strategy=True) if case["strat"] == "thread" else DefaultChildWatcher()


async def register(m, watcher, kids, case, where):
    "Register all; children end at their own moments."
    early = [k for k in kids if k.spec["when"] == "before"]
    for k in early:
        k.go()
    for k in early:
        await asyncio.to_thread(k.wait_dead) if k.gated else k.wait_dead()

    def add(k):
        callback, mark = report(k, case["raise"])
        try:
            watcher.add_child_handler(k.pid, callback, *mark)
        except (OSError, RuntimeError) as ex:
            k.add_failed = repr(ex)
        if k.spec["when"] in ("race", "soon"):
            k.go()

    if case["threads"] > 1 and where == "direct":
        chunks = [kids[i :: case["threads"]] for i in range(case["threads"])]
        await asyncio.gather(*(asyncio.to_thread(lambda c=c: [add(k) for k in c]) for c in chunks))
    else:
        for k in kids:
            add(k)
            if k.spec["n"] % 7 == 0:
                await asyncio.sleep(0)
    late = [k for k in kids if k.spec["when"] in ("later", "order")]
    rnd = random.Random(len(kids))
    rnd.shuffle(late)
    for k in late:
        if k.spec["when"] == "later":
            await asyncio.sleep(k.spec["ms"] / 3000)
        k.go()


def census(m, threads0, fds0, where, quiet=True):
    left = [t.name for t in threading.enumerate() if t not in threads0 and not t.name.startswith("asyncio_")]
    m.check(not left, f"threads:{where}", f"threads left after close: {left}")
    opened, closed = fd_diff(fds0, fds())
    m.check(not opened and not closed, f"fds:{where}", f"descriptors differ after close: opened={opened} closed={closed}")


async def run(case, m):
    # (start the pool and open what the loop needs before anything is counted)
    await asyncio.gather(*(asyncio.to_thread(time.sleep, 0.002) for _ in range(4)))
    threads0 = set(threading.enumerate())
    fds0 = fds()
    mode = case["mode"]
    await {"direct": direct, "exhaust": exhaust, "fault": fault, "loops": loops, "runs": runs, "close": closing}[mode](case, m, threads0, fds0)
    kids = proc_children()
    m.check(not kids, f"unreaped:{mode}", f"children left unreaped: {len(kids)}")
    if not m.events["reports"]:
        m.trivial = True
    size = len(case["kids"])
    m.sample = {"mode": mode, "strategy": case["strat"], "children": size, "reports": m.events["reports"]}


def note(m, case, kids, *extra):
    size = len(kids)
    cls = "1" if size == 1 else "few" if size < 10 else "many"
    for k in kids:
        m.sig(case["mode"], case["strat"], cls, k.spec["how"], k.spec["when"], *extra)


async def direct(case, m, threads0, fds0):
    watcher = make_watcher(case)
    for rnd in range(case["rounds"]):
        kids = [Kid(s, m.tmp, f"{rnd}-{i}") for i, s in enumerate(case["kids"])]
        await register(m, watcher, kids, case, "direct")
        await reported(kids, 8.0)
        await asyncio.sleep(0.003)
        ledger(m, kids, "direct")
        if case["strat"] == "thread" and rnd == 0:
            # a report is made by the thread that is about to end
            await settle(lambda: not [t for t in threading.enumerate() if t not in threads0 and not t.name.startswith("asyncio_")], 2)
        watcher.close()
        if case["twice"]:
            watcher.close()
        census(m, threads0, fds0, "direct")
        ledger(m, kids, "direct-after-close")
        note(m, case, kids, f"round{min(rnd, 1)}", case["threads"] > 1)


async def closing(case, m, threads0, fds0):
    "Close while children are still alive (or are just ending)."
    watcher = make_watcher(case)
    kids = [Kid(s, m.tmp, i) for i, s in enumerate(case["kids"])]
    half = kids[::2]
    for k in half:
        k.spec = {**k.spec, "when": "race"}
    rest = [k for k in kids if k not in half]
    for k in kids:
        callback, mark = report(k, case["raise"])
        watcher.add_child_handler(k.pid, callback, *mark)
    for k in half:
        k.go()
    if case["twice"]:
        await reported(half, 8.0)
        ledger(m, half, "before-close")
    t0 = time.monotonic()
    if case["threads"] > 1:
        await asyncio.gather(*(asyncio.to_thread(watcher.close) for _ in range(case["threads"])))
    else:
        await asyncio.to_thread(watcher.close)
        watcher.close()
    m.check(time.monotonic() - t0 < 5, "timing:close-slow", "closing took too long")
    if case["strat"] == "epoll":
        census(m, threads0, fds0, "close-live")
    # (used again, the watcher serves new children as before)
    more = [Kid({**s, "when": "race"}, m.tmp, f"m{i}") for i, s in enumerate(case["kids"][:4])]
    for k in more:
        callback, mark = report(k, False)
        watcher.add_child_handler(k.pid, callback, *mark)
        k.go()
    await reported(more, 8.0)
    ledger(m, more, "reopened")
    for k in rest:
        k.go()
    for k in kids:
        # Reaped by the watcher, or ours to reap when it was closed before.
        end = time.monotonic() + 6
        while time.monotonic() < end:
            if k.calls:
                break
            if case["strat"] == "epoll":
                try:
                    pid, st = os.waitpid(k.pid, os.WNOHANG)
                except ChildProcessError:
                    await asyncio.sleep(0.002)  # just being reported
                    if k.calls:
                        break
                    m.viol("stolen", f"child was reaped by the watcher but never reported {k.spec}")
                    break
                if pid:
                    m.event("left_to_us")
                    m.eq(os.waitstatus_to_exitcode(st), k.want, "harness-status")
                    break
            await asyncio.sleep(0.002)
        else:
            m.viol("close-lost", f"no report and child not ended {k.spec}")
        m.check(len(k.calls) <= 1, "count:close", f"{len(k.calls)} reports")
        if k.calls:
            m.eq(k.calls[0][:2], (k.pid, k.want), "report:close", str(k.spec))
            m.event("reports")
    if case["strat"] == "thread":
        ledger(m, kids, "thread-close")
        await settle(lambda: not [t for t in threading.enumerate() if t not in threads0 and not t.name.startswith("asyncio_")], 4)
    watcher.close()
    census(m, threads0, fds0, "close-end")
    note(m, case, kids, "twice" if case["twice"] else "once")


@contextlib.contextmanager
def limit_fds(spare):
    "Leave exactly `spare` descriptors."
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    used = sorted(fds())
    top = used[-1] + 1
    fill = []
    try:
        # (fill the holes so that the count is exact)
        while True:
            fd = os.open("/dev/null", os.O_RDONLY)
            fill.append(fd)
            if fd >= top:
                break
        resource.setrlimit(resource.RLIMIT_NOFILE, (fill[-1] + 1 + spare, hard))
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
        for fd in fill:
            os.close(fd)


async def exhaust(case, m, threads0, fds0):
    watcher = make_watcher(case)
    if case["warm"]:
        first = [Kid({**case["kids"][0], "when": "race"}, m.tmp, "w")]
        await register(m, watcher, first, case, "warm")
        await reported(first, 8)
    kids = [Kid(s, m.tmp, i) for i, s in enumerate(case["kids"])]
    for k in kids:
        if k.spec["when"] == "before":
            k.go()
            k.wait_dead()
    with limit_fds(case["fds"]):
        for k in kids:
            callback, mark = report(k, False)
            try:
                watcher.add_child_handler(k.pid, callback, *mark)
            except OSError as ex:
                k.add_failed = repr(ex)
    while_full = sum(k.add_failed is not None for k in kids)
    m.event("failed_registrations", while_full)
    for k in kids:
        if k.add_failed is None:
            k.go()
    await reported(kids, 6.0)
    ledger(m, kids, "exhaust")
    # after that the watcher works
    more = [Kid({**case["kids"][0], "when": "race"}, m.tmp, "n")]
    await register(m, watcher, more, case, "after")
    await reported(more, 8)
    ledger(m, more, "after-exhaust")
    if case["strat"] == "thread":
        await settle(lambda: not [t for t in threading.enumerate() if t not in threads0 and not t.name.startswith("asyncio_")], 4)
    watcher.close()
    census(m, threads0, fds0, "exhaust")
    note(m, case, kids, f"spare{case['fds']}", f"failed{min(while_full, 3)}", case["warm"])
    for k in kids:
        if not k.calls:
            with contextlib.suppress(ProcessLookupError):
                os.kill(k.pid, 9)
            with contextlib.suppress(ChildProcessError):
                os.waitpid(k.pid, 0)


async def fault(case, m, threads0, fds0):
    "Chosen calls of the operating system fail."
    count = collections_counter()
    which, err, at = case["fault"], case["err"], set(case["fault_at"])

    def failing(name, func):
        def wrapper(*a, **kw):
            i = count[name]
            count[name] += 1
            if name == "register":
                i -= 1  # (the first one is not a child's)
            if name == which and i in at and on[0]:
                m.event("faults_injected")
                raise OSError(err, os.strerror(err))
            return func(*a, **kw)

        return wrapper

    on = [True]
    real_epoll, real_pidfd, real_pipe = select.epoll, os.pidfd_open, os.pipe

    class Epoll:
        def __init__(self, *a, **kw):
            self._e = real_epoll(*a, **kw)
            self.register = failing("register", self._e.register)

        def __getattr__(self, name):
            return getattr(self._e, name)

    watcher = make_watcher(case)
    kids = [Kid(s, m.tmp, i) for i, s in enumerate(case["kids"])]
    select.epoll = failing("epoll", Epoll)
    os.pidfd_open = failing("pidfd", real_pidfd)
    os.pipe = failing("pipe", real_pipe)
    try:
        for k in kids:
            if k.spec["when"] == "before":
                k.go()
                k.wait_dead()
            callback, mark = report(k, False)
            try:
                watcher.add_child_handler(k.pid, callback, *mark)
            except OSError as ex:
                k.add_failed = repr(ex)
        on[0] = False
        for k in kids:
            if k.add_failed is None:
                k.go()
        await reported(kids, 6.0)
    finally:
        select.epoll, os.pidfd_open, os.pipe = real_epoll, real_pidfd, real_pipe
    ledger(m, kids, f"fault-{which}")
    if case["strat"] == "thread":
        await settle(lambda: not [t for t in threading.enumerate() if t not in threads0 and not t.name.startswith("asyncio_")], 4)
    watcher.close()
    census(m, threads0, fds0, f"fault-{which}")
    note(m, case, kids, which, f"at{min(at)}", f"failed{sum(k.add_failed is not None for k in kids)}")
    for k in kids:
        if not k.calls:
            with contextlib.suppress(ProcessLookupError):
                os.kill(k.pid, 9)
            with contextlib.suppress(ChildProcessError):
                os.waitpid(k.pid, 0)


def collections_counter():
    import collections

    return collections.Counter()


async def loops(case, m, threads0, fds0):
    "Whole commands on several event loops (one per thread) that share the watcher."
    watcher = make_watcher(case)
    results = []

    async def one(spec, i):
        how = spec["how"]
        ops = [f"sleep:{spec['ms']}"]
        want = 0
        if how in ("sig", "sigself", "sigkill"):
            s = 9 if how == "sigkill" else spec["sig"]
            ops.append(f"kill:{s}")
            want = -s
        elif how != "zero":
            ops.append(f"exit:{spec['n']}")
            want = spec["n"]
        cmd = V(f"outx:{b'hello'.hex()}", *ops).set(exit_codes=range(-70, 256))
        res = await asyncio.wait_for(cmd.result(), 10)
        results.append((res.exit_code, want, res.output, spec))

    async def main(base):
        specs = case["kids"][base :: case["nloops"]][: case["ncmds"]] or case["kids"][:1]
        await asyncio.gather(*(one(s, i) for i, s in enumerate(specs)))
        if case["aclose"]:
            # leave the loop while a child that is nobody's any more still runs
            task = asyncio.create_task(one({"how": "zero", "ms": 1}, 99))
            await asyncio.sleep(0.001)
            task.cancel()
            with contextlib.suppress(asyncio.CancelledError):
                await task

    errors = []

    def thread(base):
        try:
            asyncio.run(main(base))
        except BaseException as ex:  # noqa
            errors.append(repr(ex))

    with warnings.catch_warnings():
        warnings.simplefilter("ignore", DeprecationWarning)
        asyncio.set_child_watcher(watcher)
        try:
            ths = [threading.Thread(target=thread, args=(b,), daemon=True) for b in range(case["nloops"])]
            for t in ths:
                t.start()
            for t in ths:
                await asyncio.to_thread(t.join, 20)
            m.check(not any(t.is_alive() for t in ths), "hang:loops", "an event loop did not finish")
        finally:
            asyncio.set_child_watcher(None)
    m.check(not errors, "error:loops", errors[:3])
    for got, want, out, spec in results:
        m.eq((got, out), (want, "hello"), "result:loops", str(spec))
        m.event("reports")
        m.sig("loops", case["strat"], spec["how"], case["nloops"], case["aclose"])
    if case["strat"] == "thread":
        await settle(lambda: not [t for t in threading.enumerate() if t not in threads0 and not t.name.startswith("asyncio_")], 4)
    watcher.close()
    census(m, threads0, fds0, "loops")


async def runs(case, m, threads0, fds0):
    "Whole commands while descriptors run out."
    watcher = make_watcher(case)
    shape = case["shape"]
    got = []

    def cmd():
        c = V(f"outx:{b'hello'.hex()}", "sleep:3", "exit:5").set(exit_codes={5}, pty=shape == "pty")
        return V("exit:0") | c if shape == "pipe" else c

    async def main():
        if case["warm"]:
            got.append(await asyncio.wait_for(cmd(), 10))
        with limit_fds(case["spare"]):
            tasks = [asyncio.ensure_future(cmd().coro()) for _ in range(4 if shape == "many" else 1)]
            done, _ = await asyncio.wait(tasks, timeout=15)
        m.check(len(done) == len(tasks), "hang:runs", "a run did not finish while descriptors were short")
        for t in tasks:
            t.cancel()
        for r in await asyncio.gather(*tasks, return_exceptions=True):
            if isinstance(r, OSError):
                m.event("runs_failed_for_lack_of_descriptors")
                m.sig("runs", case["strat"], shape, "failed", case["spare"] // 2)
            else:
                got.append(r)
        # (reports of children that were given up come within the time that the watcher polls)
        ok = await settle(lambda: not proc_children(), 5)
        m.check(ok, "left-running:runs", f"a child of a run that failed is left: {len(proc_children())}")
        got.append(await asyncio.wait_for(cmd(), 10))

    error = []

    def thread():
        try:
            asyncio.run(main())
        except BaseException as ex:  # noqa
            error.append(repr(ex))

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        asyncio.set_child_watcher(watcher)
        try:
            await asyncio.to_thread(lambda: [t.start() or t.join(40) for t in [threading.Thread(target=thread, daemon=True)]])
        finally:
            asyncio.set_child_watcher(None)
        m.check(not error, "error:runs", error)
        for r in got:
            m.check(r == "hello", "output:runs", repr(r))
            m.event("reports")
        m.sig("runs", case["strat"], shape, "ok")
        if case["strat"] == "thread":
            await settle(lambda: not [t for t in threading.enumerate() if t not in threads0 and not t.name.startswith("asyncio_")], 4)
        watcher.close()
        gc.collect()
    opened = [v for k, v in fd_diff(fds0, fds())[0].items()]
    m.check(not [v for v in opened if "pidfd" in v or "eventpoll" in v], "fds:runs", f"{opened}")
