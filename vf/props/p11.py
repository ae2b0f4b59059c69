"P11: the timeout option fires exactly when the process outlives it."
import signal

from shellous import cooked, raw

from ..lib import *

PROP = "P11"
LEVEL = "fault_enumeration"
BUDGET = {"quick": 26, "thorough": 300}
CONFIRM = ("timing",)
TECHNIQUE = (
    "runtime monitoring: the event loop's clock is jumped past the timeout at chosen loop iterations (before, around and after the exit of the process); "
    "outcome compared with the runner's and kernel's process state; signals recorded by the audit callback; Task.cancelling() and later loop time watched"
)
RULE = (
    "a run is (style, command form, child reaction, relation of exit to expiry, loop iteration of the jump, extra cancellation); "
    "distinct = those plus the outcome; runs in which a timeout was armed count"
)
ASSUMPTIONS = ["a process that has exited while others still hold its output pipes open may count as running (asyncio's Process.wait)", "timeouts of single commands (in a pipeline the timeout of one command ends the pipeline with ResultError)"]

STYLES = ["await", "await", "result", "task", "with", "withread", "iter", "prompt", "nested"]
FORMS = ["plain", "plain", "input", "bytearray", "stringio", "errbuf", "procsub", "pty", "ptyraw"]
REACT = ["hang", "hang", "trap", "ign", "int", "none", "flood"]
T = 3.0
JUMP = 3.0  # (other timeouts of the run, such as cancel_timeout, are longer or due anyway)


def gen(rng, tier):
    while True:
        loop = pick_loop(rng, 0.55)
        style = rng.choice(STYLES)
        form = rng.choice(FORMS)
        if style == "prompt" and form in ("input", "bytearray", "stringio"):
            form = "plain"
        if style in ("withread", "iter") and form in ("bytearray", "stringio"):
            form = "plain"
        if form in ("pty", "ptyraw") and loop == "uvloop":
            form = "plain"
        mode = rng.choice(["alive", "alive", "after", "after", "race", "race", "cancel", "outer", "real", "real"])
        if loop == "uvloop":
            mode = "real"
        yield {
            "loop": loop,
            "style": style,
            "form": form,
            "react": rng.choice(REACT),
            "mode": mode,
            "seed": rng.randrange(1 << 30),
            "runs": 8 if mode != "real" else 3,
        }


class Warp:
    "Controls a loop's clock and calls back at chosen iterations."

    def __init__(self, loop):
        self.loop, self.off, self.it = loop, 0.0, 0
        self.due = []
        self.each = None
        self.ok = hasattr(loop, "_run_once")
        if not self.ok:
            return
        self.otime, self.orun = loop.time, loop._run_once
        loop.time = lambda: self.otime() + self.off

        def run_once():
            self.it += 1
            if self.each:
                self.each()
            for item in [d for d in self.due if d[0] <= self.it]:
                self.due.remove(item)
                item[1]()
            self.orun()

        loop._run_once = run_once
        self.ticking = True
        self._tick()

    def _tick(self):
        if self.ticking:
            self.loop.call_later(0.0005, self._tick)

    def jump(self):
        self.off += JUMP

    def at(self, n, func):
        self.due.append((self.it + n, func))

    def close(self):
        if self.ok:
            self.ticking = False
            # (never turn the clock back)
            del self.loop._run_once


class Rec:
    def __init__(self):
        self.events = []
        self.runner = None
        self.t_signal = None

    def __call__(self, phase, info):
        self.events.append((phase, info["signal"], info["failure"]))
        if phase == "start" and self.runner is None:
            self.runner = info["runner"]
        if phase == "signal":
            self.t_signal = time.monotonic()

    def signals(self):
        return [e[1] for e in self.events if e[0] == "signal"]


SIGS = {"hang": signal.SIGTERM, "trap": signal.SIGTERM, "ign": signal.SIGTERM, "int": signal.SIGINT, "none": None, "flood": signal.SIGTERM}


class Run_:
    "One command with a timeout, run in the given style."

    def __init__(self, case, rng, tmp, timeout, life):
        self.case, self.rng, self.tmp = case, rng, tmp
        self.flag = tmp / "go"
        self.rec = Rec()
        self.runner = None
        react, form = case["react"], case["form"]
        ops = ["ign:1"]
        if react == "trap":
            ops.append("trap:15:7")
        elif react == "ign":
            ops.append("ign:15")
        self.marker = b"ready\n"
        ops += ["touch:" + str(tmp / "up"), "outx:" + self.marker.hex()]
        if form == "input":
            ops.append("sink")
        if form == "errbuf":
            ops.append("errx:" + b"errs".hex())
        drain = rng.choice([0, 0, 60, 150]) if life != "forever" and form not in ("pty", "ptyraw") and case["style"] not in ("prompt",) else 0
        self.drain = drain
        if react == "flood" and life == "forever":
            ops += ["out:100000000:1"]
        if life == "forever":
            ops.append("pause")
        elif life == "flag":
            ops.append(f"wait:{self.flag}")
        else:
            ops.append(f"sleep:{life}")
        if drain:
            ops.append(f"hold:{drain}")
        self.code = rng.choice([0, 0, 0, 5])
        self.tail = b"tail"
        ops += ["outx:" + self.tail.hex(), f"exit:{self.code}"]
        if form in ("pty", "ptyraw"):
            cmd = V(*ops).set(pty=cooked(echo=False) if form == "pty" else raw())
        else:
            cmd = V(*ops)
        if form == "procsub":
            cmd = cmd.set(_return_result=False)
            cmd = sh(vpath(), "pmode:ignore", *ops[:-2], V("sleep:0"), *ops[-2:])
        ct = {"ign": 0.03, "flood": 0.3}.get(react, 5.0)
        cmd = cmd.set(timeout=timeout, encoding="latin-1", cancel_timeout=ct, cancel_signal=SIGS[react], audit_callback=self.rec)
        self.sink = None
        if form == "input":
            cmd = (b"x" * rng.choice([1, 1000, 60000])) | cmd
        elif form == "bytearray":
            self.sink = bytearray()
            cmd = cmd | self.sink
        elif form == "stringio":
            self.sink = io.StringIO()
            cmd = cmd | self.sink
        self.cmd = cmd
        self.text = None
        self.in_block = None

    async def go(self):
        style, cmd = self.case["style"], self.cmd
        pty = self.case["form"] in ("pty", "ptyraw")
        if style == "await":
            self.text = await cmd
        elif style == "result":
            res = await cmd.result
            self.text = res.output
            return res.exit_code
        elif style == "task":
            self.text = await asyncio.get_running_loop().create_task(self._aw(cmd))
        elif style in ("with", "nested"):
            if style == "nested":
                async with V("ign:1", "pause").set(cancel_timeout=5.0) as outer:
                    await self.block(cmd)
                    outer.send_signal(signal.SIGKILL)
            else:
                await self.block(cmd)
        elif style == "withread":
            cmd = cmd.stdout(sh.CAPTURE)
            async with cmd as run:
                self.runner = run
                data = await self.read(run)
            self.text = data.decode()
            run.result()
        elif style == "iter":
            out = []
            async for line in cmd:
                out.append(line)
            self.text = "".join(out)
        elif style == "prompt":
            async with cmd.prompt() as cli:
                self.text = await cli.read_all()
            if cli.result.exit_code:
                raise sh_error(cli.result)

    async def read(self, run):
        try:
            return await run.stdout.read()
        except OSError:
            return b""

    async def _aw(self, cmd):
        return await cmd

    async def block(self, cmd):
        self.in_block = asyncio.Event()
        pty = self.case["form"] in ("pty", "ptyraw")
        async with cmd as run:
            self.runner = run
            if pty or self.case["react"] == "flood":
                if run.stdout:
                    await self.read(run)
            await self.in_block.wait()
        res = run.result()
        self.text = res.output


def sh_error(result):
    from shellous import ResultError

    return ResultError(result)


async def run(case, m):
    if case["mode"] == "real":
        return await real(case, m)
    loop = asyncio.get_running_loop()
    w = Warp(loop)
    rng = random.Random(case["seed"])
    try:
        for i in range(case["runs"]):
            tmp = m.tmp / f"r{i}"
            tmp.mkdir()
            await one(case, m, rng, tmp, w, i)
            if m.violations:
                return
    finally:
        w.close()


def holders(case):
    "Some other process still holds the output of the run."
    live = 0
    for pid in proc_children():
        with contextlib.suppress(OSError):
            live += open(f"/proc/{pid}/stat").read().rsplit(") ", 1)[1][0] not in "ZX"
    return live > (case["style"] == "nested")


async def cancelled_before(n):
    "Catch n requests to cancel this task."
    for _ in range(n):
        asyncio.current_task().cancel()
        try:
            await asyncio.sleep(0)
        except asyncio.CancelledError:
            pass


async def outcome_of(r, wrap=None):
    try:
        if wrap is not None:
            async with asyncio.timeout(wrap):
                v = await r.go()
        else:
            v = await r.go()
        return ("value", v)
    except BaseException as ex:  # noqa
        return ("raise", type(ex).__name__, ex)


async def one(case, m, rng, tmp, w, i):
    mode = case["mode"]
    tight = mode in ("alive", "cancel", "outer") and rng.random() < 0.25
    life = "forever" if mode in ("alive", "cancel", "outer") else "flag"
    r = Run_(case, rng, tmp, rng.choice([0, 1e-9]) if tight else T, life)
    up = tmp / "up"
    tag = None
    st = {"jump": None, "cancelled": 0, "ended": False, "rc_at": None, "reaped_it": None, "touched": False}
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30])
    d_ms = rng.choice([0, 0.0005, 0.001, 0.0015, 0.002, 0.004])
    c = rng.choice([-5, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 12])
    main = {}
    # (the run may be part of the cleanup after requests to cancel the task that it has caught)
    pre = rng.choice([0, 0, 0, 1, 2])

    def do_jump():
        if st["ended"]:
            return
        if st["jump"] is None:
            st["jump"] = w.it
            st["rc_jump"] = r.rec.runner.returncode if r.rec.runner else None
        if not tight:
            w.jump()

    def do_cancel():
        if not st["ended"]:
            st["cancelled"] += 1
            main["task"].cancel()

    state = {"phase": "launch", "t": 0.0}

    def each():
        "Drives the run from outside, once per loop iteration."
        ph = state["phase"]
        run_ = r.rec.runner
        if st["ended"]:
            return
        if ph == "launch":
            # The process is up (and, for the handlers, has installed them).
            if run_ is not None and run_.pid is not None and (up.exists() or (mode == "alive" and rng.random() < 0.3)):
                state["phase"] = "up"
                state["it"] = w.it
        elif ph == "up":
            if mode in ("alive", "cancel", "outer"):
                if w.it >= state["it"] + n:
                    state["phase"] = "fire"
                    state["it"] = w.it
                    if mode == "cancel":
                        if c < 0:
                            do_cancel()
                            w.at(-c, do_jump)
                        else:
                            do_jump()
                            w.at(c, do_cancel)
                    else:
                        do_jump()
            elif w.it >= state["it"] + n:
                r.flag.touch()
                state["phase"] = "touched"
                state["t"] = time.monotonic()
        elif ph == "fire":
            # Armed too late for the first jump?
            if mode != "cancel" and w.it >= state["it"] + 40 and not r.rec.signals():
                state["it"] = w.it
                do_jump()
        elif ph == "touched":
            if mode == "race":
                if time.monotonic() - state["t"] >= d_ms:
                    state["phase"] = "done"
                    do_jump()
            elif run_.returncode is not None and not (r.drain and holders(case)):
                state["phase"] = "exited"
                state["it"] = w.it
                st["seen_exit"] = w.it
        elif ph == "exited":
            if w.it >= state["it"] + (20 if r.drain else 6) + n:
                state["phase"] = "done"
                do_jump()
                state["it"] = w.it
        elif ph == "done":
            if r.in_block is not None and w.it >= state["it"] + 12:
                r.in_block.set()

    async def wrapper():
        main["task"] = asyncio.current_task()
        await cancelled_before(pre)
        w.each = each
        t0 = w.otime()
        o = await outcome_of(r, T if mode == "outer" and not tight else None)
        st["ended"] = True
        st["cancelling"] = asyncio.current_task().cancelling()
        runner = r.rec.runner
        st["returncode"] = runner.returncode if runner else None
        st["alive"] = runner is not None and runner.pid is not None and os.path.exists(f"/proc/{runner.pid}") and open(f"/proc/{runner.pid}/stat").read().rsplit(") ", 1)[1][0] not in "ZX"
        if not st["cancelled"]:
            # Nothing may hit this task afterwards.
            try:
                for k in range(12):
                    if k == 3:
                        w.jump()
                    await asyncio.sleep(0)
                await asyncio.sleep(0.002)
            except asyncio.CancelledError:
                st["stray"] = True
        return o

    task = asyncio.get_running_loop().create_task(wrapper())
    try:
        o = await task
    except asyncio.CancelledError:
        if st["ended"]:
            m.viol("stray-cancel-at-end", f"{case}")
            return
        raise
    finally:
        w.each = None
    m.event("runs")
    kind, what = o[0], o[1]
    sigs = r.rec.signals()
    tag = f"{mode} {case['style']}/{case['form']}/{case['react']} n={n} tight={tight} c={c if mode == 'cancel' else ''} d={d_ms if mode == 'race' else ''} drain={r.drain} pre={pre} signals={sigs} -> {what!r} rc={st['returncode']} {o[2] if kind == 'raise' else ''!r}"
    m.event("outcome_" + (what if kind == "raise" else "value"))
    m.sig(mode, case["style"], case["form"], case["react"], n, tight, c if mode == "cancel" else "", d_ms if mode == "race" else "", r.drain, what if kind == "raise" else "value", case["loop"])
    m.event("oracle_checks")
    if "stray" in st:
        m.viol("stray-cancel", f"{tag}: the caller was cancelled after the run had ended")
    m.check(not st["alive"], "alive-at-end", f"{tag}: process still running")
    normal = {0: "value", 5: "value" if case["style"] in ("result", "iter") else "ResultError"}[r.code]
    got = "value" if kind == "value" else what
    first = "SIGKILL" if SIGS[case["react"]] is None else SIGS[case["react"]].name
    if mode in ("alive", "outer"):
        m.check(got == "TimeoutError", "no-timeout", f"{tag}: the process was running at expiry")
        m.check(sigs[:1] == [first], "not-terminated-by-protocol", f"{tag}: expected {first} first")
        check_exit(case, m, st, sigs, tag)
        m.eq(st["cancelling"], pre, "left-cancelling", tag)
    elif mode == "cancel":
        if st["cancelled"]:
            m.event("cancelled_too")
            m.check(got == "CancelledError", "cancel-lost", f"{tag}: the caller was cancelled")
            m.eq(st["cancelling"], pre + st["cancelled"], "cancel-count", tag)
        else:
            m.check(got == "TimeoutError", "no-timeout", tag)
            m.eq(st["cancelling"], pre, "left-cancelling", tag)
    elif mode == "after":
        m.check(got == normal, "timing:timeout-after-exit", f"{tag}: the process had exited ({st['returncode']}) before expiry; expected {normal}")
        if got != "BrokenPipeError":
            m.eq(sigs, [], "signalled-after-exit", tag)
        complete(case, r, m, o, tag)
        m.eq(st["cancelling"], pre, "left-cancelling", tag)
    else:
        if got == "TimeoutError":
            m.event("race_timeout")
            m.check(st["jump"] is not None, "timeout-without-expiry", tag)
        else:
            m.event("race_normal")
            m.check(got == normal, "wrong-outcome", f"{tag}: expected {normal}")
            complete(case, r, m, o, tag)
        m.eq(st["cancelling"], pre, "left-cancelling", tag)


def check_exit(case, m, st, sigs, tag):
    rc = st["returncode"]
    react = case["react"]
    # (a child that was not up yet dies of the signal)
    want = {"hang": {-15}, "trap": {7, -15}, "ign": {-9, -15}, "int": {-2}, "none": {-9}, "flood": {-15, -13, 90}}[react]
    if case["form"] in ("pty", "ptyraw"):
        want = want | {-1}
    m.check(rc in want, "exit-after-timeout", f"{tag}: exit status {rc}, expected one of {sorted(want)}")
    if rc == -9 and react == "ign":
        m.check("SIGKILL" in sigs, "not-terminated-by-protocol", tag)


def complete(case, r, m, o, tag):
    "The run behaved as without the option."
    want = (r.marker + r.tail).decode()
    if case["form"] in ("bytearray", "stringio"):
        got = r.sink.decode() if isinstance(r.sink, bytearray) else r.sink.getvalue()
        m.eq(got, want, "output-differs", tag)
        return
    text = r.text
    if o[0] == "raise" and o[1] == "ResultError" and case["style"] in ("await", "task"):
        text = o[2].result.output
        m.eq(o[2].result.cancelled, False, "marked-cancelled", tag)
    if case["form"] in ("pty", "ptyraw"):
        want = want.replace("\n", "\r\n") if case["form"] == "pty" else want
    if case["style"] in ("with", "nested"):
        return
    if text is not None or o[0] == "value":
        m.eq(text, want, "output-differs", tag)
    if case["style"] == "result":
        m.eq(o[1], r.code, "code-differs", tag)


async def real(case, m):
    "Real time: long gaps between the lifetime of the process and the timeout."
    rng = random.Random(case["seed"])
    for i in range(case["runs"]):
        tmp = m.tmp / f"r{i}"
        tmp.mkdir()
        rel = rng.choice(["longer", "longer", "shorter", "shorter", "zero-life"])
        if rel == "longer":
            t, life = rng.choice([0, 0.001, 0.01, 0.03, 0.08]), "forever"
        elif rel == "shorter":
            life = rng.choice([0, 5, 20])
            t = life / 1000 + rng.choice([0.4, 5.0])
        else:
            life, t = 0, rng.choice([1.0, 30.0])
        r = Run_(case, rng, tmp, t, life)
        if case["style"] in ("with", "nested"):
            asyncio.get_running_loop().call_later(0.02 if life == "forever" else 0.1 + life / 1000, lambda r=r: r.in_block and r.in_block.set())
        task = asyncio.current_task()
        t0 = time.monotonic()
        o = await outcome_of(r)
        dt = time.monotonic() - t0
        kind, what = o[0], o[1]
        got = "value" if kind == "value" else what
        sigs = r.rec.signals()
        st = {"returncode": r.rec.runner.returncode}
        tag = f"real {case['loop']} {case['style']}/{case['form']}/{case['react']} life={life} timeout={t} drain={r.drain} signals={sigs} dt={dt:.3f} -> {what!r} {o[2] if kind == 'raise' else ''!r}"
        m.event("real_runs")
        m.sig("real", case["loop"], case["style"], case["form"], case["react"], life, t, r.drain, got)
        m.eq(task.cancelling(), 0, "left-cancelling", tag)
        normal = {0: "value", 5: "value" if case["style"] in ("result", "iter") else "ResultError"}[r.code]
        first = "SIGKILL" if SIGS[case["react"]] is None else SIGS[case["react"]].name
        if life == "forever":
            m.check(got == "TimeoutError", "no-timeout", tag)
            m.check(sigs[:1] == [first], "not-terminated-by-protocol", f"{tag}: expected {first} first")
            check_exit(case, m, st, sigs, tag)
            m.check(dt >= t - 0.005, "timeout-early", tag)
            m.check(dt <= t + 8, "timing:timeout-late", tag)
        else:
            m.check(got == normal, "timing:timeout-after-exit", f"{tag}: expected {normal}")
            if got == normal:
                complete(case, r, m, o, tag)
        try:
            await asyncio.sleep(min(t, 0.1) if life != "forever" else 0.01)
        except asyncio.CancelledError:
            m.viol("stray-cancel", tag)
        if m.violations:
            return
