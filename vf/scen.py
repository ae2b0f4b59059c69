"""Scenarios: a random command shape plus a fault, run once under observation.

`Spec` dictionaries are JSON-able.  `Scenario(spec, tmp)` builds the command and the
resources it is given; `observe()` runs it in a task of its own with the requested
fault and returns an `Obs` with everything the monitors of P07..P12/P24 look at.
"""
import builtins
import contextlib
import resource
import socket
import types

import shellous
from shellous import Result, ResultError, cooked, raw

from .lib import *

STYLES = ["await", "result", "with", "withcap", "iter", "prompt"]
SHAPES = ["cmd", "pipe", "psr", "psw", "pspipe", "pty", "ptypipe", "pspipew", "pipeps"]
RUNNING = ("hang", "ign", "trap", "flood", "flooderr", "log")  # never exit by themselves


LINES = (b"x" * 69 + b"\n") * 3000


class Boom(Exception):
    "Raised by the body of a block."


def gen_spec(rng, behaves, fails=False, styles=STYLES, shapes=SHAPES, loops=True):
    shape = rng.choice(shapes + ["cmd", "pipe"] if len(shapes) > 2 else shapes)
    n = rng.choice([2, 2, 3, 4]) if "pipe" in (shape, shape[:4]) or shape == "ptypipe" else 1
    spec = {
        "shape": shape,
        "n": n,
        "pos": rng.randrange(n),
        "style": rng.choice(styles),
        "behave": rng.choice(behaves),
        "out": rng.choice([0, 5, 4096, 70000]),
        "err": rng.choice([0, 0, 7, 2000]),
        "in": rng.choice(["none", "none", "bytes", "big", "path", "fd", "fdc", "file", "filec", "bytesio"]),
        "so": rng.choice(["buf", "buf", "buf", "path", "fd", "fdc", "file", "filec", "bytesio", "devnull", "stderr"]),
        "se": rng.choice(["buf", "buf", "path", "fdc", "devnull", "stdout"]),
        "pass": rng.choice(["", "", "", "pass", "passc"]),
        "body": rng.choice(["read", "read", "none", "raise", "cancelrun", "early", "readraise"]),
        "ct": rng.choice([0.2, 3.0]),
        "sig": rng.choice([15, 15, 15, 2, None]),
        "loop": pick_loop(rng, 0.55, ("debug", "eager", "uvloop", "threaded", "shw")) if loops else "default",
    }
    if rng.random() < 0.2:
        # The run is part of the cleanup after requests to cancel the task that it has caught.
        spec["pre"] = rng.choice([1, 2])
    if shape in ("pty", "ptypipe"):
        if spec["loop"] == "uvloop":
            spec["loop"] = "default"
        spec["in"] = rng.choice(["none", "none", "bytes", "big"])
        spec["so"] = "buf"
        spec["se"] = rng.choice(["buf", "path", "fdc"])
    if spec["style"] in ("prompt", "withcap") and spec["body"] == "early" and (spec["out"] > 5000 or shape in ("psr", "pspipe", "pipeps")):
        # more than 128 KiB of unread output keeps the process from being seen to exit
        spec["body"] = "read"
    if fails and rng.random() < 0.8:
        kinds = ["nocmd", "nocmd", "noexec", "isdir", "badin", "badout", "badtype", "baderr", "encode"]
        if shape in ("cmd", "pipe"):
            kinds += ["ptyboom", "ptyboom"]
        if shape == "pty":
            kinds += ["ptyboom", "ptyboom"]
        if shape in ("psr", "psw", "pspipe", "pspipew", "pipeps"):
            kinds += ["subnocmd", "subnocmd", "subbadout"]
        spec["fail"] = {"kind": rng.choice(kinds), "pos": rng.randrange(n), "exc": rng.choice(["Boom", "RuntimeError", "AssertionError", "OSError", "KeyError"])}
    return spec


class Scenario:
    def __init__(self, spec, tmp, audit=None):
        self.spec = spec
        self.tmp = Path(tmp)
        self.owned = {}  # fd -> (dev, ino)
        self.given = {}  # fd -> (dev, ino)
        self.files = []  # python file objects to keep alive
        self.siglog = str(self.tmp / "sig.log")
        self.sinks = {}
        self.audit = audit
        self.expect_exc = None  # exception type name(s) a failed launch must raise
        self.cmd = self._build()

    # --- resources ---

    def _file(self, name, data=b"", mode=os.O_RDWR | os.O_CREAT):
        path = self.tmp / f"{name}-{len(self.owned) + len(self.given) + len(self.files)}"
        path.write_bytes(data)
        return path

    def _fd(self, name, data=b"", given=False, flags=os.O_RDWR):
        fd = os.open(self._file(name, data), flags | os.O_CLOEXEC)
        st = os.fstat(fd)
        (self.given if given else self.owned)[fd] = (st.st_dev, st.st_ino)
        return fd

    def _fobj(self, name, data=b"", mode="rb+", given=False):
        f = open(self._file(name, data), mode)
        st = os.fstat(f.fileno())
        (self.given if given else self.owned)[f.fileno()] = (st.st_dev, st.st_ino)
        self.files.append(f)
        return f

    # --- command ---

    def _actor_ops(self):
        s = self.spec
        b = s["behave"]
        pty = s["shape"] in ("pty", "ptypipe")
        n, e = s["out"], s["err"]
        w = [f"outx:{'61' * min(n, 900)}"] if pty else [f"out:{n}:1"]
        w += [f"err:{e}:2"] if e and not (pty and s["se"] == "buf") else []
        pre = [] if (s["in"] == "none" and pty) else ["sink"]
        if b == "ok":
            return pre + w
        if b == "fail":
            return pre + w + ["exit:3"]
        if b == "hang":
            return w + ["pause"]
        if b == "ign":
            return ["ign:15", "ign:2", "ign:1"] + w + ["pause"]
        if b == "trap":
            return ["trap:15:7", "trap:2:8"] + w + ["pause"]
        if b == "log":
            return [f"siglog:15:{self.siglog}", f"siglog:2:{self.siglog}", f"siglog:1:{self.siglog}"] + w + ["pause"]
        if b == "die":
            return pre + w + ["kill:9"]
        if b == "flood":
            return ["out:2000000000:1"]
        if b == "flooderr":
            return ["err:2000000000:1"]
        if b == "slow":
            return pre + w + ["sleep:30"]
        if b == "noread":
            return w
        raise ValueError(b)

    def _build(self):
        s = self.spec
        shape, n, pos = s["shape"], s["n"], s["pos"]
        fail = s.get("fail") or {}
        opts = {"cancel_timeout": s.get("ct", 3.0), "encoding": "latin-1"}
        if s.get("sig", 15) != 15:
            opts["cancel_signal"] = s["sig"]
        if self.audit is not None:
            opts["audit_callback"] = self.audit
        ctx = sh.set(**opts)
        vp = vpath()

        def prog(i):
            if fail.get("pos") == i:
                kind = fail["kind"]
                if kind == "nocmd":
                    self.expect_exc = "FileNotFoundError"
                    return "vf-no-such-program"
                if kind == "noexec":
                    self.expect_exc = "PermissionError"
                    return self._file("noexec", b"#!/bin/false\n")
                if kind == "isdir":
                    self.expect_exc = "PermissionError"
                    return self.tmp
            return vp

        cmds = []
        for i in range(n):
            ops = self._actor_ops() if i == pos else ["cat"]
            cmds.append(ctx(prog(i), *ops))

        # process substitution
        if shape in ("psr", "psw", "pspipe", "pspipew", "pipeps"):
            target = cmds[-1] if shape == "pipeps" else cmds[0]
            p2 = "vf-no-such-program" if fail.get("kind") == "subnocmd" else vp
            if fail.get("kind") == "subnocmd":
                self.expect_exc = "FileNotFoundError"
            sub1 = ctx(vp, "out:3000:4")
            if shape == "psr":
                subs = [sub1, ctx(p2, "out:70000:5")]
            elif shape == "psw":
                self.sinks["psw"] = bytearray()
                subs = [ctx(p2, "cat").writable | self.sinks["psw"]]
            elif shape in ("pspipe", "pipeps"):
                subs = [ctx(vp, "out:9000:6") | ctx(p2, "cat")]
            else:
                self.sinks["psw"] = bytearray()
                subs = [(ctx(p2, "cat") | ctx(vp, "cat") | self.sinks["psw"]).writable]
            if fail.get("kind") == "subbadout":
                self.expect_exc = "FileNotFoundError"
                bad = self.tmp / "nodir" / "x"
                subs[0] = subs[0].stderr(bad) if not isinstance(subs[0], shellous.Pipeline) else subs[0].stderr(bad)
            mode = "pmode:write:5000:3" if shape in ("psw", "pspipew") else "pmode:cat"
            # substitutions first, then what the actor does
            args = target.args
            target2 = ctx(args[0], mode, *subs, *args[1:])
            cmds[-1 if shape == "pipeps" else 0] = target2

        if shape == "pty":
            cmds[0] = cmds[0].set(pty=raw() if s["in"] == "none" else cooked(echo=False))
        if fail.get("kind") == "ptyboom":
            # an exception of the caller's own pty adapter
            self.expect_exc = fail.get("exc", "Boom")
            p = 0 if shape == "pty" else fail["pos"]
            cmds[p] = cmds[p].set(pty=self._boom)
        if shape == "ptypipe":
            cmds[-1] = cmds[-1].set(pty=raw())

        if s.get("pass"):
            fds = [self._fd("pass", given=s["pass"] == "passc") for _ in range(2)]
            cmds[pos] = cmds[pos].set(pass_fds=fds, pass_fds_close=s["pass"] == "passc")

        if s.get("timeout") is not None:
            cmds[s.get("tpos", -1)] = cmds[s.get("tpos", -1)].set(timeout=s["timeout"])

        cmd = cmds[0]
        for c in cmds[1:]:
            cmd = cmd | c

        # redirections
        kind = s["in"]
        data = {"bytes": b"abc\n" * 20, "big": LINES if "pty" in shape else pat(200000, 9)}.get(kind, b"file data\n" * 50)
        fk = fail.get("kind")
        if s["style"] == "prompt":
            pass
        elif fk == "badin":
            self.expect_exc = "FileNotFoundError"
            cmd = cmd.stdin(self.tmp / "missing")
        elif fk == "encode":
            self.expect_exc = "UnicodeEncodeError"
            cmd = cmd.stdin("\u20ac")
            if n == 1:
                cmd = cmd.set(encoding="ascii")
            else:
                first = cmd.commands[0].set(encoding="ascii")
                rest = first
                for c in cmd.commands[1:]:
                    rest = rest | c
                cmd = rest
        elif kind in ("bytes", "big"):
            cmd = cmd.stdin(data)
        elif kind == "path":
            cmd = cmd.stdin(self._file("in", data))
        elif kind == "fd":
            cmd = cmd.stdin(self._fd("in", data))
        elif kind == "fdc":
            cmd = cmd.stdin(self._fd("in", data, given=True), close=True)
        elif kind == "file":
            cmd = cmd.stdin(self._fobj("in", data, "rb"))
        elif kind == "filec":
            cmd = cmd.stdin(self._fobj("in", data, "rb", given=True), close=True)
        elif kind == "bytesio":
            cmd = cmd.stdin(io.BytesIO(data))

        so = s["so"]
        capstyle = s["style"] in ("withcap", "prompt")
        if fk == "badtype":
            self.expect_exc = "TypeError"
            cmd = cmd.stderr(3.25)
        if fk == "baderr":
            self.expect_exc = "FileNotFoundError"
            cmd = cmd.stderr(self.tmp / "nodir" / "err")
        if fk == "badout" and not capstyle:
            self.expect_exc = "FileNotFoundError"
            cmd = cmd.stdout(self.tmp / "nodir" / "out")
        elif s["style"] == "withcap":
            cmd = cmd.stdout(sh.CAPTURE)
        elif s["style"] in ("prompt", "iter"):
            pass
        elif so == "path":
            cmd = cmd.stdout(self._file("out"))
        elif so == "fd":
            cmd = cmd.stdout(self._fd("out"))
        elif so == "fdc":
            cmd = cmd.stdout(self._fd("out", given=True), close=True)
        elif so == "file":
            cmd = cmd.stdout(self._fobj("out"))
        elif so == "filec":
            cmd = cmd.stdout(self._fobj("out", given=True), close=True)
        elif so == "bytesio":
            self.sinks["so"] = io.BytesIO()
            cmd = cmd.stdout(self.sinks["so"])
        elif so == "devnull":
            cmd = cmd.stdout(sh.DEVNULL)
        elif so == "stderr" and fk not in ("badtype", "baderr"):
            cmd = cmd.stdout(sh.DEVNULL).stderr(sh.STDOUT)

        se = s["se"]
        if so == "stderr" and not capstyle and s["style"] != "iter":
            pass
        elif fk in ("badtype", "baderr"):
            pass
        elif se == "path":
            cmd = cmd.stderr(self._file("err"))
        elif se == "fdc":
            cmd = cmd.stderr(self._fd("err", given=True), close=True)
        elif se == "devnull":
            cmd = cmd.stderr(sh.DEVNULL)
        elif se == "stdout":
            cmd = cmd.stderr(sh.STDOUT)
        return cmd

    def _boom(self, fd):
        name = self.spec["fail"].get("exc", "Boom")
        raise Boom("pty") if name == "Boom" else getattr(builtins, name)("pty")

    async def go_dummy(self):
        return None

    # --- running ---

    async def go(self):
        "Run in the requested style; returns a normalised value."
        s = self.spec
        cmd = self.cmd
        style, body = s["style"], s["body"]
        self.entered, self.run = False, None
        if style == "await":
            return ("out", await cmd)
        if style == "result":
            r = await cmd.result
            return ("res", r.exit_code, r.output_bytes, r.cancelled)
        if style in ("with", "withcap"):
            async with cmd as run:
                self.run = run
                self.entered = True
                data = None
                stream = run.stdout
                if body == "raise":
                    raise Boom(body)
                if body in ("read", "readraise") and stream is not None:
                    if s["behave"] in ("flood",):
                        data = await stream.read(100000)
                    elif s["behave"] in RUNNING:
                        data = await stream.read(1)
                    else:
                        data = await stream.read()
                    if body == "readraise":
                        raise Boom(body)
                if body == "early":
                    await asyncio.sleep(0)
                    return ("early",)
                if body == "cancelrun" and hasattr(run, "cancel"):
                    run.cancel()
                if run.stdin is not None:
                    run.stdin.close()
                if style == "withcap" and stream is not None and body != "read":
                    # leave no unread output behind, as the documentation requires
                    if s["behave"] not in RUNNING or body == "cancelrun":
                        while await stream.read(65536):
                            pass
            r = run.result(check=False)
            return ("res", r.exit_code, r.output_bytes, r.cancelled, data if s["behave"] not in RUNNING else None)
        if style == "iter":
            lines = []
            agen = cmd.__aiter__()
            try:
                async for line in agen:
                    self.entered = True
                    lines.append(line)
                    if body == "raise":
                        raise Boom(body)
                    if body == "early":
                        break
            finally:
                await agen.aclose()
            return ("lines", "".join(lines).encode("latin-1") if body not in ("early",) else None)
        if style == "prompt":
            async with cmd.prompt() as cli:
                self.entered = True
                if body == "raise":
                    raise Boom(body)
                if body == "early":
                    return ("early",)
                if s["behave"] in RUNNING:
                    data = None
                    await cli.expect(re.compile("."), timeout=None)
                else:
                    cli.close()
                    data = await cli.read_all()
            return ("prompt", data and len(data))


import re  # noqa: E402


# --------------------------------------------------------------------------
# Faults


@types.coroutine
def _stepped(coro, on_suspend):
    "Drive `coro`, calling on_suspend(k) each time it is about to suspend."
    k = 0
    value = None
    exc = None
    while True:
        try:
            if exc is not None:
                e, exc = exc, None
                y = coro.throw(e)
            else:
                y = coro.send(value)
        except StopIteration as stop:
            return stop.value
        k += 1
        on_suspend(k)
        try:
            value = yield y
        except BaseException as e:  # noqa
            exc = e
            value = None


def after_iterations(loop, n, func):
    "Call func after n loop iterations."
    if n <= 0:
        func()
        return

    def tick():
        nonlocal n
        n -= 1
        if n <= 0:
            func()
        else:
            loop.call_soon(tick)

    loop.call_soon(tick)


class CloseWatch:
    "Counts os.close and records closes of descriptors that are not open."

    def __enter__(self):
        self.bad = []
        self.calls = 0
        self.orig = os.close

        def close(fd):
            self.calls += 1
            try:
                return self.orig(fd)
            except OSError as ex:
                import traceback

                self.bad.append((fd, ex.errno, "".join(traceback.format_stack(limit=7)[:-1])[-900:]))
                raise

        self.fake = close
        os.close = close
        return self

    def __exit__(self, *a):
        os.close = self.orig


class Inject:
    """Make the n-th call of one resource allocating function fail.

    kinds: pipe, open, openpty, fork, socketpair
    """

    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        self.count = 0
        self.fired = False

    def _wrap(self, orig, err):
        def fake(*a, **k):
            if self.kind == "open":
                # only files of the scenario (not imports, /proc, ...)
                if not (a and str(a[0]).startswith(os.environ["VF_SCRATCH"])):
                    return orig(*a, **k)
            self.count += 1
            if self.count == self.n:
                self.fired = True
                raise OSError(err, os.strerror(err))
            return orig(*a, **k)

        return fake

    def __enter__(self):
        import _posixsubprocess
        import subprocess
        import errno

        self.undo = []

        def patch(mod, name, err):
            orig = getattr(mod, name)
            setattr(mod, name, self._wrap(orig, err))
            self.undo.append((mod, name, orig))

        if self.kind == "pipe":
            patch(os, "pipe", errno.EMFILE)
        elif self.kind == "open":
            patch(builtins, "open", errno.ENFILE)
        elif self.kind == "openpty":
            import pty

            patch(pty, "openpty", errno.ENOSPC)
        elif self.kind == "fork":
            patch(subprocess, "_fork_exec", errno.EAGAIN)
        elif self.kind == "socketpair":
            patch(socket, "socketpair", errno.EMFILE)
        return self

    def __exit__(self, *a):
        for mod, name, orig in self.undo:
            setattr(mod, name, orig)


class RLimit:
    "Allow only `extra` more descriptors."

    def __init__(self, extra):
        self.extra = extra
        self.fired = None

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_NOFILE)
        # descriptors are allocated lowest first, so fill the holes below the top
        top = max(fd_table())
        self.fill = []
        while True:
            fd = os.open("/dev/null", os.O_RDONLY | os.O_CLOEXEC)
            if fd > top:
                os.close(fd)
                break
            self.fill.append(fd)
        resource.setrlimit(resource.RLIMIT_NOFILE, (top + 1 + self.extra, self.old[1]))
        return self

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_NOFILE, self.old)
        for fd in self.fill:
            os.close(fd)


# --------------------------------------------------------------------------
# Observation


async def warm_up():
    "Let the loop and the child watcher create what they keep for good."
    await sh(vpath(), "outx:61")
    gc.collect()
    await asyncio.sleep(0.02)


class AuditRec:
    "An audit callback that records what it is told, per runner."

    def __init__(self):
        self.events = []  # (t, runner index, phase, failure, signal, pid, returncode, alive)
        self.runners = []

    def __call__(self, phase, info):
        run = info["runner"]
        for i, r in enumerate(self.runners):
            if r is run:
                break
        else:
            i = len(self.runners)
            self.runners.append(run)
        pid = run.pid
        alive = _pstat(pid) if pid is not None else None
        self.events.append((time.monotonic(), i, phase, info["failure"], info["signal"], pid, run.returncode, alive))

    def per_runner(self):
        out = {}
        for ev in self.events:
            out.setdefault(ev[1], []).append(ev)
        return out


class Obs:
    "Everything seen during one run."

    outcome = None  # ("value", v) | ("raise", typename, exc)
    cancels = 0


async def observe(spec, tmp, fault=None, audit=None, collect=("fd", "task"), linger=0):
    """Run the scenario once; fault is a dict:

    {"cancel": [j, d], "cancel2": [j2|None, d2]}  cancel at the j-th suspension of
        the calling task, d loop iterations later (d in ms when negative)
    {"inject": [kind, n]}, {"rlimit": extra}
    """
    fault = fault or {}
    loop = asyncio.get_running_loop()
    o = Obs()
    o.warns = []
    o.loop_errors = []
    o.unraisable = []
    old_handler = loop.get_exception_handler()
    loop.set_exception_handler(lambda lp, ctx: o.loop_errors.append(_ctx(ctx)))
    old_show = warnings.showwarning
    old_unr = sys.unraisablehook
    sys.unraisablehook = lambda u: o.unraisable.append(f"{u.exc_type.__name__}: {u.exc_value} in {u.object!r}"[:300])
    before_tasks = set(asyncio.all_tasks())
    with warnings.catch_warnings():
        warnings.simplefilter("always")
        warnings.simplefilter("ignore", DeprecationWarning)
        warnings.showwarning = lambda msg, cat, *a, **k: o.warns.append(f"{cat.__name__}: {msg}"[:300])
        fds_base = fd_table()
        timers_base = _timers(loop)
        kids_base = set(proc_children())
        sc = Scenario(spec, tmp, audit)
        o.sc = sc
        fds0 = fd_table()
        o.suspensions = 0
        o.cancel_sent = []
        o.t_cancels = []
        o.task = None
        o.over = o.stray_cancel = False

        def do_cancel(tag):
            if o.task is not None and not o.task.done() and not o.over:
                o.task.cancel()
                o.cancel_sent.append(tag)
                o.t_cancels.append(time.monotonic())

        cs = [(fault.get(f"cancel{i}"), i or 1) for i in ("", 2, 3)]

        o.children_seen = 0

        def on_suspend(k):
            o.suspensions = k
            if "kids" in collect and "rlimit" not in fault:
                o.children_seen = max(o.children_seen, len(set(proc_children()) - kids_base))
            if o.task is None:  # eager first step
                o.task = asyncio.current_task()
            for c, tag in cs:
                if c and c[0] == k:
                    if c[1] < 0:
                        loop.call_later(-c[1] / 1000, do_cancel, tag)
                    else:
                        loop.call_soon(after_iterations, loop, c[1], lambda tag=tag: do_cancel(tag))

        def at_end():
            "What is left at the very moment the run hands control back to its caller."
            me = asyncio.current_task()
            if "rlimit" in fault:
                resource.setrlimit(resource.RLIMIT_NOFILE, nofile)
            o.kids_at_end = sorted((p, _pstat(p)) for p in set(proc_children()) - kids_base)
            # (the interpreter closes abandoned async generators in one-step tasks of its own)
            o.tasks_at_end = [
                repr(t)[:300]
                for t in asyncio.all_tasks()
                if not t.done() and t is not me and t not in before_tasks and "async_generator_athrow" not in repr(t)
            ]

        async def target():
            for _ in range(spec.get("pre", 0)):
                asyncio.current_task().cancel()
                with contextlib.suppress(asyncio.CancelledError):
                    await asyncio.sleep(0)
            try:
                return await _stepped(sc.go(), on_suspend)
            finally:
                at_end()
                o.audits_at_end = len(audit.events) if audit is not None else None
                o.over = True
                o.cancelling = asyncio.current_task().cancelling()
                if linger:
                    # A task that is cancelled now is cancelled by the finished run.
                    try:
                        await asyncio.sleep(linger)
                    except asyncio.CancelledError:
                        o.stray_cancel = True

        nofile = resource.getrlimit(resource.RLIMIT_NOFILE)
        stack = contextlib.ExitStack()
        watch = stack.enter_context(CloseWatch())
        inj = None
        if "inject" in fault:
            inj = stack.enter_context(Inject(*fault["inject"]))
        if "rlimit" in fault:
            stack.enter_context(RLimit(fault["rlimit"]))
        t0 = time.monotonic()
        try:
            coro = target()
            o.task = loop.create_task(coro)

            if "fallback" in fault:
                fb = loop.call_later(fault["fallback"] / 1000, do_cancel, "fb")
                stack.callback(fb.cancel)
                if fault["fallback"] > 1000:
                    # No failure is to be expected once every part has been launched.
                    total = _count_parts(sc.cmd)
                    launched = stack.enter_context(Launches())
                    tick = None

                    def healthy():
                        nonlocal tick
                        if launched.count >= total and not (inj and inj.fired):
                            do_cancel("healthy")
                        else:
                            tick = loop.call_later(0.1, healthy)

                    tick = loop.call_later(0.15, healthy)
                    stack.callback(lambda: tick.cancel())
            try:
                value = await asyncio.shield(o.task)
                o.outcome = ("value", value)
            except asyncio.CancelledError:
                if not o.task.done():
                    raise
                o.outcome = ("raise", "CancelledError", None)
            except BaseException as ex:  # noqa
                o.outcome = ("raise", type(ex).__name__, ex)
            o.elapsed = time.monotonic() - t0
        finally:
            stack.close()
        o.fired = inj.fired if inj else None
        o.closes = watch.calls
        o.bad_close = watch.bad

        # descriptors
        def fd_state():
            now = fd_table()
            want = {k: v for k, v in fds0.items() if k not in sc.given}
            leaked = {k: v for k, v in now.items() if k not in want and k not in sc.given}
            lost = {k: v for k, v in want.items() if now.get(k) != v}
            unclosed = []
            for fd, ident in sc.given.items():
                with contextlib.suppress(OSError):
                    st = os.fstat(fd)
                    if (st.st_dev, st.st_ino) == ident:
                        unclosed.append(fd)
            return leaked, lost, unclosed

        if "fd" in collect:
            await settle(lambda: not any(fd_state()), 2.0)
            o.leaked, o.lost, o.unclosed = fd_state()
        await settle(lambda: _timers(loop) <= timers_base, 0.0)
        o.timers = sorted(_timers(loop) - timers_base)
        exc = o.outcome[2] if o.outcome[0] == "raise" else None
        o.exc_text = repr(exc)[:300] if exc is not None else None
        if "task" in collect:
            # Drop every reference so that leaked objects complain now.
            if exc is not None:
                o.outcome = ("raise", o.outcome[1], None)
            exc = None
            o.task = None
            coro = None
            gc.collect()
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            gc.collect()
        loop.set_exception_handler(old_handler)
        warnings.showwarning = old_show
        sys.unraisablehook = old_unr
        o.siglog = None
        if "siglog" in collect and os.path.exists(sc.siglog):
            o.siglog = [int(x.split()[2]) for x in Path(sc.siglog).read_text().splitlines()]
        # close what the scenario owns
        for f in sc.files:
            with contextlib.suppress(OSError):
                f.close()
        for fd in [*sc.owned, *(o.unclosed if "fd" in collect else ())]:
            with contextlib.suppress(OSError):
                os.close(fd)
        for fd in getattr(o, "leaked", {}):
            pass  # left alone: closing a descriptor someone still holds would be worse
    return o


class Launches:
    "Counts the processes that were launched."

    def __enter__(self):
        self.count = 0
        self.orig = orig = asyncio.create_subprocess_exec

        async def create(*a, **k):
            proc = await orig(*a, **k)
            self.count += 1
            return proc

        asyncio.create_subprocess_exec = create
        return self

    def __exit__(self, *a):
        asyncio.create_subprocess_exec = self.orig


def _count_parts(cmd):
    if isinstance(cmd, shellous.Pipeline):
        return sum(_count_parts(c) for c in cmd.commands)
    if isinstance(cmd, shellous.Command):
        return 1 + sum(_count_parts(a) for a in cmd.args)
    return 0


def _ctx(ctx):
    return f"{ctx.get('message')} exc={ctx.get('exception')!r}"[:400]


def _timers(loop):
    "Pending timer handles (asyncio loops only)."
    out = set()
    for h in getattr(loop, "_scheduled", ()):
        if not h.cancelled():
            cb = getattr(h._callback, "__qualname__", repr(h._callback))
            out.add(f"{cb}@{round(h._when, 3)}")
    return out


def _pstat(pid):
    "State and command line of a child."
    try:
        state = Path(f"/proc/{pid}/stat").read_text().rsplit(")", 1)[1].split()[0]
        cmd = Path(f"/proc/{pid}/cmdline").read_bytes().replace(b"\0", b" ").decode("utf-8", "replace")[:80]
        return f"{state} {cmd}"
    except OSError:
        return "gone"
