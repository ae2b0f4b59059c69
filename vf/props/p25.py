"P25: tracing and auditing never change behaviour."
import logging
import re
import select
import signal
import subprocess
import threading

from ..core import KEEP_PIDS, PY, REPO, VERIF, loop_env, reap_all
from ..lib import *

PROP = "P25"
LEVEL = "exploration"
BUDGET = {"quick": 24, "thorough": 300}
TECHNIQUE = "runtime monitoring: differential observation of one program executed by separate interpreters under different trace, logging and audit settings; log records searched for secrets"
RULE = (
    "a case is (program: kind, redirections, options, failures; variant settings: SHELLOUS_TRACE, log level and handlers, audit callback; loop); "
    "distinct = (program kind and its choices, variant); non-trivial when at least one variant was compared with the plain run"
)
TRACES = ["detail", "prompt", "all", "detail,prompt", " ALL ", "bogus"]
LEVELS = ["unset", "DEBUG", "INFO", "WARNING", "CRITICAL"]
KINDS = ["cmd", "cmd", "cmd", "pipe", "pipe", "sub", "pty", "prompt", "prompt", "ptyprompt", "secret", "cancel", "cancel", "timeout", "body", "iterbreak", "harvest", "missing", "many", "lines", "pipeblock"]
SECRET = "S3cr3t-hünter2-xyzzy"


def gen(rng, tier):
    while True:
        kind = rng.choice(KINDS)
        loop = pick_loop(rng, 0.55, ("debug", "eager", "uvloop", "threaded", "shw", "thread", "uvpolicy"))
        if loop in ("uvloop", "uvpolicy") and kind in ("pty", "ptyprompt", "secret"):
            loop = "default"
        yield {
            "prog": {
                "kind": kind,
                "loop": loop,
                "seed": rng.randrange(1 << 30),
                "style": rng.choice(["await", "result", "with", "iter", "coro", "gather"]),
                "in": rng.choice(["none", "bytes", "str", "file", "stringio", "bytesio", "null"]),
                "out": rng.choice(["buffer", "bytearray", "stringio", "bytesio", "file", "append", "null", "logger"]),
                "err": rng.choice(["buffer", "stdout", "null", "file", "bytearray", "logger", "limit"]),
                "enc": rng.choice(["utf-8", "utf-8", "latin-1", "ascii", "utf-8 replace"]),
                "data": rng.choice([0, 5, 200, 3000, 70000]),
                "end": rng.choice(["ok", "ok", "exit", "kill", "allowed"]),
                "n": rng.choice([2, 3, 4]),
                "at": rng.randrange(4),
                "behave": rng.choice(["hang", "ign", "trap", "flood"]),
                "sig": rng.choice(["default", "default", "none", "int"]),
                "argodd": rng.random() < 0.25,
                "nest": rng.choice(["", "alt", "longname", "env"]),
                "exc": rng.choice(["boom", "boom", "badrepr", "group", "base", "cancelled", "timeout"]),
            },
            "variants": [
                {
                    "trace": rng.choice(TRACES + [""]),
                    "level": rng.choice(LEVELS),
                    "audit": rng.choice([False, True, "slow"]),
                    "handler": rng.choice(["list", "stream", "none"]),
                }
                for _ in range(3)
            ],
            "loop": "default",
            "wd": 90,
        }


# --------------------------------------------------------------------------
# The side that executes programs (its own interpreter for each trace setting)


class Boom(Exception):
    pass


class BadRepr(Exception):
    def __repr__(self):
        raise ValueError("no repr")

    __str__ = __repr__


class BaseBoom(BaseException):
    pass


class OddArg:
    "An argument whose repr cannot be shown."

    def __str__(self):
        return "touch:odd"

    def __repr__(self):
        raise ValueError("no repr")


def odd_coerce(arg):
    return "ign:1" if isinstance(arg, OddArg) else arg


class Ring(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []
        self.errors = 0

    def emit(self, record):
        try:
            self.lines.append(record.getMessage() + (logging.Formatter().formatException(record.exc_info) if record.exc_info else ""))
        except Exception as ex:
            if "no repr" in str(ex):  # an object of the program's own that cannot be shown
                return
            self.errors += 1
            self.lines.append(f"LOGGING-ERROR {ex!r} {record.msg!r}")


def describe(value, tmp):
    "Something comparable."
    from shellous import Result

    if isinstance(value, Result):
        return ["Result", value.exit_code, value.cancelled, value.output_bytes.hex()[:400], fnv_line(value.output_bytes).decode(), value.error_bytes.hex()[:200], value.encoding]
    if isinstance(value, BaseException):
        try:
            text = repr(value)
        except ValueError:
            text = "unprintable"
        out = [type(value).__name__]
        from shellous import ResultError

        if isinstance(value, ResultError):
            return out + [describe(value.result, tmp)]
        if isinstance(value, BaseExceptionGroup):
            return out + [describe(e, tmp) for e in value.exceptions]
        return out + [text.replace(str(tmp), "TMP")]
    if isinstance(value, (bytes, bytearray)):
        return fnv_line(bytes(value)).decode() + bytes(value[:60]).hex()
    if isinstance(value, (list, tuple)):
        return [describe(v, tmp) for v in value]
    if hasattr(value, "exit_code"):  # PipeResult
        return [type(value).__name__, value.exit_code, value.cancelled]
    if isinstance(value, str):
        return [len(value), value[:200].replace(str(tmp), "TMP"), fnv_line(value.encode("utf-8", "surrogateescape")).decode()]
    return repr(value)


class Prog:
    def __init__(self, p, tmp, audit):
        self.p = p
        self.tmp = tmp
        self.rng = random.Random(p["seed"])
        self.sinks = []
        self.phases = []
        self.extra = []
        self.logs = {}
        ctx = sh
        if audit:

            def callback(phase, info):
                self.phases.append((phase, info["failure"], info["signal"], bool(info["runner"])))
                repr(info["runner"])
                if audit == "slow":
                    time.sleep(0.002)

            ctx = ctx.set(audit_callback=callback)
        enc = p["enc"]
        self.enc = enc
        self.ctx = ctx.set(encoding=enc, cancel_timeout=0.15)
        self.data = pat(p["data"], p["seed"] % 100) if p["kind"] in ("cmd", "pipe") and p["seed"] % 3 else (b"hello line\n" * (p["data"] // 11))

    def V(self, *ops):
        p = self.p
        cmd = self.ctx(vpath(), *ops)
        if p["argodd"] and p["kind"] in ("cmd", "cancel", "body"):
            cmd = self.ctx.set(coerce_arg=odd_coerce)(vpath(), OddArg(), *ops)
        if p["nest"] == "alt":
            cmd = cmd.set(alt_name="the alternative")
        elif p["nest"] == "longname":
            cmd = cmd.set(alt_name="x" * 300 + "%s%d%(a)s{}")
        elif p["nest"] == "env":
            cmd = cmd.env(A="1", B=2)
        return cmd

    def last(self):
        return {"ok": [], "exit": ["exit:3"], "kill": ["kill:9"], "allowed": ["exit:3"]}[self.p["end"]]

    def opts(self, cmd):
        return cmd.set(exit_codes={0, 3}) if self.p["end"] == "allowed" else cmd

    def logger(self, name):
        log = logging.getLogger(f"vfsink.{name}")
        log.handlers = [Ring()]
        log.propagate = False
        log.setLevel(logging.DEBUG)
        self.sinks.append(lambda: list(log.handlers[0].lines))
        return log

    def redirect(self, cmd, block=False):
        p, tmp = self.p, self.tmp
        data = self.data
        kind = p["in"]
        if kind == "bytes":
            cmd = data | cmd
        elif kind == "str":
            cmd = data.decode("latin-1") | cmd
        elif kind == "file":
            (tmp / "in").write_bytes(data)
            cmd = tmp / "in" | cmd
        elif kind == "stringio":
            cmd = cmd.stdin(io.StringIO(data.decode("latin-1")))
        elif kind == "bytesio":
            cmd = cmd.stdin(io.BytesIO(data))
        elif kind == "null":
            cmd = cmd.stdin(sh.DEVNULL)
        out = "buffer" if block else p["out"]
        if out == "bytearray":
            b = bytearray(b"pre")
            self.sinks.append(lambda: bytes(b))
            cmd = cmd | b
        elif out == "stringio":
            s = io.StringIO()
            self.sinks.append(s.getvalue)
            cmd = cmd | s
        elif out == "bytesio":
            bb = io.BytesIO()
            self.sinks.append(bb.getvalue)
            cmd = cmd | bb
        elif out in ("file", "append"):
            f = tmp / "out"
            f.write_bytes(b"before")
            self.sinks.append(f.read_bytes)
            cmd = cmd.stdout(f, append=out == "append")
        elif out == "null":
            cmd = cmd.stdout(sh.DEVNULL)
        elif out == "logger":
            cmd = cmd | self.logger("out")
        err = p["err"]
        if err == "stdout":
            cmd = cmd.stderr(sh.STDOUT)
        elif err == "null":
            cmd = cmd.stderr(sh.DEVNULL)
        elif err == "file":
            f2 = tmp / "err"
            self.sinks.append(lambda: f2.read_bytes() if f2.exists() else None)
            cmd = cmd.stderr(f2)
        elif err == "bytearray":
            b2 = bytearray()
            self.sinks.append(lambda: bytes(b2))
            cmd = cmd.stderr(b2)
        elif err == "logger":
            cmd = cmd.stderr(self.logger("err"))
        elif err == "limit":
            cmd = cmd.set(error_limit=7)
        return cmd

    async def style(self, cmd):
        s = self.p["style"]
        if s == "await":
            return await cmd
        if s == "result":
            return await cmd.result()
        if s == "coro":
            return await cmd.coro()
        if s == "gather":
            return await asyncio.gather(cmd.coro(), self.V("outx:6f6b", "exit:0").coro())
        if s == "iter":
            return [ln async for ln in cmd]
        async with cmd.stdout(sh.CAPTURE) as run:
            got = await run.stdout.read()
        return [got, run.result(check=False)]

    async def cmd(self):
        c = self.V("errx:" + b"some error text \xc3\xa9\n".hex(), "cat", *self.last())
        block = self.p["style"] in ("with", "iter")
        return await self.style(self.redirect(self.opts(c), block))

    async def pipe(self):
        n, at = self.p["n"], self.p["at"]
        stages = []
        for i in range(n):
            c = self.V("cat", *(self.last() if i == at % n else []))
            stages.append(self.opts(c) if i == at % n else c)
        block = self.p["style"] in ("with", "iter")
        c = stages[0]
        for s in stages[1:]:
            c = c | s
        if self.p["err"] in ("stdout", "limit", "logger"):
            self.p = {**self.p, "err": "buffer"}
        return await self.style(self.redirect(c, block))

    async def sub(self):
        sink = bytearray()
        self.sinks.append(lambda: bytes(sink))
        fail = self.p["at"] == 3
        c = self.V("pmode:cat", self.V("out:5000:1"), self.V("out:9:2") | self.V("cat", *(["exit:4"] if fail else [])), "pmode:write:3000:7", (self.V("cat") | sink).writable)
        return await c.result()

    async def pty(self):
        fn = self.tmp / "in"
        fn.write_bytes(b"x" * 50)
        mode = self.p["at"]
        from shellous import cbreak, cooked, raw

        c = self.V("tty" if mode < 2 else "cat", *self.last()).set(pty=[True, cooked(), raw(), cbreak(echo=False)][mode]).stdin(fn)
        res = await asyncio.wait_for(self.opts(c).set(_return_result=True).coro(), 10)
        return re.sub(r"/dev/pts/\d+", "PTS", res.output), res.exit_code

    async def prompt(self):
        c = self.V("echo:" + b"> ".hex(), *self.last())
        if self.p["n"] == 3:
            c = c | self.V("cat")
        if self.p["n"] == 4:
            c = self.V("cat") | c
        out = []
        async with self.opts(c).prompt("> ", timeout=[None, None, 5.0, 0.8][self.p["at"]]) as cli:
            for i in range(3):
                out.append(await cli.command(f"line {i} " + "y" * self.rng.choice([1, 3000])))
            await cli.send("more")
            out.append((await cli.expect(["zz", "> "]))[0])
            out.append(cli.pending)
            try:
                await cli.expect("never", timeout=0.05)
            except asyncio.TimeoutError:
                out.append("timeout")
            if self.p["at"] == 3:
                await cli.expect("never again")
            await cli.send("quit")
            out.append(await cli.read_all())
        return out, cli.result

    async def ptyprompt(self):
        from shellous import cooked

        c = self.V("echo:" + b"> ".hex()).set(pty=cooked(cols=80, rows=24, echo=self.p["at"] % 2 == 0))
        out = []
        async with c.prompt("> ", timeout=5.0, normalize_newlines=self.p["n"] > 2) as cli:
            for i in range(3):
                out.append(await cli.command(f"line {i}"))
            out.append(cli.echo)
            await cli.send("quit")
            out.append(await cli.read_all())
        return out, cli.result

    async def secret(self):
        from shellous import cooked

        # (a secret may be long; its ends are what an abbreviated log line shows)
        pad = [0, 0, 100, 1000, 2100, 3900][self.p["seed"] % 6]
        secret = SECRET if not pad else SECRET + "-" * (pad - len(SECRET)) + SECRET
        c = self.V("sleep:20", "noecho", "outx:" + b"Password: ".hex(), "hash:%d" % (len(secret.encode()) + 1), "rdline").set(pty=cooked(echo=self.p["at"] % 2 == 0), encoding="utf-8")
        async with c.prompt(timeout=5.0) as cli:
            await cli.expect("Password: ")
            if self.p["at"] < 2:
                await cli.send(secret, no_echo=True)
                got = (await cli.expect("\n"))[0]
            else:
                got = await cli.command(secret, no_echo=True, prompt="\n")
            await cli.send("end")
            rest = await cli.read_all()
        return got, rest, cli.result

    def running(self):
        b = self.p["behave"]
        ops = {"hang": ["pause"], "ign": ["ign:15", "pause"], "trap": ["trap:15:7", "pause"], "flood": ["out:40000000:1", "pause"]}[b]
        c = self.V(*(ops[:-1] if b != "flood" else []), f"touch:{self.tmp}/ready", *(ops[-1:] if b != "flood" else ops))
        if self.p["sig"] == "none":
            c = c.set(cancel_signal=None)
        elif self.p["sig"] == "int":
            c = c.set(cancel_signal=signal.SIGINT)
        if b == "flood":
            c = c.stdout(sh.DEVNULL)
        return c

    async def cancel(self):
        c = self.running()
        if self.p["n"] == 3 and self.p["behave"] != "flood":
            c = c | self.V("cat")
        if self.p["at"] == 1:
            c = c.set(_catch_cancelled_error=True) if hasattr(c, "set") else c
        task = asyncio.create_task(self.style(c))
        await settle(lambda: (self.tmp / "ready").exists() or task.done(), 5)
        await asyncio.sleep(0.05)  # (a definite point: the child runs, the run waits for it)
        task.cancel()
        try:
            return await task
        except asyncio.CancelledError:
            return "cancelled"

    async def timeout(self):
        c = self.running().set(timeout=0.25)
        if self.p["n"] == 3 and self.p["behave"] != "flood":
            c = self.V("exit:0") | c
        return await self.style(c)

    async def body(self):
        c = self.running() if self.p["behave"] != "flood" else self.V("cat")
        exc = {"boom": Boom("x"), "badrepr": BadRepr("y"), "group": ExceptionGroup("g", [Boom("1"), OSError("2")]), "base": BaseBoom("b"), "cancelled": asyncio.CancelledError(), "timeout": asyncio.TimeoutError()}[self.p["exc"]]
        try:
            if self.p["n"] == 2:
                async with c.stdout(sh.CAPTURE) as run:
                    raise exc
            if self.p["n"] == 3:
                async with c.prompt() as cli:
                    raise exc
            async for _ in self.V("outx:610a620a", "pause"):
                raise exc
        except BaseException as ex:
            self.extra.append(ex is exc)
            raise

    async def iterbreak(self):
        out = []
        c = self.V("outx:610a620a630a", "pause")
        if self.p["n"] > 2:
            c = c | self.V("cat")
        it = c.__aiter__()
        async for ln in it:
            out.append(ln)
            if self.p["at"] % 3 < len(out):
                break
        await it.aclose()
        self.extra.append(["alive after aclose", len(proc_children())])
        return out

    async def harvest(self):
        from shellous.harvest import harvest_results

        async def bad():
            raise Boom("h")

        aws = [self.V("outx:61").coro(), self.V("exit:2").coro(), asyncio.sleep(0)]
        if self.p["at"] == 1:
            aws.append(bad())
        return await harvest_results(*aws, timeout=5, return_exceptions=True)

    async def missing(self):
        kind = self.p["at"]
        (self.tmp / "noexec").write_text("")
        bad = [self.ctx("/nonexistent/vf"), self.ctx("vf-no-such-program"), self.ctx(self.tmp / "noexec"), self.ctx(self.tmp)][kind]
        n = self.p["n"]
        if n == 3:
            bad = self.V("cat") | bad | self.V("cat")
        elif n == 4:
            bad = self.V(bad)
        return await self.style(bad)

    async def many(self):
        async def one(i):
            return await self.V(f"outx:{i:02x}", f"exit:{i % 3}").set(exit_codes={0, 1}).result()

        return await asyncio.gather(*(one(i) for i in range(8)), return_exceptions=True)

    async def lines(self):
        ls = [b"one\n", b"two\xc3\xa9\r\n", b"\n", b"x" * 5000 + b"\n", b"end"]
        c = self.V("outx:" + b"".join(ls[: self.p["n"] + 1]).hex(), *self.last())
        out = []
        async with c.stdout(sh.CAPTURE) as run:
            async for ln in run:
                out.append(ln)
        return out, run.result(check=False)

    async def pipeblock(self):
        c = self.V("cat") | self.V("cat", *self.last())
        async with c.stdin(sh.CAPTURE).stdout(sh.CAPTURE) as run:
            repr(run)
            run.stdin.write(b"abc\n")
            run.stdin.close()
            got = await run.stdout.read()
        return got, run.result(check=False)

    async def go(self):
        try:
            out = await getattr(self, self.p["kind"])()
            res = ["value", describe(out, self.tmp)]
        except BaseException as ex:  # noqa
            if isinstance(ex, (AttributeError, NameError)) and "Prog" in str(ex):
                raise
            res = ["raise", describe(ex, self.tmp)]
            ctx = ex.__context__
            del ex, ctx
        sinks = []
        if self.p["kind"] == "pipe" and res[0] == "raise" and res[1][0] == "ResultError":
            # (what the other commands got to before they were stopped is not determined)
            res[1][1] = res[1][1][1]
        if res[0] == "raise" and not (self.p["kind"] == "cmd" and res[1][0] == "ResultError"):
            self.sinks = []
        for get in self.sinks:
            try:
                sinks.append(describe(get(), self.tmp))
            except Exception as ex:
                sinks.append(repr(ex))
        gc.collect()
        outer = self.outer

        def tasks():
            return [t for t in other_tasks() if t is not outer and "athrow" not in repr(t.get_coro())]

        await settle(lambda: not proc_children() and not tasks(), 2)
        left = [len(proc_children()), sorted(t.get_coro().__qualname__ for t in tasks())]
        return {"result": res, "sinks": sinks, "left": left, "extra": describe(self.extra, self.tmp), "phases": self.phases}


def executor():
    "Main function of an executing interpreter: requests on fd 3, answers on fd 4."
    from ..core import _setup_worker

    _setup_worker()
    inp, outp = os.fdopen(3, "r"), os.fdopen(4, "w", buffering=1)
    os.set_inheritable(3, False)
    os.set_inheritable(4, False)
    stderr = open(os.environ["VF_P25_ERR"], "w+b", buffering=0)
    os.dup2(stderr.fileno(), 2)
    log = logging.getLogger("shellous")
    root = logging.getLogger()
    for line in inp:
        req = json_loads(line)
        tmp = Path(req["tmp"])
        tmp.mkdir()
        v = req["variant"]
        ring = Ring()
        handlers = {"list": [ring], "stream": [ring, logging.StreamHandler(io.StringIO())], "none": []}[v["handler"]]
        root.handlers = handlers
        root.setLevel(logging.WARNING if v["level"] == "unset" else v["level"])
        log.setLevel(logging.NOTSET if v["level"] == "unset" else v["level"])
        logging.getLogger("asyncio").setLevel(logging.WARNING)
        os.ftruncate(stderr.fileno(), 0)
        os.lseek(stderr.fileno(), 0, 0)
        os.chdir(tmp)
        prog = Prog(req["prog"], tmp, v["audit"])
        ans = {}
        kind = req["prog"]["loop"]
        unhandled = []

        async def main():
            asyncio.get_running_loop().set_exception_handler(lambda loop, ctx: unhandled.append(str(ctx.get("message"))))
            prog.outer = asyncio.current_task()
            return await asyncio.wait_for(prog.go(), 15)

        def execute():
            try:
                if kind == "thread":
                    ans.update(asyncio.run(main()))
                elif kind == "uvpolicy":
                    import uvloop

                    asyncio.set_event_loop_policy(uvloop.EventLoopPolicy())
                    try:
                        ans.update(asyncio.run(main()))
                    finally:
                        asyncio.set_event_loop_policy(None)
                else:
                    with loop_env(kind) as runner:
                        ans.update(runner.run(main()))
            except BaseException as ex:  # noqa
                import traceback

                ans["harness"] = traceback.format_exc()[-1500:]

        if kind == "thread":
            t = threading.Thread(target=execute)
            t.start()
            t.join()
        else:
            execute()
        gc.collect()
        reap_all()
        os.chdir("/")
        text = "\n".join(ring.lines)
        err = open(os.environ["VF_P25_ERR"], "rb").read().decode("utf-8", "replace")
        ans["unhandled"] = sorted(unhandled)
        ans["records"] = len(ring.lines)
        ans["logerrors"] = [x for x in ring.lines if x.startswith("LOGGING-ERROR")]
        ans["secret"] = [x[:300] for x in ring.lines + err.splitlines() if SECRET in x or "hünter2" in x or repr(SECRET.encode())[2:-1] in x]
        ans["stderr"] = err[-800:] if "Logging error" in err and "no repr" not in err else ""
        import json

        outp.write(json.dumps(ans, default=repr) + "\n")
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def json_loads(line):
    import json

    return json.loads(line)


# --------------------------------------------------------------------------
# The side that compares


POOL = {}
SERIAL = [0]


class Exec:
    def __init__(self, trace):
        a, b = os.pipe()
        c, d = os.pipe()
        env = {k: v for k, v in os.environ.items() if k != "SHELLOUS_TRACE"}
        if trace:
            env["SHELLOUS_TRACE"] = trace
        SERIAL[0] += 1
        env["VF_P25_ERR"] = f"{os.environ['VF_SCRATCH']}/exec{os.getpid()}-{SERIAL[0]}.err"
        env["PYTHONPATH"] = f"{VERIF}:{REPO}"
        # (the interpreter's request and answer pipes become 3 and 4)
        script = f"import os; os.dup2({a}, 903); os.dup2({d}, 904); [os.close(f) for f in ({a}, {d})]; os.dup2(903, 3); os.dup2(904, 4); os.close(903); os.close(904); from vf.props.p25 import executor; executor()"
        self.proc = subprocess.Popen([PY, "-B", "-c", script], stdin=subprocess.DEVNULL, pass_fds=[a, d], env=env, cwd="/")
        KEEP_PIDS.add(self.proc.pid)
        os.close(a)
        os.close(d)
        self.w = os.fdopen(b, "w", buffering=1)
        self.r = c
        self.buf = b""

    def ask(self, req, limit=60):
        import json

        self.w.write(json.dumps(req) + "\n")
        end = time.monotonic() + limit
        while b"\n" not in self.buf:
            ready, _, _ = select.select([self.r], [], [], max(0, end - time.monotonic()))
            data = os.read(self.r, 1 << 20) if ready else b""
            if not data:
                return None
            self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def close(self):
        with contextlib.suppress(OSError):
            self.w.close()
        with contextlib.suppress(OSError):
            os.close(self.r)
        self.proc.kill()
        self.proc.wait()
        KEEP_PIDS.discard(self.proc.pid)


def execute(case, variant, m):
    trace = variant["trace"]
    ex = POOL.get(trace)
    if ex is None or ex.proc.poll() is not None:
        ex = POOL[trace] = Exec(trace)
    SERIAL[0] += 1
    ans = ex.ask({"prog": case["prog"], "variant": variant, "tmp": f"{m.tmp}/t{SERIAL[0]}"})
    m.event("executions")
    if ans is None:
        ex.close()
        del POOL[trace]
        return {"result": ["stuck or died"], "sinks": [], "left": [], "extra": [], "unhandled": [], "phases": [], "logerrors": [], "secret": [], "stderr": "", "records": 0}
    return ans


PLAIN = {"trace": "", "level": "CRITICAL", "audit": False, "handler": "none"}


def key(ans):
    import json

    return json.dumps([ans.get(k) for k in ("result", "sinks", "left", "extra", "unhandled", "harness")])


def run(case, m):
    compare(case, m)


def compare(case, m):
    plain = execute(case, PLAIN, m)
    m.check("harness" not in plain, "harness", plain.get("harness"))
    seen = {key(plain)}
    for v in case["variants"]:
        ans = execute(case, v, m)
        m.event("oracle_checks")
        m.event("log_records", ans["records"])
        what = f"{case['prog']['kind']} under {v}"
        m.check(not ans["secret"], "secret-logged", f"{what}: {ans['secret'][:2]}")
        m.check(not ans["logerrors"], "logging-error", f"{what}: {ans['logerrors'][:2]}")
        m.check(not ans["stderr"], "logging-error", f"{what}: {ans['stderr']}")
        p = case["prog"]
        m.sig(p["kind"], p["style"], p["end"], p["loop"], p["exc"] if p["kind"] == "body" else p["behave"], v["trace"].strip().lower(), v["audit"], v["level"])
        if key(ans) in seen:
            continue
        # The program may have several outcomes of its own: look for this one without the variant.
        found = False
        for _ in range(4):
            seen.add(key(execute(case, PLAIN, m)))
            if key(ans) in seen:
                found = True
                break
        if found:
            m.event("programs_with_several_outcomes")
            continue
        again = execute(case, v, m)
        if key(again) in seen:
            m.event("not_repeatable")
            continue
        for k in ("result", "sinks", "left", "extra", "unhandled"):
            if ans.get(k) != plain.get(k):
                m.viol(f"differs:{k}", f"{what}: {k} is {ans.get(k)}, without {plain.get(k)}")
                break
    m.sample = {"kind": case["prog"]["kind"], "variants": case["variants"], "outcome": str(plain["result"])[:120]}
