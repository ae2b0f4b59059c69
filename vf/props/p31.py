"P31: a run handle describes and controls exactly its own process."
import fcntl
import signal
import struct

from shellous import cbreak, cooked, raw
from shellous.prompt import Prompt
from shellous.runner import PipeRunner, Runner

from ..lib import *

PROP = "P31"
LEVEL = "exploration"
BUDGET = {"quick": 24, "thorough": 240}
TECHNIQUE = (
    "runtime monitoring: what the handle says at each moment is compared with what the process says about itself "
    "(pid, terminal, signal log) and with the kernel's view; os.kill is recorded"
)
RULE = (
    "a case is (kind of handle, siblings running beside it, history of signals and questions, redirections, loop); "
    "distinct = those; non-trivial when a live process was asked about or signalled"
)
SIGS = [1, 2, 3, 10, 12, 15, 18, 23, 28, 34, 40, 64]


def gen(rng, tier):
    while True:
        kind = rng.choice(["signals", "signals", "signals", "pipe", "streams", "pty", "audit", "prompt"])
        yield {
            "kind": kind,
            "n": rng.choice([1, 2, 3, 5]),
            "steps": rng.choice([3, 6, 12]),
            "code": rng.choice([0, 1, 7, 255, -9, -15]),
            "late": rng.random() < 0.5,
            "seed": rng.randrange(1 << 20),
            "loop": "default" if kind in ("pty", "prompt") else pick_loop(rng, 0.5),
            "wd": 60,
        }


class Kills:
    "Records os.kill; passes it on."

    def __enter__(self):
        self.calls, self.saved = [], os.kill
        os.kill = self
        return self

    def __call__(self, pid, sig):
        if sig:
            self.calls.append((pid, int(sig)))
        self.saved(pid, sig)

    def __exit__(self, *_):
        os.kill = self.saved


def state(pid):
    try:
        return Path(f"/proc/{pid}/stat").read_bytes().rsplit(b")", 1)[1].split()[0].decode()
    except (FileNotFoundError, ProcessLookupError):
        return "-"


def signame(s):
    return signal.Signals(s).name if s in set(signal.Signals) else str(s)


def ptsname(fd):
    "The name of the terminal whose other side is `fd`."
    buf = fcntl.ioctl(fd, 0x80045430, b"\0" * 4)
    return f"/dev/pts/{struct.unpack('I', buf)[0]}"


def siglog(path):
    if not path.exists():
        return []
    return [tuple(map(int, x.split()[1:])) for x in path.read_text().splitlines()]


def running(m, run, pid, name, tag):
    "A handle of a process that is known to run."
    m.event("asked_running")
    m.event("oracle_checks", 4)
    m.eq(run.pid, pid, "pid", tag)
    m.eq(run.name, name, "name", tag)
    if isinstance(run, Runner):
        m.eq(run.returncode, None, "returncode-running", tag)
        m.eq(run.cancelled, False, "cancelled-running", tag)
        try:
            r = run.result()
            m.viol("result-running", f"{tag}: result() of a running process is {r!r:.100}")
        except TypeError:
            pass


def finished(m, run, pid, want, tag, kills):
    m.event("asked_finished")
    m.event("oracle_checks", 4)
    m.eq(run.pid, pid, "pid-after", tag)
    r1 = run.result(check=False)
    if isinstance(run, Runner):
        m.eq(run.returncode, want, "returncode-after", tag)
        n = len(kills.calls)
        run.send_signal(10)
        run.cancel()
        m.eq(kills.calls[n:], [], "signal-after-end", f"{tag}: a signal was sent after the process had ended")
    m.eq(r1.exit_code, want, "exit-code", tag)
    m.eq(run.result(check=False), r1, "result-changes", tag)


async def run(case, m):
    tag = " ".join(f"{k}={v}" for k, v in case.items() if k not in ("wd",))
    m.sig(*[case[k] for k in ("kind", "n", "steps", "code", "late", "loop")])
    await {"signals": signals, "pipe": pipe, "streams": streams, "pty": pty, "audit": audit, "prompt": prompt}[case["kind"]](
        case, m, random.Random(case["seed"]), tag
    )


def child(case, rng, tmp, i):
    "A child that logs signals, tells its pid and waits for a gate."
    log, gate = tmp / f"log{i}", tmp / f"gate{i}"
    code = case["code"]
    ops = [f"siglog:{s}:{log}" for s in SIGS] + ["pid", f"wait:{gate}", f"exit:{code}" if code >= 0 else f"kill:{-code}"]
    return ops, log, gate


async def signals(case, m, rng, tag):
    "Signals to several processes in turn; each sees its own, in order, once."
    kids = []
    with Kills() as kills:
        async with contextlib.AsyncExitStack() as stack:
            for i in range(case["n"]):
                ops, log, gate = child(case, rng, m.tmp, i)
                csig = rng.choice([15, 2, 34])
                cmd = V(*ops).stdout(sh.CAPTURE).set(exit_codes=range(-64, 256), cancel_signal=csig, alt_name=f"kid{i}")
                run = await stack.enter_async_context(cmd)
                pid = int(await run.stdout.readline())
                kids.append({"run": run, "pid": pid, "log": log, "gate": gate, "csig": csig, "want": [], "over": False})
            m.eq(len({k["pid"] for k in kids}), case["n"], "pids", tag)
            for step in range(case["steps"]):
                k = rng.choice(kids)
                what = rng.choice(["signal", "signal", "signal", "cancel", "ask", "burst", "end"])
                t = f"{tag} step {step} {what}"
                if what == "ask" or k["over"]:
                    for q in kids:
                        if not q["over"]:
                            running(m, q["run"], q["pid"], q["run"].command.options.alt_name, t)
                elif what == "end":
                    if step > 1 and sum(not q["over"] for q in kids) > 1:
                        k["gate"].touch()
                        k["over"] = True
                        await settle(lambda: k["run"].returncode is not None, 6)
                        finished(m, k["run"], k["pid"], case["code"], t, kills)
                else:
                    todo = [rng.choice(SIGS) for _ in range(3 if what == "burst" else 1)]
                    for s in todo:
                        n0 = len(kills.calls)
                        if what == "cancel":
                            s = k["csig"]
                            k["run"].cancel()
                        else:
                            k["run"].send_signal(rng.choice([s, signal.Signals(s) if s in set(signal.Signals) else s]))
                        m.event("signals_sent")
                        k["want"].append((k["pid"], s))
                        m.check(set(kills.calls[n0:]) <= {(k["pid"], s)}, "kill-calls", f"{t}: {kills.calls[n0:]}")
                        # (equal signals pending at once would count as one)
                        await settle(lambda: len(siglog(k["log"])) >= len(k["want"]), 4)
                for q in kids:
                    m.event("oracle_checks")
                    m.eq(siglog(q["log"]), q["want"], "child-signals", t)
                    if not q["over"]:
                        m.check(state(q["pid"]) not in "Z-", "ended", f"{t}: {q['pid']} ended")
                if m.violations:
                    break
            if case["late"] and not m.violations:
                # Signals to a process that has ended but was not collected yet: no error, nobody else is hit.
                k = rng.choice(kids)
                k["gate"].touch()
                end = time.monotonic() + 5
                while state(k["pid"]) not in "Z-" and time.monotonic() < end:
                    time.sleep(0.001)
                if state(k["pid"]) == "Z":
                    m.event("zombies_signalled")
                n0 = len(kills.calls)
                k["run"].send_signal(12)
                k["run"].cancel()
                m.check(set(kills.calls[n0:]) <= {(k["pid"], 12), (k["pid"], k["csig"])}, "kill-other", f"{tag}: {kills.calls[n0:]}")
            for k in kids:
                k["gate"].touch()
        for k in kids:
            finished(m, k["run"], k["pid"], case["code"], tag, kills)
        m.event("handles", len(kids))


async def pipe(case, m, rng, tag):
    "The handle of a pipeline."
    n = case["n"] + 1
    cap_in, cap_out = rng.random() < 0.5, rng.random() < 0.7
    pf = [m.tmp / f"pid{i}" for i in range(n)]
    gate = m.tmp / "gate"
    cmds = []
    for i in range(n):
        # (every command writes its pid through its standard error)
        c = V("pid", f"wait:{gate}", "cat", f"exit:{7 if i == n - 1 else 0}") if i == 0 else V("cat", f"exit:{7 if i == n - 1 else 0}")
        cmds.append(c.set(alt_name=f"c{i}"))
    p = cmds[0]
    for c in cmds[1:]:
        p = p | c
    if cap_in:
        p = p.stdin(sh.CAPTURE)
    p = p.stdout(sh.CAPTURE) if cap_out else p
    with Kills() as kills:
        async with p as run:
            m.check(isinstance(run, PipeRunner), "kind", tag)
            m.eq(run.stdin is not None, cap_in, "stdin-stream", tag)
            m.eq(run.stdout is not None, cap_out, "stdout-stream", tag)
            m.eq(run.stderr, None, "stderr-stream", tag)
            kids = proc_children()
            m.event("asked_running")
            m.check(run.pid in kids, "pid-not-child", f"{tag}: pid {run.pid}, children {kids}")
            if cap_out:
                pid = int(await asyncio.wait_for(run.stdout.readline(), 10))
                running(m, run, pid, "|".join(f"c{i}" for i in range(n)), tag)
            else:
                pid = run.pid
                m.check(b"wait:" in Path(f"/proc/{pid}/cmdline").read_bytes(), "pid-not-first", tag)
            gate.touch()
            if cap_in:
                run.stdin.close()
        finished(m, run, pid, 7, tag, kills)


async def streams(case, m, rng, tag):
    "A stream is there exactly for what is captured."
    i = rng.choice(["default", "capture", "bytes", "null", "str", "reader"])
    o = rng.choice(["default", "capture", "buffer", "bytearray", "null", "path"])
    e = rng.choice(["default", "capture", "buffer", "bytearray", "null", "stdout"])
    cmd = V("outx:41", "errx:42", f"wait:{m.tmp}/gate", "cat")
    if i == "capture":
        cmd = cmd.stdin(sh.CAPTURE)
    elif i == "reader":
        rd = asyncio.StreamReader()
        rd.feed_eof()
        cmd = cmd.stdin(rd)
    elif i != "default":
        cmd = cmd.stdin({"bytes": b"in", "null": sh.DEVNULL, "str": "in"}[i])
    if o != "default":
        cmd = cmd.stdout({"capture": sh.CAPTURE, "buffer": sh.BUFFER, "bytearray": bytearray(), "null": sh.DEVNULL, "path": m.tmp / "o"}[o])
    if e != "default":
        cmd = cmd.stderr({"capture": sh.CAPTURE, "buffer": sh.BUFFER, "bytearray": bytearray(), "null": sh.DEVNULL, "stdout": sh.STDOUT}[e])
    tag += f" {i}/{o}/{e}"
    async with cmd as run:
        m.event("asked_running")
        m.event("oracle_checks", 4)
        m.eq(isinstance(run.stdin, asyncio.StreamWriter), i == "capture", "stdin-stream", tag)
        m.eq(isinstance(run.stdout, asyncio.StreamReader), o == "capture", "stdout-stream", tag)
        m.eq(isinstance(run.stderr, asyncio.StreamReader), e == "capture", "stderr-stream", tag)
        m.eq((run.pty_fd, run.pty_eof), (None, None), "pty-without-pty", tag)
        m.check(run.command == cmd and run.options is run.command.options, "command", tag)
        (m.tmp / "gate").touch()
        if run.stdin:
            run.stdin.write(b"in")
            run.stdin.close()
        got = [await s.read() if s else None for s in (run.stdout, run.stderr)]
    body = b"" if i in ("default", "null", "reader") else b"in"
    if o == "capture":
        m.check(got[0] in (b"A" + body, b"AB" + body) if e == "stdout" else got[0] == b"A" + body, "stream-data", f"{tag} {got}")
    if e == "capture":
        m.eq(got[1], b"B", "stream-data", tag)
    m.sig("streams", i, o, e)


async def pty(case, m, rng, tag):
    "Handles of commands on terminals."
    n = min(case["n"], 3)
    kids = []
    async with contextlib.AsyncExitStack() as stack:
        for i in range(n):
            mode = rng.choice(["true", "raw", "cbreak", "cooked", "noecho"])
            ad = {"true": True, "raw": raw(), "cbreak": cbreak(), "cooked": cooked(), "noecho": cooked(echo=False)}[mode]
            gate = m.tmp / f"g{i}"
            cmd = V("pid", f"ttyf:{m.tmp}/t{i}", f"wait:{gate}").set(pty=ad).stdout(sh.CAPTURE)
            run = await stack.enter_async_context(cmd)
            pid = int((await run.stdout.readline()).strip())
            await settle(lambda: "name=" in (m.tmp / f"t{i}").read_text() if (m.tmp / f"t{i}").exists() else False)
            kids.append((run, pid, mode, (m.tmp / f"t{i}").read_text(), gate))
        for run, pid, mode, info, gate in kids:
            running(m, run, pid, run.command.name, f"{tag} {mode}")
            own = info.split("name=")[1].split()[0]
            m.eq(ptsname(run.pty_fd), own, "pty-fd", f"{tag} {mode}")
            m.eq(run.pty_eof, b"\x04" if mode in ("true", "cooked", "noecho") else b"", "pty-eof", f"{tag} {mode}")
            m.check(isinstance(run.stdin, asyncio.StreamWriter) and isinstance(run.stdout, asyncio.StreamReader), "pty-streams", tag)
            m.event("terminals")
        for run, pid, mode, info, gate in kids:
            gate.touch()
            await run.stdout.read()
    for run, pid, mode, info, gate in kids:
        m.eq((run.pid, run.returncode), (pid, 0), "pid-after", tag)


async def audit(case, m, rng, tag):
    "The handle given to an audit callback is the handle of the run that it reports."
    seen = {}

    async def one(i):
        log = []

        def callback(phase, info):
            r = info["runner"]
            log.append((phase, r, r.pid, r.returncode, r.name, info["signal"]))

        ops, slog, gate = child(case, rng, m.tmp, i)
        cmd = V(*ops).stdout(sh.CAPTURE).set(exit_codes=range(-64, 256), audit_callback=callback, alt_name=f"kid{i}")
        async with cmd as run:
            pid = int(await run.stdout.readline())
            running(m, run, pid, f"kid{i}", tag)
            await asyncio.sleep(rng.random() * 0.02)
            for s in [rng.choice(SIGS) for _ in range(2)]:
                run.send_signal(s)
                m.event("signals_sent")
                n = len(log)
                m.eq(log[-1][0], "signal", "audit-phase", tag)
                await settle(lambda: len(siglog(slog)) >= n - 1, 3)
            gate.touch()
        seen[i] = (run, pid, log, [s for _, s in siglog(slog)])

    await asyncio.gather(*[one(i) for i in range(case["n"])])
    for i, (run, pid, log, sigs) in seen.items():
        m.event("oracle_checks", 4)
        m.event("handles")
        m.check(all(e[1] is run for e in log), "audit-runner", tag)
        m.eq([e[0] for e in log], ["start", "signal", "signal", "stop"], "audit-phases", tag)
        m.eq([e[2] for e in log], [None, pid, pid, pid], "audit-pid", tag)
        m.eq([e[3] for e in log], [None, None, None, case["code"]], "audit-returncode", tag)
        m.eq({e[4] for e in log}, {f"kid{i}"}, "audit-name", tag)
        got = [e[5] for e in log if e[0] == "signal"]
        m.check(len(got) == len(sigs) and all(g in (str(s), signame(s)) for g, s in zip(got, sigs)), "audit-signal", f"{tag}: reported {got}, received {sigs}")


async def prompt(case, m, rng, tag):
    "What a prompt says about its terminal, its end and its result."
    use_pty = rng.random() < 0.6
    quiet = use_pty and rng.random() < 0.5
    code = case["code"]
    cmd = V(*(["noecho"] if quiet else []), "outx:" + b"ready> ".hex(), "echo:" + b"> ".hex(), f"exit:{code}" if code >= 0 else f"kill:{-code}")
    cmd = cmd.set(pty=cooked(), exit_codes=range(-64, 256)) if use_pty else cmd
    async with cmd.prompt("> ", timeout=10) as cli:
        m.check(isinstance(cli, Prompt), "kind", tag)
        await cli.expect()
        m.event("asked_running")
        m.event("oracle_checks", 4)
        m.eq(cli.at_eof, False, "prompt-eof", tag)
        m.eq(cli.echo, use_pty and not quiet, "prompt-echo", tag)
        try:
            r = cli.result
            m.viol("prompt-result-running", f"{tag}: {r!r:.100}")
        except RuntimeError:
            pass
        for step in range(min(case["steps"], 4)):
            want = rng.random() < 0.5
            if use_pty:
                cli.echo = want
                m.eq(cli.echo, want, "prompt-echo", tag)
                m.event("terminals")
            else:
                try:
                    cli.echo = want
                    m.viol("prompt-echo-no-pty", tag)
                except RuntimeError:
                    pass
                m.eq(cli.echo, False, "prompt-echo", tag)
            word = "".join(rng.choice("abcdef") for _ in range(rng.choice([1, 5, 60])))
            got = await cli.command(word)
            # The terminal repeats the line exactly when echo is on.
            m.eq(got, (word + "\r\n" + word) if use_pty and want else word, "prompt-answer", f"{tag} echo={want}")
        if rng.random() < 0.5:
            cli.close()
        else:
            await cli.send("quit")
            code = 0
        rest = await cli.read_all()
        m.eq(cli.at_eof, True, "prompt-eof", tag)
        m.eq(cli.pending, "", "prompt-pending", tag)
    m.eq(cli.result.exit_code, code, "prompt-exit-code", tag)
    m.check(cli.result is cli.result, "prompt-result", tag)
    m.sig("prompt", use_pty, quiet, code)
