"P19: a pty command runs on its own controlling terminal with exact data."
import termios

from shellous import ResultError, cbreak, cooked, raw

from ..lib import *

PROP = "P19"
LEVEL = "exploration"
BUDGET = {"quick": 26, "thorough": 300}
TECHNIQUE = "runtime monitoring: the child itself reports its terminal (ctty, session, modes, size) and a hash of what it read; captured output is compared byte by byte with a model of the terminal's output processing"
RULE = (
    "a case is (terminal mode, size, echo, input kind/size/line structure, output size, redirections, run style, loop); "
    "distinct = those parameters; every case launches at least one command on a terminal"
)
MODES = ["true", "cooked", "cooked", "cooked-noecho", "raw", "cbreak", "custom-eof", "custom-size"]
OUTS = [0, 1, 100, 1000, 4095, 4096, 4097, 8192, 20000, 65536, 70000, 200000]


def make_lines(rng, n, uni):
    "About n bytes of text whose lines are short enough for a canonical terminal."
    out = []
    size = 0
    while size < n:
        k = rng.choice([0, 1, 5, 40, 79, 80, 200, 1000, 1000 if uni else 4000])
        line = "".join(rng.choice(UNI if rng.random() < uni else ALPHA + "\t") for _ in range(min(k, (n - size) // 2)))
        out.append(line)
        size += len(line.encode()) + 1
    return "\n".join(out)


def gen(rng, tier):
    while True:
        mode = rng.choice(MODES)
        n = rng.choice([0, 0, 1, 10, 100, 1000, 4000, 4096, 9000, 40000, 150000])
        yield {
            "wd": 15,
            "mode": mode,
            "rows": rng.choice([0, 1, 24, 50, 1000]),
            "cols": rng.choice([0, 1, 80, 132, 65535]),
            "in": rng.choice(["none", "bytes", "str", "bytesio", "stringio", "reader", "reader", "capture", "bytearray"]),
            "n": n,
            "uni": rng.choice([0, 0, 0.3]),
            "tail": rng.choice(["nl", "nl", "part", "part"]),
            "slow": rng.choice([0, 0, 0, 20]),
            "out": rng.choice(OUTS),
            "err": rng.choice([0, 0, 1, 100, 5000]),
            "shape": rng.choice(["hash", "hash", "first", "cat", "ignore"]),
            "stdin": rng.choice(["pty"] * 6 + ["path", "devnull", "pipe"]),
            "stdout": rng.choice(["pty"] * 6 + ["path", "devnull", "pipe"]),
            "stderr": rng.choice(["default"] * 4 + ["buffer", "path", "devnull", "bytearray"]),
            "style": rng.choice(["await", "await", "result", "with", "iter", "bytearray", "bytesio", "stringio", "gather", "twice"]),
            "exit": rng.choice([0, 0, 0, 3]),
            "loop": rng.choice(["default"] * 6 + ["debug", "eager", "threaded", "shw"]),
            "seed": rng.randrange(1 << 30),
        }


def adapter(case):
    "The pty option, and what the terminal must then look like."
    mode, rows, cols = case["mode"], case["rows"], case["cols"]
    want = {"canon": 1, "echo": 1, "isig": 1, "rows": rows, "cols": cols}
    if mode == "true":
        return True, {**want, "rows": 0, "cols": 0}
    if mode == "cooked":
        return cooked(rows, cols), want
    if mode == "cooked-noecho":
        return cooked(rows=rows, cols=cols, echo=False), {**want, "echo": 0}
    if mode == "raw":
        return raw(rows, cols), {**want, "canon": 0, "echo": 0, "isig": 0}
    if mode == "cbreak":
        return cbreak(rows, cols), {**want, "canon": 0, "echo": 0}
    if mode == "custom-eof":

        def _eof(fd):
            a = termios.tcgetattr(fd)
            a[3] &= ~termios.ECHO
            a[6][termios.VEOF] = b"\x1c"
            a[6][termios.VQUIT] = b"\x00"
            termios.tcsetattr(fd, termios.TCSANOW, a)

        return _eof, {**want, "echo": 0, "rows": 0, "cols": 0}

    def _size(fd):
        import fcntl

        fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))

    return _size, want


def processed(data, mode):
    "What the terminal's output processing makes of `data`."
    return data if mode == "raw" else data.replace(b"\n", b"\r\n")


def parse_tty(text):
    res = {}
    for line in text.splitlines():
        head, *rest = line.split(" ")
        if head.startswith("ctty"):
            rest = [head] + rest
            head = "proc"
        res[head] = dict(x.split("=", 1) for x in rest)
    return res


async def once(case, m, tmp, tag, style):
    tmp.mkdir()
    rng = random.Random(case["seed"])
    mode = case["mode"]
    opt, want = adapter(case)
    canon = want["canon"]
    code = 0 if case["stdout"] == "pipe" else case["exit"]  # (a failure would cancel the next command)
    report = tmp / "tty"
    on_tty_in = case["stdin"] == "pty"
    kind = case["in"] if on_tty_in else "none"
    n = case["n"]
    if want["echo"] and on_tty_in:
        n = min(n, 1000)  # (the kernel limits pending echo)

    # -- input
    if canon or not on_tty_in:
        text = make_lines(rng, n, case["uni"])
        if case["tail"] == "nl" and text:
            text += "\n"
        if want["echo"] and on_tty_in and text and not text.endswith("\n"):
            text += "\n"  # (otherwise the echo of the last line races with output)
        data = text.encode()
    else:
        data = pat(n, 5)
        if mode == "cbreak":
            data = bytes(b for b in data if b not in (3, 0x1C, 0x1A, 0x11, 0x13, 0x0D, 0x16, 0x0F, 0xFF))
        if kind in ("str", "stringio"):
            data = make_lines(rng, n, case["uni"]).encode()
    if kind == "none" and on_tty_in:
        data = b""
    if case["stdin"] == "devnull":
        data = b""

    # -- child
    limit = "" if canon or not on_tty_in else f":{len(data)}"
    ops = [f"ttyf:{report}"]
    outd, errd = pat(case["out"], 21), pat(case["err"], 22)
    noeof = kind == "none" and on_tty_in  # (nobody sends end-of-file to it)
    shape = case["shape"] if not noeof else "noread"
    if shape == "ignore" and case["stdin"] == "pipe":
        shape = "hash"  # (the command before it would get SIGPIPE)
    if shape == "ignore" and want["echo"] and on_tty_in and data:
        shape = "hash"  # (how much is echoed depends on when the child exits)
    if case["slow"]:
        ops.append(f"sleep:{case['slow']}")
    werr = f"err:{case['err']}:22"
    if shape == "noread":
        ops += [f"out:{case['out']}:21", werr]
        childout = outd
    elif shape == "first" and not want["echo"]:
        ops += [f"out:{case['out']}:21", f"hash{limit}", werr]
        childout = outd + fnv_line(data)
    elif shape == "ignore":
        # does not read what it is given, or only a part
        part = len(data) // 3 if case["slow"] and not canon else 0
        ops += [f"sink:{part}"] * bool(part) + [f"out:{case['out']}:21", werr]
        childout = outd
        m.event("input_ignored", 1 if data else 0)
    elif shape == "cat" and not want["echo"]:
        ops += [f"cat{limit}", f"out:{case['out']}:21", werr]
        childout = data + outd
    else:
        ops += [f"hash{limit}", f"out:{case['out']}:21", werr]
        childout = fnv_line(data) + outd
    ops.append(f"exit:{code}")
    errdst = case["stderr"]
    if errdst == "default":
        if case["stdout"] != "pty" and errd:
            # stderr is the terminal, which nobody would read: do not write there.
            ops.remove(werr)
            errd = b""
        if case["stdout"] == "pty":
            childout += errd  # same terminal
    echo = data if want["echo"] and on_tty_in else b""
    wantout = processed(echo, mode) + processed(childout, mode) if case["stdout"] == "pty" else childout

    cmd = sh.set(encoding="latin-1")(vpath(), *ops).set(pty=opt, timeout=None)
    if style == "iter":
        cmd = cmd.set(exit_codes={0, 3})

    # -- redirections
    if case["stdin"] == "path":
        (tmp / "in").write_bytes(data)
        cmd = (tmp / "in") | cmd
    elif case["stdin"] == "devnull":
        cmd = cmd.stdin(sh.DEVNULL)
    elif case["stdin"] == "pipe":
        pass  # (below)
    elif kind == "bytes":
        cmd = data | cmd
    elif kind == "bytearray":
        cmd = cmd.stdin(bytearray(data))
    elif kind == "str":
        cmd = data.decode("latin-1") | cmd
    elif kind == "stringio":
        cmd = cmd.stdin(io.StringIO(data.decode("latin-1")))
    elif kind == "bytesio":
        cmd = cmd.stdin(io.BytesIO(data))
    reader = None
    feeder = None
    if kind == "reader":
        reader = asyncio.StreamReader()
        cmd = cmd.stdin(reader)

        async def feed():
            i = 0
            while i < len(data):
                k = rng.choice([1, 3, 100, 5000, 20000])
                reader.feed_data(data[i : i + k])
                i += k
                if rng.random() < 0.3:
                    await asyncio.sleep(0)
            reader.feed_eof()

        feeder = asyncio.create_task(feed())
    if kind == "capture":
        cmd = cmd.stdin(sh.CAPTURE)
    get_out = None
    if case["stdout"] == "path":
        cmd = cmd | (tmp / "out")
        get_out = (tmp / "out").read_bytes
    elif case["stdout"] == "devnull":
        cmd = cmd.stdout(sh.DEVNULL)
        get_out = lambda: wantout  # noqa
    get_err = None
    if errdst == "path":
        cmd = cmd.stderr(tmp / "err")
        get_err = (tmp / "err").read_bytes
    elif errdst == "devnull":
        cmd = cmd.stderr(sh.DEVNULL)
    elif errdst == "bytearray":
        errbuf = bytearray()
        cmd = cmd.stderr(errbuf)
        get_err = lambda: bytes(errbuf)  # noqa
    elif errdst == "buffer":
        cmd = cmd.stderr(sh.BUFFER).set(error_limit=None)

    if case["stdout"] == "pty" and style in ("bytearray", "bytesio", "stringio"):
        if style == "bytearray":
            sink = bytearray()
            get_out = lambda: bytes(sink)  # noqa
        elif style == "bytesio":
            sink = io.BytesIO()
            get_out = sink.getvalue
        else:
            sink = io.StringIO()
            get_out = lambda: sink.getvalue().encode("latin-1")  # noqa
        cmd = cmd.stdout(sink)
    run_ = cmd
    if case["stdout"] == "pipe":
        run_ = run_ | V("cat", ctx=sh.set(encoding="latin-1"))
    if case["stdin"] == "pipe":
        run_ = V("cat").stdin(data) | run_
    if style in ("with", "iter") and (case["stdout"] in ("path", "devnull") or errdst == "bytearray"):
        style = "result"
    if kind == "capture" and style != "with":
        style = "with"

    # -- run
    got = res = exc = None
    pipeline = run_ is not cmd
    try:
        if style == "with":
            r2 = run_ if get_out else run_.stdout(sh.CAPTURE)
            async with r2 as run:
                if kind == "capture":
                    stdin = run.stdin
                    i = 0
                    while i < len(data):
                        k = rng.choice([1, 50, 5000, 60000])
                        stdin.write(data[i : i + k])
                        i += k
                        if rng.random() < 0.3:
                            await asyncio.sleep(0)
                    if not pipeline:
                        stdin.write((run.pty_eof or b"") * (1 if data.endswith(b"\n") or not data else 2))
                    else:
                        eof = {"custom-eof": b"\x1c"}.get(mode, b"\x04") if canon else b""
                        stdin.write(eof * (1 if data.endswith(b"\n") or not data else 2))
                if run.stdout is not None and not get_out:
                    got = await run.stdout.read()
            res = run.result(check=False)
            if res.exit_code:
                exc = ResultError(res)
        elif style == "iter":
            got = "".join([x async for x in run_]).encode("latin-1")
        else:
            res = await run_.result
            got = res.output_bytes
            if res.exit_code:
                exc = ResultError(res)
    finally:
        if feeder:
            feeder.cancel()
    if get_out:
        got = get_out()

    # -- judge
    m.event("runs")
    m.event("bytes_in", len(data))
    m.event("bytes_out", len(wantout))
    if not m.check(report.exists(), "no-report", f"{tag}: exit {res!r}"):
        return
    rep = parse_tty(report.read_text())
    p = rep["proc"]
    m.check(p["ctty"] == "1", "no-controlling-terminal", f"{tag}: {rep}")
    m.check(p["leader"] == "1" and int(p["sid"]) != os.getsid(0), "no-new-session", f"{tag}: {rep}")
    tty_in = on_tty_in
    tty_out = case["stdout"] == "pty"
    tty_err = errdst == "default"
    for fd, is_tty in ((0, tty_in), (1, tty_out), (2, tty_err)):
        f = rep[f"fd{fd}"]
        m.check(f["tty"] == str(int(is_tty)), "wrong-redirection", f"{tag}: fd {fd} tty={f['tty']}, want {int(is_tty)}: {rep}")
        if is_tty and f["tty"] == "1":
            bad = {k: (f[k], v) for k, v in want.items() if f[k] != str(v)}
            m.check(not bad, "wrong-terminal-state", f"{tag}: fd {fd} (got, want) {bad}")
            m.event("terminal_states")
    if tty_in:
        m.check(p["fg"] == "1", "not-foreground", f"{tag}: {rep}")
        m.sample = {"tty": rep}
    m.eq(got, wantout, "output", tag)
    if get_err:
        m.eq(get_err(), errd, "stderr", tag)
    if errdst == "buffer" and res is not None and case["stdout"] != "pipe" and not pipeline:
        m.eq(res.error_bytes, errd, "stderr", tag)
    if res is not None:
        m.eq(res.exit_code, code, "exit-code", f"{tag}: {res!r}"[:600])
    m.check(exc is None or code, "unexpected-failure", f"{tag}: {exc!r}")
    return p.get("name")


async def run(case, m):
    style = case["style"]
    desc = {k: v for k, v in case.items() if k not in ("seed", "wd")}
    tag = " ".join(f"{k}={v}" for k, v in desc.items())
    m.sig(*desc.values())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", DeprecationWarning)
        if style == "gather":
            names = await asyncio.gather(*[once(case, m, m.tmp / f"g{k}", tag, "result") for k in range(4)])
            m.event("concurrent_ptys", len(names))
        elif style == "twice":
            for k in range(2):
                await once(case, m, m.tmp / f"t{k}", tag, "result")
        else:
            await once(case, m, m.tmp / "r", tag, style)
