"P30: data is passed on while the producer still runs."
import logging
import signal
import socket

from shellous import cooked, raw

from ..lib import *

PROP = "P30"
LEVEL = "exploration"
BUDGET = {"quick": 24, "thorough": 240}
TECHNIQUE = "runtime monitoring: the producer stops at gates; at each gate everything it has written must have reached the consumer, byte for byte, before the gate is opened"
RULE = (
    "a case is (kind of stream, sizes of the pieces, pauses, loop); distinct = those; non-trivial when at least one piece "
    "was seen at its consumer while its producer stood waiting at a gate"
)
SOON = 6.0
KINDS = [
    "bytearray", "bytesio", "logger", "path", "writer", "read", "iter", "expect", "errbytearray", "errlogger", "errread", "errstdout",
    "pipeiter", "piperead", "pipebytearray", "pty", "ptyiter", "procsub", "psw", "pswpipe", "stdin", "source", "send", "pipestdin", "fileobj", "fd", "audit", "limit",
]  # fmt: skip


def gen(rng, tier):
    while True:
        kind = rng.choice(KINDS)
        yield {
            "kind": kind,
            "sizes": [rng.choice([1, 1, 2, 30, 64, 1000, 4096, 5000, 16384, 16385, 40000]) for _ in range(rng.choice([1, 2, 3, 5]))],
            "nl": rng.choice(["every", "every", "none", "crlf"]),
            "seed": rng.randrange(1 << 20),
            "loop": "default" if "pty" in kind else pick_loop(rng, 0.5),
            "wd": 60,
        }


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def pieces(case, text=False, lines=False):
    "The pieces, each of printable characters; `lines`: each ends with a newline."
    rng = random.Random(case["seed"])
    out = []
    for n in case["sizes"]:
        s = "".join(rng.choice("abcdefghij KLMNOP") for _ in range(max(1, n - 1)))
        if n > 1 and not lines and case["nl"] != "none":
            k = rng.randrange(len(s))
            s = s[:k] + ("\r\n" if case["nl"] == "crlf" else "\n") + s[k:]
        s = s.strip() or "x"
        out.append((s + "\n" if lines else s).encode())
    return out


async def soon(cond):
    return await settle(cond, SOON)


async def run(case, m):
    kind = case["kind"]
    tag = " ".join(f"{k}={v}" for k, v in case.items() if k not in ("seed", "wd"))
    m.sig(kind, tuple(case["sizes"]), case["nl"], case["loop"])
    tmp = m.tmp
    lines = kind in ("logger", "iter", "errlogger", "pipeiter", "ptyiter")
    ps = pieces(case, lines=lines)

    def gate(i):
        return tmp / f"g{i}"

    def opened(i):
        gate(i).touch()

    def ops(err=False, wfd=None):
        out = []
        for i, p in enumerate(ps):
            (tmp / f"p{i}").write_bytes(p)
            out += [f"{'catf2' if err else 'catf'}:{tmp}/p{i}", f"wait:{gate(i)}"]
        return out

    def arrived(i, ok, what=""):
        m.event("pieces")
        return m.check(ok, "late", f"{tag}: piece {i} of {len(ps)} was not passed on within {SOON} s while its producer waited {what}")

    total = b"".join(ps)

    async def feed_through(cmd, current, i0=0):
        "Run `cmd` in a task and look at the sink at every gate."
        task = asyncio.ensure_future(cmd.result())
        acc = b""
        for i, p in enumerate(ps):
            acc += p
            ok = await soon(lambda: current() == acc or task.done())
            m.event("gates")
            if not arrived(i, current() == acc, f"({len(current())} of {len(acc)} bytes; run done={task.done()})"):
                break
            m.check(not task.done(), "ended-early", tag)
            opened(i)
        for i in range(len(ps)):
            opened(i)
        r = await task
        m.eq(current(), total if not m.violations else current(), "lost", tag)
        return r

    if kind in ("bytearray", "errbytearray", "pipebytearray", "errstdout", "audit", "limit"):
        sink = bytearray()
        cmd = V(*ops(kind in ("errbytearray", "errstdout")))
        if kind == "pipebytearray":
            cmd = V(*ops()) | V("cat") | V("cat")
        cmd = cmd.stderr(sink) if kind == "errbytearray" else cmd.stderr(sh.STDOUT).stdout(sink) if kind == "errstdout" else cmd.stdout(sink)
        if kind == "audit":
            cmd = cmd.set(audit_callback=lambda phase, info: None, timeout=50.0)
        if kind == "limit":
            cmd = cmd.set(error_limit=5).stdin(b"")
        await feed_through(cmd, lambda: bytes(sink))
    elif kind == "bytesio":
        sink = io.BytesIO()
        await feed_through(V(*ops()).stdout(sink), sink.getvalue)
    elif kind in ("path", "fileobj", "fd"):
        path = tmp / "out"
        path.touch()
        if kind == "path":
            dest = path
        elif kind == "fileobj":
            dest = open(path, "wb")
        else:
            dest = os.open(path, os.O_WRONLY)
        await feed_through(V(*ops()).stdout(dest), path.read_bytes)
        if kind == "fileobj":
            dest.close()
        elif kind == "fd":
            os.close(dest)
    elif kind in ("logger", "errlogger"):
        log = logging.getLogger(f"vf.p30.{kind}")
        h = Lines()
        log.handlers, log.propagate = [h], False
        log.setLevel(logging.DEBUG)
        cmd = V(*ops(kind == "errlogger"))
        cmd = cmd.stderr(log) if kind == "errlogger" else cmd.stdout(log)
        await feed_through(cmd, lambda: "".join(x + "\n" for x in h.lines).encode())
    elif kind == "writer":
        a, b = socket.socketpair()
        a.setblocking(False)
        reader, writer = await asyncio.open_connection(sock=b)
        got = bytearray()

        async def collect():
            loop = asyncio.get_running_loop()
            while chunk := await loop.sock_recv(a, 65536):
                got.extend(chunk)

        t = asyncio.ensure_future(collect())
        await feed_through(V(*ops()).stdout(writer), lambda: bytes(got))
        await asyncio.wait_for(t, 10)
        a.close()
    elif kind in ("read", "errread", "piperead", "pty", "procsub"):
        cmd = V(*ops(kind == "errread"))
        if kind == "piperead":
            cmd = cmd | V("cat")
        elif kind == "pty":
            cmd = cmd.set(pty=raw())
        elif kind == "procsub":
            cmd = V("pmode:cat", cmd)
        async with (cmd.stderr(sh.CAPTURE) if kind == "errread" else cmd.stdout(sh.CAPTURE)) as r:
            stream = r.stderr if kind == "errread" else r.stdout
            for i, p in enumerate(ps):
                got = b""
                try:
                    while len(got) < len(p):
                        got += await asyncio.wait_for(stream.read(65536), SOON)
                        m.event("reads")
                except asyncio.TimeoutError:
                    pass
                if not arrived(i, got == p, f"({len(got)} of {len(p)} bytes)"):
                    break
                opened(i)
            for i in range(len(ps)):
                opened(i)
            if not m.violations:
                m.eq(await asyncio.wait_for(stream.read(), SOON), b"", "extra", tag)
            else:
                raise_after = await stream.read()
    elif kind in ("iter", "pipeiter", "ptyiter"):
        cmd = V(*ops())
        if kind == "pipeiter":
            cmd = cmd | V("cat")
        elif kind == "ptyiter":
            cmd = cmd.set(pty=raw())
        it = cmd.__aiter__()
        for i, p in enumerate(ps):
            try:
                line = await asyncio.wait_for(it.__anext__(), SOON)
            except asyncio.TimeoutError:
                line = None
            if not arrived(i, line is not None and line.encode() == p, f"({line!r:.80})"):
                for j in range(len(ps)):
                    opened(j)
                return
            opened(i)
        rest = [x async for x in it]
        m.eq(rest, [], "extra", tag)
    elif kind == "expect":
        async with V(*ops()).prompt(normalize_newlines=False, timeout=None) as cli:
            for i, p in enumerate(ps):
                text = p.decode()
                want = text[-min(len(text), 12) :]
                seen = ""
                try:
                    while len(seen) < len(text):
                        t, mt = await cli.expect(want, timeout=SOON)
                        seen += t + mt.group()
                except asyncio.TimeoutError:
                    pass
                if not arrived(i, seen == text, f"({len(seen)} of {len(text)})"):
                    break
                opened(i)
            for i in range(len(ps)):
                opened(i)
            await cli.read_all()
    elif kind in ("stdin", "source", "send", "pipestdin", "psw", "pswpipe"):
        # The child passes on what it reads; the parent waits for each piece to come back.
        out = tmp / "back"
        out.touch()
        back = out.read_bytes
        cmd = V("cat").stdout(out)
        if kind == "pipestdin":
            cmd = V("cat") | V("cat").stdout(out)
        if kind in ("psw", "pswpipe"):
            # (what the command writes to its argument goes to a sink of the substituted command)
            sink = bytearray()
            back = lambda: bytes(sink)
            sub = V("cat") if kind == "psw" else V("cat") | V("cat")
            cmd = V("pmode:copyin", (sub | sink).writable)
        if kind == "source":
            rd = asyncio.StreamReader()
            task = asyncio.ensure_future(cmd.stdin(rd).result())
            acc = b""
            for i, p in enumerate(ps):
                rd.feed_data(p)
                acc += p
                await soon(lambda: back() == acc)
                if not arrived(i, back() == acc, f"({len(back())} of {len(acc)})"):
                    break
            rd.feed_eof()
            await task
        elif kind == "send":
            async with V("cat").prompt() as cli:
                for i, p in enumerate(ps):
                    text = p.decode()
                    await cli.send(text, end="|")
                    try:
                        t, _ = await cli.expect("|", timeout=SOON)
                    except asyncio.TimeoutError:
                        t = None
                    if not arrived(i, t == text):
                        break
                cli.close()
                await cli.read_all()
        else:
            async with cmd.stdin(sh.CAPTURE) as r:
                acc = b""
                for i, p in enumerate(ps):
                    r.stdin.write(p)
                    await r.stdin.drain()
                    acc += p
                    await soon(lambda: back() == acc)
                    if not arrived(i, back() == acc, f"({len(back())} of {len(acc)})"):
                        break
                r.stdin.close()
        if not m.violations and kind != "send":
            m.eq(back(), total, "lost", tag)
    else:
        raise AssertionError(kind)
