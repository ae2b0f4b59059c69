"P29: data that nobody has taken yet stays with its producer."
import signal
import socket

from shellous import raw

from ..lib import *

PROP = "P29"
LEVEL = "exploration"
BUDGET = {"quick": 26, "thorough": 240}
TECHNIQUE = "runtime monitoring: producer's progress (bytes the kernel counted as written, or taken from the source) against what the stalled consumer has taken; then the whole stream's bytes"
RULE = (
    "a case is (kind of stream, where and how long the consumer stalls, sizes and chunks, loop); distinct = those; "
    "non-trivial when the producer was seen standing still with data left while the consumer stalled"
)
BOUND = 2 << 20  # bytes in flight: stream reader, transport and pipe or socket buffers together
KINDS = ["iter", "iterpipe", "with", "withpipe", "stderr", "both", "procsub", "prompt", "promptpipe", "pty", "source", "source", "sourcepipe", "sink", "sink", "errsink", "send", "sendpty", "iterpty", "relay"]


def gen(rng, tier):
    while True:
        kind = rng.choice(KINDS)
        yield {
            "kind": kind,
            "n": rng.choice([6, 7, 9]) << 20,
            "first": rng.choice([0, 0, 1, 70, 4096, 200000]),
            "again": rng.choice([0, 0, 1, 2]),
            "chunk": rng.choice([0, 1000, 16384, 65536]),
            "seed": rng.randrange(1 << 20),
            "loop": "default" if "pty" in kind else pick_loop(rng, 0.5),
            "wd": 60,
        }


def wchar(pid):
    "Bytes the process has written."
    try:
        for line in Path(f"/proc/{pid}/io").read_text().splitlines():
            if line.startswith("wchar"):
                return int(line.split()[1])
    except OSError:
        pass
    return None


def rchar(pid):
    try:
        return int(Path(f"/proc/{pid}/io").read_text().split()[1])
    except OSError:
        return None


async def still(get, m, bound, limit=6.0):
    "Wait until get() stands still, or exceeds the bound; the last value."
    end = time.monotonic() + limit
    last, since = get(), time.monotonic()
    while time.monotonic() < end:
        await asyncio.sleep(0.01)
        v = get()
        m.event("progress_readings")
        if v is not None and bound is not None and v > bound:
            return v
        if v != last:
            last, since = v, time.monotonic()
        elif time.monotonic() - since > 0.12:
            return v
    return last


class Digest:
    def __init__(self):
        self.n, self.parts = 0, []

    def add(self, data):
        self.n += len(data)
        self.parts.append(bytes(data))

    def bytes(self):
        return b"".join(self.parts)


def big(n, seed):
    "n bytes that are quick to make: a pattern block repeated, numbered."
    block = pat(65536 - 8, seed % 7)
    return b"".join(struct.pack("<Q", i) + block for i in range(n // 65536))


async def run(case, m):
    kind, n = case["kind"], case["n"]
    tag = " ".join(f"{k}={v}" for k, v in case.items() if k not in ("seed", "wd"))
    m.sig(*[v for k, v in case.items() if k not in ("seed", "wd")])
    data = big(n, case["seed"])
    src = m.tmp / "data"
    pre = [f"chunk:{case['chunk']}"] if case["chunk"] else []
    got = Digest()

    async def stalled(pid, taken, what="written"):
        "The consumer is doing nothing: the producer must come to a stop."
        v = await still(lambda: wchar(pid), m, taken() + BOUND)
        if v is None and taken() + BOUND >= n - (1 << 16):
            m.event("producer_done")
            return
        if v is None:
            m.viol("no-progress-counter", tag)
            return
        m.event("stalls")
        if m.check(v - taken() <= BOUND, "unbounded", f"{tag}: {v} bytes {what}, only {taken()} taken"):
            m.event("producer_stopped" if v < n else "producer_done")

    if kind in ("iter", "iterpipe", "iterpty"):
        # lines of 64 bytes
        line = b"%057d abcde\n"
        lines = b"".join(line % i for i in range(n // 64))
        src.write_bytes(lines)
        cmd = V(*pre, f"catf:{src}")
        if kind == "iterpty":
            cmd = cmd.set(pty=raw())
        if kind == "iterpipe":
            cmd = cmd | V("cat") | V("cat")
        k, stops = 0, {max(1, case["first"] // 64)} | {1 + case["seed"] % 5000 * (j + 1) for j in range(case["again"])}
        async for ln in cmd:
            if ln.encode() != line % k:
                m.viol("line", f"{tag}: line {k} is {ln[:80]!r}")
                return
            k += 1
            if k in stops:
                for pid in proc_children():
                    # (each of the commands has its own pipe)
                    await stalled(pid, lambda: k * 64 + (1 << 18 if kind == "iterpipe" else 0))
        m.eq(k, n // 64, "lost", tag)
        return

    if kind in ("with", "withpipe", "stderr", "both", "procsub", "pty"):
        src.write_bytes(data)
        op = f"catf2:{src}" if kind in ("stderr",) else f"catf:{src}"
        cmd = V(*pre, op)
        if kind == "procsub":
            cmd = V("pmode:cat", cmd)
        if kind == "withpipe":
            cmd = cmd | V("cat")
        if kind == "pty":
            cmd = cmd.set(pty=raw())
        err = None
        if kind == "stderr":
            cmd = cmd.stderr(sh.CAPTURE)
        elif kind == "both":
            src2 = m.tmp / "data2"
            src2.write_bytes(data[: 3 << 20])
            cmd = V(*pre, f"catf:{src}", f"catf2:{src2}").stdout(sh.CAPTURE).stderr(sh.CAPTURE)
        else:
            cmd = cmd.stdout(sh.CAPTURE)
        async with cmd as r:
            stream = r.stderr if kind == "stderr" else r.stdout
            stops = [case["first"]] + [case["first"] + (case["seed"] * (j + 3)) % (3 << 20) for j in range(case["again"])]
            for stop in sorted(stops):
                while got.n < stop:
                    got.add(await stream.read(min(stop - got.n, 65536)))
                for pid in proc_children():
                    await stalled(pid, lambda: got.n + (1 << 18 if kind in ("withpipe", "procsub") else 0))
            if kind == "both":

                async def other():
                    return await r.stderr.read()

                err = asyncio.ensure_future(other())
            while chunk := await stream.read(65536):
                got.add(chunk)
            if err is not None:
                m.check(await err == data[: 3 << 20], "lost", f"{tag}: error stream")
        m.check(got.bytes() == data, "lost", f"{tag}: {got.n} of {len(data)}")
        return

    if kind in ("prompt", "promptpipe"):
        text = b"".join(b"%09d abcdef\n" % i for i in range(n // 17 // 2))
        src.write_bytes(text)
        cmd = V(*pre, f"catf:{src}", "outx:" + b"END> ".hex())
        if kind == "promptpipe":
            cmd = cmd | V("cat")
        async with cmd.prompt("END> ", timeout=30.0) as cli:
            out = ""
            for _ in range(1 + case["again"]):
                if case["first"]:
                    t, _ = await cli.expect("\n")
                    out += t + "\n"
                for pid in proc_children():
                    await stalled(pid, lambda: len(out) + len(cli.pending) + (1 << 18 if kind == "promptpipe" else 0))
            t, _ = await cli.expect("END> ")
            out += t
        m.check(out.encode() == text, "lost", f"{tag}: {len(out)} of {len(text)}")
        return

    gate = m.tmp / "gate"
    if kind in ("source", "sourcepipe"):
        # A stream (fed from a socket) is the standard input of a child that does not read.
        a, b = socket.socketpair()
        a.setblocking(False)
        reader, writer = await asyncio.open_connection(sock=b)
        sent = 0
        loop = asyncio.get_running_loop()

        async def feed():
            nonlocal sent
            view = memoryview(data)
            while sent < len(data):
                await loop.sock_sendall(a, view[sent : sent + 16384])
                sent += min(16384, len(data) - sent)
            a.shutdown(socket.SHUT_WR)

        f = asyncio.ensure_future(feed())
        cmd = V(f"sink:{case['first']}" if case["first"] else "outx:", f"wait:{gate}", "hash").stdin(reader)
        if kind == "sourcepipe":
            cmd = V("cat").stdin(reader) | V(f"wait:{gate}", "hash")
        task = asyncio.ensure_future(cmd.result())
        await settle(lambda: proc_children(), 5)
        head = case["first"] if kind == "source" else 0
        v = await still(lambda: sent, m, head + BOUND + (1 << 19))
        m.event("stalls")
        if m.check(v - head <= BOUND + (1 << 19), "unbounded", f"{tag}: {v} bytes taken from the source, {head} read by the child"):
            m.event("producer_stopped" if v < n else "producer_done")
        gate.touch()
        r = await task
        await f
        a.close()
        writer.close()
        m.check(r.output_bytes == fnv_line(b"")[:0] + _hash(data[head:]), "lost", f"{tag}: {r!r}")
        return

    if kind in ("sink", "errsink", "relay"):
        # Output goes to a stream whose other end does not read.
        src.write_bytes(data)
        a, b = socket.socketpair()
        a.setblocking(False)
        reader, writer = await asyncio.open_connection(sock=b)
        loop = asyncio.get_running_loop()
        cmd = V(*pre, f"{'catf2' if kind == 'errsink' else 'catf'}:{src}")
        cmd = cmd.stderr(writer) if kind == "errsink" else cmd.stdout(writer)
        if kind == "relay":
            cmd = V(*pre, f"catf:{src}") | V("cat").stdout(writer)
        task = asyncio.ensure_future(cmd.result())
        await settle(lambda: proc_children(), 5)
        stops = [case["first"]] + [case["first"] + (case["seed"] * (j + 3)) % (3 << 20) for j in range(case["again"])]
        for stop in sorted(stops):
            while got.n < stop:
                got.add(await loop.sock_recv(a, min(stop - got.n, 65536)))
            for pid in proc_children():
                await stalled(pid, lambda: got.n + (1 << 19))
        while got.n < len(data):
            chunk = await asyncio.wait_for(loop.sock_recv(a, 65536), 20)
            if not chunk:
                break
            got.add(chunk)
        await task
        a.close()
        m.check(got.bytes() == data, "lost", f"{tag}: {got.n} of {len(data)}")
        return

    if kind in ("send", "sendpty"):
        # A prompt's sends wait for a child that does not read.
        cmd = V(f"wait:{gate}", "hash" if kind == "send" else f"hash:{(4 << 20)}")
        if kind == "sendpty":
            cmd = cmd.set(pty=raw())
        piece = 20000
        total = (4 << 20) // piece
        sent = 0
        async with cmd.prompt() as cli:

            async def sender():
                nonlocal sent
                for i in range(total):
                    await cli.send(data[i * piece : (i + 1) * piece], end="")
                    sent += piece
                if kind == "sendpty":
                    await cli.send(data[total * piece : 4 << 20], end="")
                    sent += (4 << 20) - total * piece

            t = asyncio.ensure_future(sender())
            v = await still(lambda: sent, m, BOUND)
            m.event("stalls")
            if m.check(v <= BOUND, "unbounded", f"{tag}: {v} bytes sent to a child that reads nothing"):
                m.event("producer_stopped")
            gate.touch()
            await asyncio.wait_for(t, 20)
            if kind == "send":
                cli.close()
            out = await cli.read_all()
        m.check(out.encode() == _hash(data[:sent]), "lost", f"{tag}: {out!r}")
        return
    raise AssertionError(kind)


_HASHES = {}


def _hash(data):
    "What `vchild hash` prints (computed by another copy of it)."
    import subprocess

    return subprocess.run([vpath(), "hash"], input=data, stdout=subprocess.PIPE, check=True).stdout
