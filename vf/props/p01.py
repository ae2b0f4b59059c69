"P01: standard input fidelity."
import asyncio
import io
import os
from pathlib import Path

from shellous import sh

from ..lib import *

PROP = "P01"
LEVEL = "exploration"
BUDGET = {"quick": 22, "thorough": 240}
RULE = (
    "a case is (source kind, size class, encoding, consumer behaviour, run style, event loop); "
    "non-trivial when the child actually reported what it read"
)

KINDS = ["str", "bytes", "bytearray", "path", "file", "fd", "fdclose", "stringio", "bytesio", "reader", "devnull", "default", "capture"]


def gen(rng, tier):
    sizes = EDGE + BIG
    for kind in KINDS:
        for size in (0, 1, 8193, 70000, 200001):
            yield {"kind": kind, "size": size, "enc": "utf-8", "seed": 7, "style": "await", "must": size < 100000, "loop": "default", "api": "or", "child": "hash", "pos": 0, "rbuf": 65536, "piece": 4096}
    while True:
        kind = rng.choice(KINDS)
        yield {
            "kind": kind,
            "size": pick_size(rng, big=0.3, huge=0.04),
            "enc": rng.choice(["utf-8", "utf-8", "latin-1", "utf-16", "utf-8 surrogateescape", "ascii ignore", "utf-32-le", "cp1252 replace"]),
            "seed": rng.randrange(1000),
            "style": rng.choice(["await", "result", "with", "iter"]),
            "api": rng.choice(["or", "stdin"]),
            "loop": pick_loop(rng),
            "child": rng.choice(["hash", "hash", "cat", "slow", "partial", "none", "closein"]),
            "pos": rng.choice([0, 0, 1, 50]),
            "rbuf": rng.choice([1, 17, 4096, 65536]),
            "piece": rng.choice([1, 100, 4096, 8192, 65536]),
        }


async def run(case, m):
    kind, size, enc = case["kind"], case["size"], case["enc"]
    rng = random.Random(case["seed"])
    closers = []
    codec = enc.split(maxsplit=1)
    if kind in ("str", "stringio"):
        if size <= 300:
            text = rand_text(rng, size, uni=0.3 if "ascii" not in enc else 0.2)
        else:
            base = rand_text(rng, 257)
            text = (base * (size // len(base) + 1))[:size]
        if enc == "latin-1":
            text = text.encode("latin-1", "replace").decode("latin-1")
        if "surrogateescape" in enc and size:
            text = text[:-1] + "\udc80"
        if kind == "stringio":
            pass
        expect = text.encode(*codec)
    else:
        text = None
        expect = pat(size, case["seed"])

    source = None
    feeder = None
    if kind == "str":
        source = text
    elif kind == "bytes":
        source = expect
    elif kind == "bytearray":
        source = bytearray(expect)
    elif kind == "path":
        source = m.tmp / "in"
        source.write_bytes(expect)
    elif kind == "file":
        (m.tmp / "in").write_bytes(expect)
        source = open(m.tmp / "in", "rb", buffering=0)
        closers.append(source.close)
    elif kind in ("fd", "fdclose"):
        (m.tmp / "in").write_bytes(expect)
        source = os.open(m.tmp / "in", os.O_RDONLY)
        skip = min(case["pos"], size)
        os.lseek(source, skip, os.SEEK_SET)
        expect = expect[skip:]
        if kind == "fd":
            closers.append(lambda fd=source: os.close(fd))
    elif kind == "stringio":
        source = io.StringIO()
        source.write(text)
        source.seek(min(case["pos"], len(text)))
    elif kind == "bytesio":
        source = io.BytesIO(expect)
        source.seek(min(case["pos"], size))
    elif kind == "reader":
        source = asyncio.StreamReader()

        async def feed():
            mv = expect
            step = case["piece"] if size < 3000 or case["piece"] >= 100 else 100
            for i in range(0, len(mv), step):
                source.feed_data(mv[i : i + step])
                if (i // step) % 3 == 0:
                    await asyncio.sleep(0)
            source.feed_eof()

        feeder = feed
    elif kind == "devnull":
        source = sh.DEVNULL
        expect = b""
    elif kind == "default":
        source = None
        expect = b""
    elif kind == "capture":
        source = sh.CAPTURE

    child = case["child"]
    if kind in ("devnull", "default") and child in ("partial",):
        child = "hash"
    if child == "hash":
        ops = [f"rchunk:{case['rbuf'] if size < 3000 else 65536}", "hash"]
        want = fnv_line(expect)
    elif child == "cat":
        ops = [f"rchunk:{case['rbuf'] if size < 3000 else 4096}", "cat"]
        want = expect
    elif child == "slow":
        ops = ["sleep:15", "hash:10", "sleep:10", "hash"]
        want = fnv_line(expect[:10]) + fnv_line(expect[10:])
    elif child == "partial":
        n = min(len(expect), 100)
        ops = [f"hash:{n}", "exit:0"]
        want = fnv_line(expect[:n])
    elif child == "none":
        ops = ["sleep:5", "outx:6f6b"]
        want = b"ok"
    else:
        ops = ["close:0", "sleep:5", "outx:6f6b"]
        want = b"ok"

    cmd = V(*ops).set(encoding=enc)
    if kind == "default":
        pass
    elif kind == "fdclose":
        cmd = cmd.stdin(source, close=True)
    elif case["api"] == "or" and kind not in ("fd",):
        cmd = source | cmd
    else:
        cmd = cmd.stdin(source)

    style = case["style"]
    if kind == "capture":
        style = "with"
    ftask = asyncio.ensure_future(feeder()) if feeder else None
    reads_all = child in ("hash", "cat", "slow")
    try:
        if style in ("await", "result"):
            res = await cmd.result
            got = res.output_bytes
            m.eq(res.exit_code, 0, "exit", f"{kind}/{child}")
        elif style == "with":
            async with cmd.stdout(sh.CAPTURE) as run_:
                if kind == "capture":
                    m.check(run_.stdin is not None, "capture-stdin", "CAPTURE must expose stdin")
                    wt = asyncio.ensure_future(_write_all(run_.stdin, expect, case["piece"] if size < 3000 else 65536))
                    got = await run_.stdout.read()
                    await wt
                else:
                    m.check(run_.stdin is None, "stdin-exposed", "stdin must not be exposed unless captured")
                    got = await run_.stdout.read()
            res = run_.result()
            m.eq(res.exit_code, 0, "exit", f"{kind}/{child}")
        else:
            # iterate: output decoded as latin-1 so that bytes are recoverable
            ops_enc = "latin-1"
            if kind in ("str", "stringio"):
                ops_enc = enc
            if child == "cat" or ops_enc != "latin-1":
                res = await cmd.result
                got = res.output_bytes
            else:
                got = b""
                async for line in cmd.set(encoding="latin-1"):
                    got += line.encode("latin-1")
    except (BrokenPipeError, ConnectionResetError, RuntimeError) as ex:
        # Documented outcome when a child exits without reading all its input.
        # (uvloop raises its own RuntimeError from write() on a closed pipe.)
        if reads_all or (type(ex) is RuntimeError and case["loop"] != "uvloop"):
            raise
        m.event("broken_pipe_outcomes")
        got = want
    finally:
        if ftask:
            if not ftask.done():
                ftask.cancel()
            await asyncio.gather(ftask, return_exceptions=True)
        for c in closers:
            try:
                c()
            except OSError as ex:
                m.viol("caller-fd-closed", f"{kind}: caller's descriptor was closed: {ex!r}")
    if kind == "fdclose":
        try:
            os.fstat(source)
            m.viol("fd-not-closed", "close=True descriptor still open after run")
        except OSError:
            pass
    m.eq(got, want, f"stdin-bytes:{'content' if child in ('hash', 'cat', 'slow') else child}", f"kind={kind} size={size} enc={enc} child={child} style={style}")
    m.event("bytes_in", len(expect))
    m.event("child_reports")
    szc = "0" if size == 0 else "s" if size < 8192 else "m" if size < 65536 else "L"
    m.sig(kind, szc, enc, child, style, case["loop"])
    m.sample = {**case, "expected_len": len(expect)}


async def _write_all(stdin, data, step):
    try:
        for i in range(0, len(data), step):
            stdin.write(data[i : i + step])
            await stdin.drain()
    except (BrokenPipeError, ConnectionResetError):
        pass
    stdin.close()
