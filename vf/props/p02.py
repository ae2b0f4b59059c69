"P02: every output sink receives exactly the bytes the child wrote."
import asyncio
import io
import logging
import os
import socket
import sys

from shellous import sh

from ..lib import *

PROP = "P02"
LEVEL = "exploration"
BUDGET = {"quick": 26, "thorough": 300}
TECHNIQUE = "runtime monitoring: per-stream byte conservation oracle over generated sink pairs"
RULE = (
    "a case is (stdout sink, stderr sink, append flags, prior contents, size classes, write chunking, "
    "run style, loop); non-trivial when the child wrote something to a monitored sink"
)

OUT = ["buffer", "bytearray", "bytesio", "stringio", "path", "file", "fd", "fdclose", "writer", "logger", "capture", "devnull", "inherit"]
ERR = OUT + ["stdout", "default"]


def _mk(rng, o, e, loop=None):
    segs = []
    big_left = 2
    for _ in range(rng.randrange(1, 6)):
        n = pick_size(rng, big=0.2)
        if n > 20000:
            if big_left == 0:
                n = 333
            else:
                big_left -= 1
        segs.append([rng.choice("oe"), n, rng.randrange(1000)])
    return {
        "o": o,
        "e": e,
        "oa": rng.random() < 0.5,
        "ea": rng.random() < 0.5,
        "prior": rng.choice([0, 0, 5, 3000]),
        "segs": segs,
        "chunk": rng.choice([1000, 4096, 8192, 65536]),
        "delay": rng.choice([0, 0, 0, 300]),
        "op": rng.choice(["op", "method"]),
        "times": rng.choice([1, 1, 2]),
        "style": rng.choice(["result", "result", "with", "iter"]),
        "code": rng.choice([0, 0, 0, 3]),
        "seek": rng.choice([0, 0, 0.5, 1]),
        "sys": rng.choice(["", "", "", "same", "none"]),
        "loop": loop or pick_loop(rng, 0.7),
    }


def gen(rng, tier):
    for o in OUT:
        for e in ERR:
            yield dict(_mk(rng, o, e, "default"), must=True)
            if "buffer" in (o, e) or "default" == e or "devnull" == o:
                yield dict(_mk(rng, o, e, "default"), must=True, sys="same")
    while True:
        yield _mk(rng, rng.choice(OUT), rng.choice(ERR))


class Sink:
    "One destination: gives the object to pass and, later, what it received."

    def __init__(self, kind, m, name, append, prior, loop):
        self.kind, self.m, self.append = kind, m, append
        self.name = name
        self.prior = b""
        self.obj = None
        self.close = False
        self.stream = None
        self.path = m.tmp / f"sink-{name}"
        pre = pat(prior, 77)
        if kind == "bytearray":
            self.obj = bytearray(pre)
            self.prior = pre
        elif kind == "bytesio":
            self.obj = io.BytesIO(pre)
            self.prior = pre
        elif kind == "stringio":
            self.obj = io.StringIO(pre.decode("latin-1"), newline="")
            self.prior = pre
        elif kind == "path":
            if prior:
                self.path.write_bytes(pre)
            self.obj = self.path
            self.prior = pre
        elif kind == "file":
            self.path.write_bytes(pre)
            self.obj = open(self.path, "r+b")
            self.prior = pre
        elif kind in ("fd", "fdclose"):
            # An existing descriptor is used at its current position.
            self.path.write_bytes(pre)
            self.obj = os.open(self.path, os.O_RDWR)
            self.pos = prior // 2
            os.lseek(self.obj, self.pos, os.SEEK_SET)
            self.prior = pre
            self.close = kind == "fdclose"
        elif kind == "logger":
            self.obj = logging.Logger(f"vf-{name}")
            self.records = []
            h = logging.Handler()
            h.emit = lambda rec: self.records.append(rec)
            self.obj.addHandler(h)
        elif kind == "capture":
            self.obj = sh.CAPTURE
        elif kind == "devnull":
            self.obj = sh.DEVNULL
        elif kind == "buffer":
            self.obj = sh.BUFFER
        elif kind == "stdout":
            self.obj = sh.STDOUT
        elif kind == "inherit":
            self.obj = sh.INHERIT
            self.path.write_bytes(b"")
            self.file = open(self.path, "r+")
            self.saved = getattr(sys, name)
            setattr(sys, name, self.file)

    async def open_writer(self):
        a, b = socket.socketpair()
        _, self.obj = await asyncio.open_connection(sock=a)
        r, self._w2 = await asyncio.open_connection(sock=b)
        self.reader = asyncio.ensure_future(r.read(-1))

    def restore(self):
        if self.kind == "inherit":
            setattr(sys, self.name, self.saved)
            self.file.close()
        elif self.kind == "file":
            self.obj.close()
        elif self.kind == "fd":
            os.close(self.obj)


async def run(case, m):
    loop = asyncio.get_running_loop()
    real = sys.stdout, sys.stderr
    o = Sink(case["o"], m, "stdout", case["oa"], case["prior"], loop)
    e = Sink(case["e"], m, "stderr", case["ea"], case["prior"], loop)
    for s in (o, e):
        if s.kind in ("bytesio", "stringio", "file") and s.prior:
            s.obj.seek(int(len(s.prior) * case.get("seek", 0)))
    # What `sys.stdout` and `sys.stderr` are must not matter, except for INHERIT.
    swap = case.get("sys")
    if swap == "same":
        if e.kind == "inherit":
            sys.stdout = e.file if o.kind != "inherit" else o.file
        sys.stderr = sys.stdout
    elif swap == "none" and "inherit" not in (o.kind, e.kind):
        sys.stdout = sys.stderr = None
    times = case["times"]
    if {"writer", "fdclose"} & {case["o"], case["e"]}:
        times = 1
    for s in (o, e):
        if s.kind == "writer":
            await s.open_writer()

    text_mode = "logger" in (case["o"], case["e"])
    segs = case["segs"]
    ops = [f"chunk:{case['chunk']}", f"delay:{case['delay']}"]
    obytes = b""
    ebytes = b""
    merged = b""
    for which, n, seed in segs:
        if text_mode:
            data = b"".join(b"%d:%d line\n" % (seed, i) for i in range(1 + n % 150))
            ops += [f"{'outx' if which == 'o' else 'errx'}:{data.hex()}"]
        else:
            data = pat(n, seed)
            ops += [f"{'out' if which == 'o' else 'err'}:{n}:{seed}"]
        merged += data
        if which == "o":
            obytes += data
        else:
            ebytes += data
    code = case["code"]
    if code:
        ops.append(f"exit:{code}")

    enc = "latin-1"
    cmd = V(*ops).set(encoding=enc)
    if case["op"] == "op" and case["o"] not in ("fdclose",):
        cmd = (cmd >> o.obj) if case["oa"] else (cmd | o.obj)
    else:
        cmd = cmd.stdout(o.obj, append=case["oa"], close=o.close)
    if e.kind != "default":
        cmd = cmd.stderr(e.obj, append=case["ea"], close=e.close)

    # Expected streams.
    want_o, want_e = obytes, ebytes
    if e.kind == "stdout":
        if o.kind == "devnull":
            want_o, want_e = ebytes, b""
        else:
            want_o, want_e = merged, b""

    if swap == "same" and o.kind == e.kind == "inherit":
        want_o, want_e = merged, b""

    captured_o = o.kind == "capture"
    captured_e = e.kind == "capture"
    style = case["style"]
    if captured_o or captured_e:
        if captured_o and captured_e:
            style = "with"
        elif style == "result":
            style = "with"
    got_o = got_e = None
    res = None
    try:
        for rep in range(times):
            if style == "with":
                async with cmd as r:
                    m.eq(r.stdout is not None, captured_o, "capture-stdout", f"{o.kind}/{e.kind}")
                    if e.kind != "stdout":
                        m.eq(r.stderr is not None, captured_e, "capture-stderr", f"{o.kind}/{e.kind}")
                    rd = [x.read() for x in (r.stdout, r.stderr) if x is not None]
                    vals = await asyncio.gather(*rd)
                    if r.stdout is not None:
                        got_o = vals[0]
                    if r.stderr is not None:
                        got_e = vals[-1]
                res = r.result(check=False)
            elif style == "iter" and (captured_o or captured_e):
                lines = []
                async for line in cmd.set(exit_codes=range(256)):
                    lines.append(line)
                joined = "".join(lines).encode("latin-1")
                if captured_o:
                    got_o = joined
                else:
                    got_e = joined
                res = None
            elif style == "iter":
                res = await cmd.set(exit_codes=range(256), _return_result=True)
            else:
                res = await cmd.result
            if res is not None:
                m.eq(res.exit_code, code, "exit", f"{o.kind}/{e.kind}")
    finally:
        o.restore()
        e.restore()
        sys.stdout, sys.stderr = real

    tag = f"{o.kind}/{e.kind}/{style}"
    if res is not None:
        is_only = e.kind == "stdout" and o.kind == "devnull"
        m.eq(res.output_bytes, want_o if (o.kind == "buffer" or is_only) else b"", f"result-output", tag)
        m.eq(res.error_bytes, want_e[:1024] if e.kind in ("buffer", "default") else b"", f"result-error", tag)
    for s, want, got, app in ((o, want_o, got_o, case["oa"]), (e, want_e, got_e, case["ea"])):
        await _verify(s, want, got, app, times, m, tag)
    if not obytes and not ebytes:
        m.trivial = True
    m.event("bytes_out", len(merged) * times)
    size = "L" if len(merged) > 65536 else "m" if len(merged) > 8192 else "s"
    m.sig(o.kind, e.kind, case["oa"], case["ea"], size, style, case["loop"], times, bool(case["prior"]), swap)


async def _verify(s, want, got, append, times, m, tag):
    k = s.kind
    name = s.name
    m.event(f"sink_{k}")
    total = s.prior + want * times if append else want
    if k == "bytearray":
        m.eq(bytes(s.obj), total, f"sink:{name}", tag)
    elif k == "bytesio":
        m.eq(s.obj.getvalue(), total, f"sink:{name}", tag)
    elif k == "stringio":
        m.eq(s.obj.getvalue().encode("latin-1"), total, f"sink:{name}", tag)
    elif k in ("path", "file"):
        m.eq(s.path.read_bytes(), total, f"sink:{name}", tag)
    elif k in ("fd", "fdclose"):
        w = bytearray(s.prior)
        w[s.pos : s.pos + len(want * times)] = want * times
        m.eq(s.path.read_bytes(), bytes(w), f"sink:{name}", tag)
    elif k == "writer":
        data = await asyncio.wait_for(s.reader, 20)
        m.eq(data, want, f"sink:{name}", tag)
        s._w2.close()
    elif k == "logger":
        exp = [x.decode() for x in want.splitlines()] * times
        m.eq([r.getMessage() for r in s.records], exp, f"sink:{name}", tag)
    elif k == "capture":
        m.eq(got, want, f"sink:{name}", tag)
    elif k == "inherit":
        m.eq(s.path.read_bytes(), want * times, f"sink:{name}", tag)
