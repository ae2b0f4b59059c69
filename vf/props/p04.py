"P04: text is the decoding of the whole stream, independent of chunking."
import asyncio
import io
import logging

from shellous import sh

from ..lib import *

PROP = "P04"
LEVEL = "exploration"
BUDGET = {"quick": 24, "thorough": 300}
TECHNIQUE = "runtime monitoring: whole-stream decode oracle under generated byte streams and split points"
RULE = (
    "a case is (encoding, consumer: awaited text / Result / StringIO / lines / logger, stream it comes from, "
    "split points, newline structure, length class, loop); non-trivial when the output is non-empty"
)
ENCS = ["utf-8", "utf-8 replace", "utf-8 ignore", "utf-8 backslashreplace", "utf-8 surrogateescape", "latin-1", "utf-16-le", "utf-16", "utf-32", "cp1252", "ascii replace", "shift_jis", "utf-8-sig", "gb18030", "utf-7", "euc_jp replace"]
LINE_ENCS = ["utf-8", "utf-8", "utf-8 replace", "utf-8 ignore", "utf-8 backslashreplace", "utf-8 surrogateescape", "latin-1", "cp1252", "ascii replace", "shift_jis"]
CONS = ["text", "result", "stringio", "lines", "lines", "lines-pipe", "logger", "err-text", "err-stringio", "err-lines", "err-logger", "with-lines"]


def gen(rng, tier):
    n = 0
    while True:
        cons = CONS[n % len(CONS)] if n < 36 else rng.choice(CONS)
        enc = rng.choice(LINE_ENCS if "lines" in cons or "logger" in cons else ENCS)
        size = rng.choice([0, 1, 2, 3, 10, 40, 200, 1000, 4096, 8190, 8192, 20000])
        if rng.random() < 0.06:
            size = 70000
        yield {
            "cons": cons,
            "enc": enc,
            "size": size,
            "seed": rng.randrange(10**6),
            "nl": rng.choice([0, 0.01, 0.1, 0.5]),
            "crlf": rng.random() < 0.3,
            "badbytes": rng.random() < 0.4,
            "splits": rng.choice(["one", "bytes", "random", "mb", "edge"]),
            "gap": rng.choice([0, 0, 200, 1000]),
            "endnl": rng.random() < 0.5,
            "loop": pick_loop(rng, 0.7),
            "must": n < 36,
        }
        n += 1


def build(case):
    rng = random.Random(case["seed"])
    enc = case["enc"].split(maxsplit=1)
    unit = rand_text(rng, min(case["size"], 700), nl=case["nl"], uni=0.4, crlf=case["crlf"])
    text = unit
    while unit and len(text) < case["size"]:
        text += unit
    # extra unusual line separators that must NOT split lines
    if text and rng.random() < 0.3:
        pos = rng.randrange(len(text))
        text = text[:pos] + rng.choice(["\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\r", "\ufeff", "\x00"]) + text[pos:]
    if case["endnl"] and text:
        text += "\n"
    data = text.encode(enc[0], "ignore")
    if case["badbytes"] and len(enc) > 1 and data:
        b = bytearray(data)
        for _ in range(rng.randrange(1, 6)):
            b.insert(rng.randrange(len(b) + 1), rng.choice([0x80, 0xC3, 0xE2, 0xF0, 0xFF, 0xFE]))
        data = bytes(b)
    if "lines" in case["cons"] or "logger" in case["cons"]:
        # keep every line below asyncio's documented 64 KiB line limit
        data = b"".join(x if len(x) < 60000 else x[:59000] + b"\n" for x in data.splitlines(keepends=True)) if b"\n" not in data and len(data) > 60000 else data
        parts = []
        for x in data.split(b"\n"):
            parts += [x[i : i + 50000] for i in range(0, max(1, len(x)), 50000)]
        data = b"\n".join(parts)
    return data


def cuts_for(case, data):
    rng = random.Random(case["seed"] + 1)
    n = len(data)
    kind = case["splits"]
    if kind == "one" or n == 0:
        return []
    if kind == "bytes":
        k = min(n, 40)
        start = rng.randrange(0, n - k + 1)
        return list(range(start, start + k))
    if kind == "mb":  # split inside multibyte sequences
        c = [i for i in range(n) if data[i] & 0xC0 == 0x80]
        return sorted(rng.sample(c, min(len(c), 20)))
    if kind == "edge":
        return [c for c in (1, 8191, 8192, 8193, 16384, 65535, 65536, n - 1) if 0 < c < n]
    return sorted(rng.randrange(n + 1) for _ in range(rng.randrange(1, 12)))


async def run(case, m):
    data = build(case)
    cons, enc = case["cons"], case["enc"]
    codec = enc.split(maxsplit=1)
    err = cons.startswith("err-")
    op = "errx" if err else "outx"
    cuts = cuts_for(case, data)
    pieces = []
    prev = 0
    for c in sorted(set(cuts)) + [len(data)]:
        if c > prev:
            pieces.append(data[prev:c])
            prev = c
    ops = []
    for i, p in enumerate(pieces):
        if i and case["gap"] and len(pieces) < 60:
            ops.append("sleep:1" if case["gap"] >= 1000 else f"sleep:0")
        if len(p) < 30000:
            ops.append(f"{op}:{p.hex()}")
        else:
            f = m.tmp / f"d{i}"
            f.write_bytes(p)
            ops.append(f"{'catf2' if err else 'catf'}:{f}")
    try:
        want = data.decode(*codec)
        fails = None
    except UnicodeDecodeError:
        want, fails = None, UnicodeDecodeError
    cmd = V(*ops).set(encoding=enc)
    if err:
        cmd = cmd.set(error_limit=None)
    tag = f"{cons} enc={enc} len={len(data)} pieces={len(pieces)}"

    if fails:  # our generator only makes encodable text, keep a guard
        m.trivial = True
        return
    c = cons.replace("err-", "")
    if c == "text":
        if err:
            res = await cmd.result
            m.eq(res.error, want, "decoded-error", tag)
            m.eq(res.error_bytes, data, "error-bytes", tag)
        else:
            m.eq(await cmd, want, "decoded-output", tag)
    elif c == "result":
        res = await cmd.result
        m.eq(res.output, want, "decoded-output", tag)
        m.eq(res.output_bytes, data, "output-bytes", tag)
        m.eq(res.encoding, enc, "result-encoding", tag)
    elif c == "stringio":
        buf = io.StringIO(newline="")
        await (cmd.stderr(buf) if err else cmd.stdout(buf))
        m.eq(buf.getvalue(), want, "decoded-stringio", tag)
    elif c in ("lines", "with-lines", "lines-pipe"):
        want_lines = [x.decode(*codec) for x in _split(data)]
        got = []
        if err:
            cmd = cmd.stdout(sh.DEVNULL).stderr(random.Random(case["seed"]).choice([sh.CAPTURE, sh.STDOUT]))
        if c == "lines":
            async for line in cmd:
                got.append(line)
        elif c == "lines-pipe":
            async for line in cmd | V("cat").set(encoding=enc):
                got.append(line)
        else:
            async with cmd.stdout(sh.CAPTURE) as r:
                async for line in r:
                    got.append(line)
            r.result()
        m.eq(got, want_lines, "lines", tag)
        m.eq("".join(got), "".join(want_lines), "lines-concat", tag)
        m.event("lines", len(got))
    elif c == "logger":
        log = logging.Logger("vf")
        recs = []
        h = logging.Handler()
        h.emit = recs.append
        log.addHandler(h)
        await (cmd.stderr(log) if err else cmd.stdout(log))
        want_lines = [x.decode(*codec) for x in _split(data)]
        m.eq(len(recs), len(want_lines), "log-records", tag)
        # a record is its line without the newline (trailing whitespace is trimmed)
        m.eq([str(r.msg).rstrip() for r in recs], [x.rstrip() for x in want_lines], "log-text", tag)
        m.event("records", len(recs))
    m.event("bytes", len(data))
    if not data:
        m.trivial = True
    m.sig(cons, enc, case["splits"], case["gap"], case["nl"], "L" if len(data) > 8192 else "s", case["endnl"], case["loop"])


def _split(data):
    parts = data.split(b"\n")
    out = [p + b"\n" for p in parts[:-1]]
    if parts[-1]:
        out.append(parts[-1])
    return out
