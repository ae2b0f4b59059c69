"P03: buffered stderr keeps exactly the first error_limit bytes and never blocks."
import asyncio
import io

from shellous import sh

from ..lib import *

PROP = "P03"
LEVEL = "exploration"
BUDGET = {"quick": 20, "thorough": 240}
TECHNIQUE = "runtime monitoring: prefix oracle on buffered stderr, bounded-progress watchdog"
RULE = (
    "a case is (error_limit class, stderr total relative to the limit, write chunking/timing, stdout volume, "
    "sink variant, position in a pipeline, loop); non-trivial when stderr output was produced"
)
LIMITS = [None, 0, 1, 2, 10, 1023, 1024, 1025, 8191, 8192, 8193, 16384, 20000, 65536, 100000, "default"]
VARIANTS = ["buffer", "buffer", "buffer", "buffer", "pipe-last", "pipe-first", "with", "iter", "bytearray", "bytesio", "stringio", "stdout", "erronly", "path", "raise"]


def gen(rng, tier):
    for lim in LIMITS:
        base = 1024 if lim == "default" else (50000 if lim is None else lim)
        for n in sorted({0, max(0, base - 1), base, base + 1, base + 8192, 200000}):
            yield _case(rng, lim, [n], "buffer", must=True, loop="default")
    for lim in LIMITS:
        # the limit is reached by a short read, long before the bulk arrives
        base = 1024 if lim == "default" else (50000 if lim is None else lim)
        for first in sorted({base, base + 1, max(0, base - 1), base + 100}):
            yield {**_case(rng, lim, [first, 300000], "buffer", must=True, loop="default"), "gap": 30}
    while True:
        if rng.random() < 0.15:
            # enough to fill the pipe and the reader if nobody reads on
            lim = rng.choice(LIMITS[:9] + ["default"])
            base = 1024 if lim == "default" else (5000 if lim is None else lim)
            segs = [rng.randrange(1, base + 300) for _ in range(rng.choice([1, 1, 2, 3]))] + [rng.choice([250000, 300000, 400000])]
            yield {**_case(rng, lim, segs, rng.choice(VARIANTS)), "gap": rng.choice([5, 20, 40])}
            continue
        lim = rng.choice(LIMITS) if rng.random() < 0.6 else rng.randrange(0, 40000)
        base = 1024 if lim == "default" else (50000 if lim is None else lim)
        n = rng.choice([base, base + 1, max(0, base - 1), base * 2, base + 8192, base + 65536 + 4096, rng.randrange(0, 2 * base + 10), pick_size(rng, 0.3, 0.05)])
        pieces = rng.choice([1, 1, 2, 3, 5])
        cuts = sorted(rng.randrange(0, n + 1) for _ in range(pieces - 1))
        if pieces > 1 and n > base and rng.random() < 0.5:
            cuts[0] = base  # a write that ends exactly at the limit
            cuts.sort()
        segs = [b - a for a, b in zip([0] + cuts, cuts + [n])]
        yield _case(rng, lim, segs, rng.choice(VARIANTS))


def _case(rng, lim, segs, variant, must=False, loop=None):
    return {
        "lim": lim,
        "segs": segs,
        "variant": variant,
        "out": rng.choice([0, 0, 100, 9000, 150000]),
        "chunk": rng.choice([1000, 4096, 8192, 65536]) if sum(segs) < 100000 else rng.choice([8192, 65536]),
        "gap": rng.choice([0, 0, 0, 2]),
        "seed": rng.randrange(1000),
        "code": rng.choice([0, 0, 4]),
        "how": rng.choice(["cmd", "ctx"]),
        "loop": loop or pick_loop(rng, 0.7),
        "must": must,
    }


async def run(case, m):
    lim, segs, variant = case["lim"], case["segs"], case["variant"]
    ops = [f"chunk:{case['chunk']}"]
    want = b""
    half = case["out"] // 2
    ops.append(f"out:{half}:1")
    for i, n in enumerate(segs):
        if case["gap"] and i:
            ops.append(f"sleep:{case['gap']}")
        ops.append(f"err:{n}:{case['seed'] + i}")
        want += pat(n, case["seed"] + i)
    ops.append(f"out:{half}:2")
    out_want = pat(half, 1) + pat(half, 2)
    code = case["code"]
    if variant == "raise":
        code = code or 9
    if code:
        ops.append(f"exit:{code}")
    kw = {} if lim == "default" else {"error_limit": lim}
    eff = 1024 if lim == "default" else lim
    prefix = want if eff is None else want[:eff]
    if case["how"] == "ctx":
        cmd = sh.set(encoding="latin-1", **kw)(vpath(), *ops)
    else:
        cmd = V(*ops).set(encoding="latin-1", **kw)

    tag = f"{variant} limit={lim} total={len(want)} segs={segs[:6]}"
    if variant in ("buffer", "raise"):
        if variant == "raise":
            try:
                await cmd
                m.viol("no-error", tag)
                return
            except Exception as ex:
                if type(ex).__name__ != "ResultError":
                    raise
                res = ex.result
        else:
            res = await cmd.result
        m.eq(res.error_bytes, prefix, "error-prefix", tag)
        m.eq(res.error, prefix.decode("latin-1"), "error-text", tag)
        m.eq(res.output_bytes, out_want, "stdout", tag)
        m.eq(res.exit_code, code, "exit", tag)
    elif variant == "with":
        async with cmd.stdout(sh.CAPTURE) as r:
            out = await r.stdout.read()
        res = r.result(check=False)
        m.eq(out, out_want, "stdout", tag)
        m.eq(res.error_bytes, prefix, "error-prefix", tag)
    elif variant == "iter":
        out = ""
        try:
            async for line in cmd:
                out += line
        except Exception as ex:
            if type(ex).__name__ != "ResultError":
                raise
            m.eq(ex.result.error_bytes, prefix, "error-prefix", tag)
        m.eq(out.encode("latin-1"), out_want, "stdout", tag)
    elif variant == "pipe-last":
        res = await (V("out:3000:5") | V("sink", *ops).set(encoding="latin-1", **kw).result)
        m.eq(res.error_bytes, prefix, "error-prefix", tag)
        m.eq(res.output_bytes, out_want, "stdout", tag)
    elif variant == "pipe-first":
        # The failing first command's own limit applies to its stderr.
        code = code or 5
        c1 = V(*ops[: -1 if case["code"] else None], f"exit:{code}").set(**kw)
        res = await (c1 | V("cat").set(encoding="latin-1").result)
        # (a failing command ends the others early, so stdout is not judged here)
        m.eq(res.error_bytes, prefix, "error-prefix", tag)
        m.eq(res.exit_code, code, "exit", tag)
    elif variant in ("bytearray", "bytesio", "stringio", "path"):
        obj = {"bytearray": bytearray(), "bytesio": io.BytesIO(), "stringio": io.StringIO(newline=""), "path": m.tmp / "e"}[variant]
        res = await cmd.stderr(obj).result
        got = bytes(obj) if variant == "bytearray" else obj.read_bytes() if variant == "path" else obj.getvalue()
        if isinstance(got, str):
            got = got.encode("latin-1")
        m.eq(got, want, "limit-leaks-into-sink", tag)
        m.eq(res.error_bytes, b"", "error-not-empty", tag)
        m.eq(res.output_bytes, out_want, "stdout", tag)
    elif variant == "stdout":
        res = await cmd.stderr(sh.STDOUT).result
        m.eq(res.output_bytes, out_want[:half] + want + out_want[half:], "limit-leaks-into-merge", tag)
        m.eq(res.error_bytes, b"", "error-not-empty", tag)
    elif variant == "erronly":
        res = await cmd.stdout(sh.DEVNULL).stderr(sh.STDOUT).result
        m.eq(res.output_bytes, want, "limit-leaks-into-erronly", tag)
    m.event("stderr_bytes", len(want))
    if not want:
        m.trivial = True
    rel = "none" if eff is None else "<" if len(want) < eff else "=" if len(want) == eff else "+1" if len(want) == eff + 1 else "+page" if len(want) < eff + 9000 else "+big"
    m.sig(variant, lim if not isinstance(lim, int) or lim in LIMITS else "rnd", rel, len(segs), case["gap"], case["out"], case["loop"])
