"P06: pipelines compose byte-exactly with pipefail reporting."
import asyncio
import io

from shellous import sh, Result, ResultError, Pipeline

from ..lib import *

PROP = "P06"
LEVEL = "exploration"
BUDGET = {"quick": 28, "thorough": 300}
TECHNIQUE = "runtime monitoring: composition oracle (affine stages) and pipefail reference over generated pipelines"
RULE = (
    "a case is (length, grouping of |, stage transforms, data size, set of failing stages with codes, source, sink, "
    "run style, loop); non-trivial when at least two processes exchanged data or one failed"
)
STYLES = ["await", "result", "result", "with", "iter", "prompt", "nested"]


def gen(rng, tier):
    i = 0
    while True:
        n = rng.choice([2, 2, 3, 3, 4, 5, 7])
        fail = rng.random() < 0.4
        yield {
            "n": n,
            "mul": [rng.choice([1, 3, 5, 7, 255]) for _ in range(n)],
            "add": [rng.randrange(256) for _ in range(n)],
            "size": pick_size(rng, 0.3, 0.03),
            "seed": rng.randrange(1000),
            "fails": sorted(rng.sample(range(n), rng.choice([1, 1, 2, min(3, n)]))) if fail else [],
            "codes": [rng.choice([1, 2, 3, 77, 255, -10, -9]) for _ in range(n)],
            "errs": [rng.choice([0, 0, 5, 1024, 1500]) for _ in range(n)],
            "src": rng.choice(["bytes", "bytes", "path", "gen", "stringio", "reader", "fd"]),
            "sink": rng.choice(["result", "result", "result", "bytearray", "path", "append", "bytesio", "stdout-merge"]),
            "group": rng.choice(["left", "right", "mid", "create", "sub"]),
            "style": rng.choice(STYLES),
            "where": rng.choice(["first", "pipe"]),
            "stagger": rng.random() < 0.25,
            "loop": pick_loop(rng, 0.7),
            "must": i < 60,
        }
        i += 1


def compose(cmds, how):
    if how == "create":
        return Pipeline.create(*cmds)
    if how == "left" or len(cmds) < 3:
        p = cmds[0]
        for c in cmds[1:]:
            p = p | c
        return p
    if how == "right":
        p = cmds[-1]
        for c in reversed(cmds[:-1]):
            p = c | p
        return p
    k = len(cmds) // 2
    a = compose(cmds[:k], "left") if k > 1 else cmds[0]
    b = compose(cmds[k:], "left") if len(cmds) - k > 1 else cmds[k]
    return a | b


async def run(case, m):
    n = case["n"]
    data = pat(case["size"], case["seed"])
    want = data
    fails = case["fails"]
    cmds = []
    errs = []
    for i in range(n):
        a, b = case["mul"][i], case["add"][i]
        ops = []
        if case["src"] == "gen" and i == 0:
            ops.append(f"out:{case['size']}:{case['seed']}")
        else:
            ops.append(f"aff:{a}:{b}")
            want = want.translate(bytes((x * a + b) & 255 for x in range(256)))
        ops.append(f"err:{case['errs'][i]}:{i}")
        errs.append(pat(case["errs"][i], i)[:1024])
        if i in fails:
            if case["stagger"] and i != fails[0]:
                ops.append("sleep:250")  # fails well after the first failure was seen
            c = case["codes"][i]
            ops.append(f"kill:{-c}" if c < 0 else f"exit:{c}")
        cmds.append(V(*ops).set(encoding="latin-1"))
    style = case["style"]
    sink = case["sink"] if style in ("result", "await") else "result"
    closers = []
    src = None
    kind = case["src"]
    if kind == "bytes":
        src = data
    elif kind == "path":
        src = m.tmp / "in"
        src.write_bytes(data)
    elif kind == "stringio":
        src = io.StringIO(data.decode("latin-1"), newline="")
    elif kind == "reader":
        src = asyncio.StreamReader()
        src.feed_data(data)
        src.feed_eof()
    elif kind == "fd":
        (m.tmp / "in").write_bytes(data)
        src = os.open(m.tmp / "in", os.O_RDONLY)
        closers.append(src)

    out = None
    obj = None
    prior = b""
    if sink == "bytearray":
        obj = bytearray(b"old")
    elif sink == "bytesio":
        obj = io.BytesIO(b"old")
    elif sink == "path":
        obj = m.tmp / "out"
        obj.write_bytes(b"old")
    elif sink == "append":
        obj = m.tmp / "out"
        obj.write_bytes(b"old")
        prior = b"old"

    group = case["group"]
    if style == "result":
        cmds[-1] = cmds[-1].result
    if case["where"] == "first" and src is not None and group != "right":
        cmds[0] = cmds[0].stdin(src) if kind == "fd" else src | cmds[0]
        pipe = compose(cmds, group)
    else:
        pipe = compose(cmds, group)
        if src is not None:
            pipe = pipe.stdin(src) if kind == "fd" else src | pipe
    if sink == "append":
        pipe = pipe >> obj
    elif obj is not None:
        pipe = pipe | obj
    if sink == "stdout-merge":
        pipe = pipe.stderr(sh.STDOUT)
    m.eq(len(pipe), n, "pipeline-length")

    tag = f"n={n} {style} src={kind} sink={sink} fails={fails} size={len(data)}"
    res = ex = None
    got = None
    try:
        if style in ("await", "nested"):
            if style == "nested":
                # two pipelines at once, plus the same object again
                vals = await asyncio.gather(pipe, V("out:5:5") | V("cat").set(encoding="latin-1"), return_exceptions=True)
                m.eq(vals[1], pat(5, 5).decode("latin-1"), "sibling", tag)
                if isinstance(vals[0], BaseException):
                    raise vals[0]
                got = vals[0].encode("latin-1")
            else:
                got = (await pipe).encode("latin-1")
        elif style == "result":
            res = await pipe
        elif style == "with":
            async with pipe.stdout(sh.CAPTURE) as r:
                m.check(r.stdout is not None and r.stdin is None, "with-streams", tag)
                got = await r.stdout.read()
            res = r.result(check=False)
            r.result()
        elif style == "iter":
            lines = []
            async for line in pipe:
                lines.append(line)
            got = "".join(lines).encode("latin-1")
        elif style == "prompt":
            async with compose(cmds, group).prompt() as cli:
                async def feed():
                    try:
                        cli._runner.stdin.write(data) if kind != "gen" else None
                        await cli._runner.stdin.drain()
                    except (BrokenPipeError, ConnectionResetError):
                        pass
                    cli.close()
                t = asyncio.ensure_future(feed())
                got = (await cli.read_all()).encode("latin-1")
                await t
            res = cli.result
    except ResultError as e:
        ex = e
        res = e.result
    except (BrokenPipeError, ConnectionResetError):
        if not fails:
            raise
        m.event("broken_pipe_outcomes")
        m.trivial = True
        return
    except RuntimeError:
        if not fails or case["loop"] != "uvloop":
            raise
        m.trivial = True
        return
    finally:
        for fd in closers:
            os.close(fd)

    if not fails:
        merged = want
        if sink == "stdout-merge":
            merged = None  # stage order: output, then stderr, of the last command
            merged = want + pat(case["errs"][-1], n - 1)
        m.check(ex is None, "raised-without-failure", tag + f" {ex!r}")
        if obj is not None:
            content = bytes(obj) if isinstance(obj, bytearray) else obj.getvalue() if isinstance(obj, io.BytesIO) else obj.read_bytes()
            m.eq(content, prior + want, "sink-content", tag)
            if res is not None:
                m.eq(res.output_bytes, b"", "result-output", tag)
        elif got is not None:
            m.eq(got, merged, "pipe-output", tag)
        elif res is not None:
            m.eq(res.output_bytes, merged, "pipe-output", tag)
        if res is not None:
            m.eq(res.exit_code, 0, "exit-code", tag)
            m.eq(res.error_bytes, b"" if sink == "stdout-merge" else errs[-1], "error-bytes", tag)
            m.eq(res.cancelled, False, "cancelled", tag)
    else:
        # Some command failed.  Later failures may be pre-empted (a failing
        # command ends the others), but the reported one is a real failure.
        m.event("failing_pipelines")
        if style in ("await", "nested", "with"):
            m.check(ex is not None, "no-error-raised", tag)
        if style == "result":
            m.check(ex is None, "result-raised", tag)
        if res is not None:
            legal = []
            for i in fails:
                e = errs[i] if not (sink == "stdout-merge" and i == n - 1) else b""
                legal.append((case["codes"][i], e))
            m.check((res.exit_code, res.error_bytes) in legal, "pipefail-result", f"{tag} got=({res.exit_code}, {len(res.error_bytes)}B) legal={[(c, len(e)) for c, e in legal]}")
            if ex is not None:
                m.eq(ex.result.exit_code, res.exit_code, "error-carries-result", tag)
            if case["stagger"] or len(fails) == 1:
                m.eq((res.exit_code, res.error_bytes), legal[0], "timing:pipefail-first" if len(fails) > 1 else "pipefail-only", tag)
    m.event("processes", n)
    m.event("bytes", len(data))
    m.sig(n, tuple(fails), kind, sink, group, style, case["where"], "L" if len(data) > 65536 else "s", case["loop"])
