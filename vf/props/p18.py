"P18: process substitution connects sub-commands byte-exactly."
from shellous import ResultError

from ..lib import *

PROP = "P18"
LEVEL = "exploration"
BUDGET = {"quick": 26, "thorough": 300}
TECHNIQUE = "runtime monitoring: data identified by reference pattern/hash on both sides of every substituted path, completion of sub-commands recorded by the children themselves, outcomes compared with a reference"
RULE = (
    "a case is (list of ordinary arguments and sub-commands with shapes, sizes, directions, failures, run style, loop); "
    "distinct = those parameters; every case with at least one sub-command is non-trivial"
)
SIZES = [0, 1, 100, 4096, 8193, 65536, 65537, 140000, 400000]


def gen(rng, tier):
    while True:
        items = []
        nsub = rng.choice([1, 1, 2, 2, 3, 5, 9])
        nfail = 0
        for _ in range(nsub):
            n = rng.choice(SIZES if nsub < 5 else SIZES[:5])
            kind = rng.choice(["read", "read", "write", "write", "copyin", "name", "unused"])
            it = {
                "kind": kind,
                "n": n,
                "seed": rng.randrange(1000),
                "shape": rng.choice(["cmd", "cmd", "chunk", "pipe2", "pipe3", "nested", "input"]),
                "slow": rng.choice([0, 0, 0, 30, 80]),
                "sink": rng.choice(["bytearray", "path", "bytesio"]),
                "fail": None,
            }
            items.append(it)
            if rng.random() < 0.5:
                items.append({"kind": "arg", "text": rng.choice(["41", "4242", "0a", ""])})
        if rng.random() < 0.25:
            for _ in range(rng.choice([1, 1, 2])):
                items.insert(rng.randrange(len(items) + 1), {"kind": "fd", "n": rng.choice(SIZES), "seed": rng.randrange(1000), "fail": None})
        if rng.random() < 0.25:
            it = rng.choice([i for i in items if i["kind"] not in ("arg", "fd")])
            it["fail"] = rng.choice(["exit", "exit", "kill", "missing", "missing-last", "allowed", "nocheck"])
            nfail = 1
        yield {
            "items": items,
            "style": rng.choice(["await", "await", "result", "with", "iter", "first", "last", "gather", "twice", "prompt"]),
            "mainexit": rng.choice([0, 0, 0, 0, 5]),
            "input": rng.choice([0, 1, 5000, 70000, 300000]),
            "mode": rng.choice(["cat", "cat", "hash"]),
            "passclose": rng.random() < 0.4,
            "closefds": rng.choice([None, None, True, False]),
            "loop": pick_loop(rng, 0.6),
            "seed": rng.randrange(1 << 30),
        }


class Side:
    "What a sub-command must have received, or has recorded."

    def __init__(self):
        self.expect = []  # (what, getter, wanted bytes)
        self.fds = []  # passed to the program as they are


def build_read(it, m, tmp, i):
    n, s = it["n"], it["seed"]
    pre = [f"sleep:{it['slow']}"] if it["slow"] else []
    post = [f"touch:{tmp}/done{i}"]
    shape = it["shape"]
    if shape == "chunk":
        pre = ["chunk:" + str(max(1, min(4096, n // 50)))] + pre
    if shape == "pipe2":
        cmd = V(*pre, f"out:{n}:{s}") | V("cat", *post)
    elif shape == "pipe3":
        cmd = V(*pre, f"out:{n}:{s}") | V("cat") | V("aff:1:0", *post)
    elif shape == "nested":
        cmd = V("pmode:cat", V(*pre, f"out:{n}:{s}"), *post)
    elif shape == "input":
        cmd = pat(n, s) | V("cat", *post)
    else:
        cmd = V(*pre, f"out:{n}:{s}", *post)
    return cmd


def build_write(it, m, tmp, i, side, want):
    pre = [f"sleep:{it['slow']}"] if it["slow"] else []
    post = [f"touch:{tmp}/done{i}"]
    shape = it["shape"]
    if it["sink"] == "bytearray":
        sink = bytearray()
        get = lambda: bytes(sink)  # noqa
    elif it["sink"] == "bytesio":
        sink = io.BytesIO()
        get = sink.getvalue
    else:
        sink = tmp / f"sink{i}"
        get = lambda: sink.read_bytes() if sink.exists() else b"<missing>"  # noqa
    if shape == "pipe2":
        cmd = V(*pre, "cat") | V("cat", *post)
    elif shape == "pipe3":
        cmd = V("cat") | V(*pre, "cat") | V("cat", *post)
    else:
        cmd = V(*pre, "cat", *post)
    side.expect.append((i, get, want))
    return (cmd | sink).writable


def broken(it, cmd, i):
    "Make the sub-command fail; return (command, expected exception types/codes)."
    f = it["fail"]
    from shellous.pipeline import Pipeline

    if f == "missing-last" and isinstance(cmd, Pipeline):
        w = cmd.options._writable
        bad = cmd.commands[:-1] + (sh("/nonexistent-vf/x").set(_writable=w),)
        return Pipeline(bad), "missing"
    if f in ("missing", "missing-last"):
        w = cmd.options._writable
        c = sh("/nonexistent-vf/x")
        return (c.writable if w else c), "missing"
    tail = {"exit": "exit:3", "kill": "kill:9", "allowed": "exit:3", "nocheck": "exit:3"}[f]

    def last(c):
        c = c(tail)
        if f == "allowed":
            c = c.set(exit_codes={0, 3})
        elif f == "nocheck":
            c = c.set(_return_result=True, exit_codes=range(-255, 256))
        return c

    if isinstance(cmd, Pipeline):
        return Pipeline(cmd.commands[:-1] + (last(cmd.commands[-1]),)), {"exit": 3, "kill": -9}.get(f)
    return last(cmd), {"exit": 3, "kill": -9}.get(f)


def build(case, m, tmp):
    "The command, what it must print, what the sinks must hold, expected failure."
    side = Side()
    data = pat(case["input"], 77)
    left = data
    args = [f"pmode:{case['mode']}"]
    out = b""
    failure = None
    for i, it in enumerate(case["items"]):
        k = it["kind"]
        if k == "arg":
            args.append("outx:" + it["text"])
            out += bytes.fromhex(it["text"])
            continue
        if k == "fd":
            d = pat(it["n"], it["seed"])
            (tmp / f"in{i}").write_bytes(d)
            side.fds.append(os.open(tmp / f"in{i}", os.O_RDONLY))
            args += [f"pmode:{case['mode']}", f"/dev/fd/{side.fds[-1]}"]
            out += d if case["mode"] == "cat" else fnv_line(d)
            continue
        if k in ("read", "name", "unused"):
            it_ = it if k == "read" else {**it, "n": 0}  # (what is not read would be a broken pipe)
            cmd = build_read(it_, m, tmp, i)
            if it["fail"]:
                cmd, failure = broken(it, cmd, i)
            args += [f"pmode:{'ignore' if k == 'unused' else k if k == 'name' else case['mode']}", cmd]
            d = pat(it_["n"], it_["seed"])
            if k == "read":
                out += d if case["mode"] == "cat" else fnv_line(d)
            elif k == "name":
                out += b"/dev/fd/*\n"
        else:
            if k == "write":
                want = pat(it["n"], it["seed"])
                args.append(f"pmode:write:{it['n']}:{it['seed']}")
            else:
                want, left = left, b""
                args.append("pmode:copyin")
            cmd = build_write(it, m, tmp, i, side, want)
            if it["fail"]:
                cmd, failure = broken(it, cmd, i)
            args.append(cmd)
    args += ["hash", f"exit:{case['mainexit']}"]
    out += fnv_line(left)
    return args, out, side, failure, data


def norm(out):
    "Replace descriptor numbers in names."
    res = b""
    i = 0
    while True:
        j = out.find(b"/dev/fd/", i)
        if j < 0:
            return res + out[i:]
        k = j + 8
        while out[k : k + 1].isdigit():
            k += 1
        if k > j + 8 and out[k : k + 1] == b"\n":
            res += out[i:j] + b"/dev/fd/*"
        else:
            res += out[i:k]
        i = k


async def once(case, m, tmp, style, tag):
    tmp.mkdir()
    args, out, side, failure, data = build(case, m, tmp)
    kw = {"encoding": "latin-1"}
    if case.get("closefds") is not None:
        kw["close_fds"] = case["closefds"]
    if side.fds:
        kw.update(pass_fds=tuple(side.fds), pass_fds_close=case["passclose"])
    cmd = sh.set(exit_codes={0, case["mainexit"]} if style == "iter" else None, **kw)(vpath(), *args)
    cmd = data | cmd
    code = case["mainexit"]
    got = exc = None
    try:
        if style in ("await", "gather", "twice"):
            got = (await cmd).encode("latin-1")
        elif style == "result":
            got = (await cmd.result).output_bytes
        elif style == "with":
            async with cmd.stdout(sh.CAPTURE) as run:
                got = await run.stdout.read()
            run.result()
        elif style == "iter":
            got = "".join([x async for x in cmd]).encode("latin-1")
        elif style == "first":
            got = (await (cmd | V("cat", ctx=sh.set(encoding="latin-1")))).encode("latin-1")
        elif style == "last":
            cmd2 = sh.set(**kw)(vpath(), *args)
            got = (await (V("cat", ctx=sh.set(encoding="latin-1")).stdin(data) | cmd2)).encode("latin-1")
        elif style == "prompt":
            cmd2 = sh.set(**kw)(vpath(), *args)
            async with cmd2.prompt() as cli:
                await cli.send(data, end=None)
                cli.close()
                got = (await cli.read_all()).encode("latin-1")
            if cli.result.exit_code:
                raise ResultError(cli.result)
    except (ResultError, FileNotFoundError, BrokenPipeError, ConnectionResetError) as ex:
        exc = ex
    except RuntimeError as ex:
        if "handler is closed" not in str(ex):
            raise
        exc = ex
    # -- judge
    m.event("runs")
    if side.fds:
        m.event("passed_fds", len(side.fds))
        if not case["passclose"]:
            for fd in side.fds:
                os.close(fd)
    m.event("subcommands", sum(i["kind"] not in ("arg", "fd") for i in case["items"]))
    if failure is None:
        if code and style not in ("iter", "result"):
            if m.check(isinstance(exc, ResultError) and exc.result.exit_code == code, "wrong-outcome", f"{tag}: expected exit code {code}, got {exc!r}"):
                if style in ("await", "gather", "twice"):
                    got = exc.result.output_bytes
            else:
                return
        elif not m.check(exc is None, "unexpected-failure", f"{tag}: {exc!r}"):
            return
        if got is not None:
            m.eq(norm(got), out, "main-output", tag)
        for i, get, want in side.expect:
            m.eq(get(), want, "sub-received", f"{tag}: sub-command {i} {case['items'][i]['shape']}/{case['items'][i]['sink']}")
            m.event("bytes_to_subs", len(want))
        for i, it in enumerate(case["items"]):
            if it["kind"] not in ("arg", "fd") and it["fail"] is None:
                m.check((tmp / f"done{i}").exists(), "sub-not-finished", f"{tag}: the run ended before sub-command {i} ({it['kind']}/{it['shape']}) had finished")
    else:
        m.event("failing_subs")
        codes = {failure, code, -13, 90} - {0}
        if failure == "missing":
            ok = isinstance(exc, FileNotFoundError) or (style in ("with", "prompt", "iter", "first", "last") and isinstance(exc, (BrokenPipeError, ConnectionResetError)))
        else:
            ok = isinstance(exc, ResultError) and exc.result.exit_code in codes
            ok = ok or isinstance(exc, (BrokenPipeError, ConnectionResetError, RuntimeError))
        if exc is not None and isinstance(exc, ResultError) and code and exc.result.exit_code == code:
            ok = True  # the main command failed as well
        if isinstance(exc, (ResultError, BrokenPipeError)) and failure == "missing":
            # the main command may have ended first, of a broken pipe
            ok = ok or not isinstance(exc, ResultError) or exc.result.exit_code in (-13, 90)
        m.check(ok, "sub-failure-lost", f"{tag}: a sub-command fails with {failure}, outcome {exc!r}")
    # (nothing may be left, whatever happened)
    left = [p for p in proc_children() if _alive(p)] if style != "gather" else []
    m.check(not left, "left-running", f"{tag}: {left}")


def _alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(") ", 1)[1][0] not in "ZX"
    except OSError:
        return False


async def run(case, m):
    style = case["style"]
    desc = [(i["kind"], i.get("n"), i.get("shape"), i.get("slow"), i.get("sink"), i.get("fail")) for i in case["items"]]
    tag = f"{style} {case['mode']} exit={case['mainexit']} input={case['input']} {desc}"
    m.sig(style, case["mode"], case.get("closefds"), case.get("passclose"), case["mainexit"], case["input"], desc, case["loop"])
    if style == "gather":
        await asyncio.gather(*[once(case, m, m.tmp / f"g{k}", style, tag) for k in range(4)])
    elif style == "twice":
        for k in range(3):
            await once(case, m, m.tmp / f"t{k}", style, tag)
    else:
        await once(case, m, m.tmp / "r", style, tag)
