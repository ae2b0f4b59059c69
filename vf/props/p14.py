"P14: Prompt.send delivers exact bytes without deadlock."
import itertools
import logging

from shellous import cooked, raw

from ..lib import *
from .p11 import Warp

PROP = "P14"
LEVEL = "exploration"
BUDGET = {"quick": 28, "thorough": 300}
TECHNIQUE = (
    "runtime monitoring: byte counts and hashes reported by the child versus the list of sends, conservation of the output read meanwhile, "
    "terminal echo observed at the moment of each write, log records searched for secrets"
)
RULE = (
    "a case is a session (child, shape, encoding, list of sends with sizes, endings, str/bytes, timeouts and cancellations); "
    "sessions that send at least one byte count; distinct = those parameters"
)
WATCHDOG = 60


def env_of(shard):
    "Half of the workers run with every log enabled."
    return {"SHELLOUS_TRACE": "all"} if shard % 2 else {}


def gen(rng, tier):
    while True:
        kind = rng.choice(["hash", "hash", "cat", "cat", "flood", "slow", "lines", "ptyraw", "ptycooked", "secret", "secret", "secretcmd"])
        if rng.random() < 0.02:
            kind = "neveroff"
        pty = kind in ("ptyraw", "ptycooked", "secret", "secretcmd", "neveroff")
        enc = rng.choice(["utf-8", "utf-8", "latin-1", "utf-16-le", "utf-8 surrogateescape", "ascii replace"]) if not pty else "utf-8"
        sends = []
        total = 0
        for _ in range(rng.choice([1, 2, 3, 6, 15])):
            n = rng.choice([0, 1, 5, 80, 1000, 4095, 4096, 20000, 65536, 65537, 140000, 400000])
            if kind == "ptycooked":
                n = rng.choice([0, 1, 5, 80, 1000, 2000])
            elif kind == "ptyraw":
                n = rng.choice([0, 1, 5, 80, 1000, 4095, 4096, 4097, 20000])
            elif kind in ("lines", "slow"):
                n = rng.choice([0, 1, 5, 80, 1000, 5000])
            if total + n > 1_200_000:
                n = 10
            total += n
            sends.append(
                {
                    "n": n,
                    "what": rng.choice(["str", "str", "bytes", "uni"]),
                    "end": rng.choice(["default", "default", None, "", "\r\n", "END", "é!" if enc not in ("ascii replace",) else "!"]) if kind != "ptycooked" else rng.choice(["default", "default", "\n\n"]),
                    "how": rng.choice(["plain", "plain", "plain", "timeout", "cancel", "atimeout"]),
                    "par": rng.choice([0, 1, 2, 3, 5, 8]),
                    "then": rng.choice([None, None, None, "pending", "sleep", "read"]),
                }
            )
        if kind == "lines" and enc == "utf-16-le":
            enc = "latin-1"
        yield {
            "kind": kind,
            "pipe": not pty and rng.random() < 0.2,
            "enc": enc,
            "sends": sends,
            "flood": rng.choice([0, 1000, 70000, 200000, 700000]),
            "seed": rng.randrange(1 << 30),
            "deft": rng.choice([None, None, 20.0]),
            "norm": kind in ("hash", "ptycooked") and rng.random() < 0.3,
            "offms": rng.choice([0, 0, 30, 120, 400]),
            "preset": rng.random() < 0.3,
            "loop": pick_loop(rng, 0.6) if not pty else pick_loop(rng, 0.7, ("debug", "eager", "threaded", "shw")),
            "wd": 60.0,
        }


def content(s, rng, kind, enc):
    n = s["n"]
    if kind in ("ptycooked",):
        data = "".join(rng.choice("abcdefghij KLMN0123") for _ in range(n))
        return data if s["what"] != "bytes" else data.encode()
    if s["what"] == "bytes":
        if kind == "lines":
            return bytes(rng.choice(b"abcdefgh ") for _ in range(n))
        if kind not in ("cat", "slow"):
            return pat(n, s["n"] % 97)
        # (comes back decoded)
        return bytes(x & 0x7F for x in pat(n, 3)) if enc != "utf-16-le" else ("xyz" * (n // 6)).encode(enc)
    alpha = "abcXYZ 0123\t;'\"$"
    if kind not in ("lines",):
        alpha += "\n"
    if s["what"] == "uni" and enc not in ("ascii replace",):
        alpha += "éßñ" if enc == "latin-1" else "éß中😀" + ("\udc80" if "surrogateescape" in enc and kind not in ("cat", "slow") else "")
    blk = "".join(rng.choice(alpha) for _ in range(min(n, 997)))
    return (blk * (n // 997 + 1))[:n] if n else ""


def encode(text, enc):
    e = enc.split()
    return text.encode(*e)


class LogTrap(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


async def run(case, m):
    kind = case["kind"]
    logger = logging.getLogger("shellous")
    trap = LogTrap()
    old = logger.level, logger.propagate
    logger.setLevel(logging.DEBUG)
    logger.propagate = False
    logger.addHandler(trap)
    try:
        if kind in ("secret", "secretcmd", "neveroff"):
            await secret(case, m, trap)
        else:
            await sends(case, m, trap)
    finally:
        logger.removeHandler(trap)
        logger.setLevel(old[0])
        logger.propagate = old[1]


async def sends(case, m, trap):
    kind, enc = case["kind"], case["enc"]
    rng = random.Random(case["seed"])
    out = b""
    flood = case["flood"] if kind == "flood" else 0
    ops = []
    if kind in ("hash", "ptycooked"):
        ops = ["hash2" if kind == "hash" else "hash"]
    elif kind == "cat":
        ops = ["cat"]
    elif kind == "flood":
        ops = [f"out:{flood}:3", "hash2"]
    elif kind == "slow":
        ops = ["rchunk:512", "delay:50", "cat"]
    elif kind == "lines":
        ops = ["echo:3e"]
    senc = enc
    if kind == "flood":
        senc = enc = "latin-1"
    plan = []
    for s in case["sends"]:
        c = content(s, rng, kind, enc)
        end = "\n" if s["end"] == "default" else s["end"]
        data = (c if isinstance(c, bytes) else encode(c, enc)) + encode(end or "", enc)
        plan.append((s, c, data))
    everything = b"".join(p[2] for p in plan)
    m.trivial = not everything
    if kind == "ptyraw":
        ops = [f"hash:{len(everything)}"]
    base = sh.set(encoding=senc)
    err = bytearray()
    cmd = base(vpath(), *ops)
    if kind in ("hash", "flood"):
        cmd = cmd.stderr(err)
    if kind == "ptyraw":
        cmd = cmd.set(pty=raw())
    elif kind == "ptycooked":
        cmd = cmd.set(pty=cooked(echo=False))
    if case["pipe"]:
        cmd = base(vpath(), "cat") | cmd if rng.random() < 0.5 or kind == "flood" else cmd | base(vpath(), "cat")
    m.sig(kind, case["pipe"], enc, case["flood"], [(s["n"], s["what"], s["end"], s["how"], s["par"], s["then"]) for s in case["sends"]], case["loop"])
    tag = f"{kind} pipe={case['pipe']} enc={enc}"
    got = []
    unsure = []
    if kind == "ptyraw" and not everything:
        return
    async with cmd.prompt(normalize_newlines=case["norm"], timeout=case["deft"]) as cli:
        loop = asyncio.get_running_loop()
        for i, (s, c, data) in enumerate(plan):
            if kind == "ptyraw":  # (the child waits for a certain number of bytes)
                s = {**s, "how": "plain"}
            kw = {} if s["end"] == "default" else {"end": s["end"]}
            how = s["how"]
            # A session whose output nobody reads meanwhile must go on.
            try:
                if how == "timeout":
                    await cli.send(c, timeout=s["par"] / 1000, **kw)
                elif how == "atimeout":
                    async with asyncio.timeout(s["par"] / 1000):
                        await cli.send(c, **kw)
                elif how == "cancel":
                    task = loop.create_task(cli.send(c, **kw))
                    for _ in range(s["par"]):
                        await asyncio.sleep(0)
                    task.cancel()
                    await task
                else:
                    await cli.send(c, **kw)
                m.event("sent_calls")
            except TimeoutError:
                m.event("send_timeouts")
                unsure.append(i)
                m.check(how in ("timeout", "atimeout"), "stray-timeout", f"{tag} send {i}: {s}")
            except asyncio.CancelledError:
                m.event("send_cancels")
                unsure.append(i)
                m.check(how == "cancel", "stray-cancel", f"{tag} send {i}: {s}")
            m.event("bytes_sent", len(data))
            if s["then"] == "pending":
                got.append(cli.read_pending())
            elif s["then"] == "sleep":
                await asyncio.sleep(0.002)
            elif s["then"] == "read":
                try:
                    got.append(await cli.read_all(timeout=0.002))
                    m.check(kind == "ptyraw", "early-eof", f"{tag}: output ended before the session was closed")
                except TimeoutError:
                    pass
        if kind != "ptyraw":
            cli.close()
        got.append(await cli.read_all(timeout=40))
    res = cli.result
    m.eq(res.exit_code, 0, "exit", tag)
    text = "".join(got)
    # Calls that were cut short may have sent all or nothing.
    options = []
    for keep in itertools.islice(itertools.product([True, False], repeat=len(unsure)), 256):
        drop = {i for i, k in zip(unsure, keep) if not k}
        options.append(b"".join(p[2] for j, p in enumerate(plan) if j not in drop))
    if kind in ("hash", "ptycooked", "ptyraw", "flood"):
        if kind == "flood":
            m.eq(text.encode("latin-1"), pat(flood, 3), "output-lost", tag)
            said = bytes(err)
        else:
            said = bytes(err) if kind == "hash" else text.replace("\r\n", "\n").encode()
            if kind == "hash":
                m.eq(text, "", "stray-output", tag)
        want = [fnv_line(o) for o in options]
        m.check(said in want, "not-delivered", f"{tag}: the child read {said!r}, expected {want[0]!r}; sends {[(s['n'], s['what'], s['end'], s['how']) for s, _, _ in plan]}")
    else:
        if kind == "lines":
            want = [o.replace(b"\n", b">") for o in (x[: x.rfind(b"\n") + 1] for x in options)]
            if senc == "utf-16-le":
                return
        else:
            want = options
        e = senc.split()
        want = [w.decode(*e) for w in want]
        m.check(text in want, "not-delivered", f"{tag}: got {len(text)} characters back, expected {len(want[0])}: {text[:60]!r} {want[0][:60]!r}")


async def secret(case, m, trap):
    kind = case["kind"]
    rng = random.Random(case["seed"])
    off = case["offms"]
    word = "s3cr" + "".join(rng.choice("ABCDEFGHJKLMNPQRSTUVWXYZ") for _ in range(rng.choice([6, 30, 2500])))
    if kind == "neveroff":
        word = word[:20]
    if len(word) > 2000 and rng.random() < 0.5:
        word = word[:1500]
    ops = []
    if kind == "neveroff":
        ops = ["outx:" + b"Password: ".hex(), "hash"]
    else:
        if case["preset"]:
            ops = ["noecho", "outx:" + b"Password: ".hex()]
        else:
            ops = ["outx:" + b"Password: ".hex(), f"sleep:{off}", "noecho"]
        ops += [f"hash:{len(word) + 1}", "outx:" + b"ok> ".hex(), "hash"]
    cmd = V(*ops).set(pty=cooked(echo=True))
    m.sig(kind, off, case["preset"], len(word), case["loop"])
    loop = asyncio.get_running_loop()
    echo_at_write = []
    async with cmd.prompt() as cli:
        await cli.expect("Password: ", timeout=20)
        stdin = cli._runner.stdin
        orig = stdin.write

        def write(data):
            if word[:8].encode() in data:
                echo_at_write.append(cli.echo)
            return orig(data)

        stdin.write = write
        if kind == "neveroff":
            # The wait is long: let the loop's clock run fast.
            w = Warp(loop)

            def faster():
                w.off += 0.02

            w.each = faster
            try:
                await cli.send(word, no_echo=True)
                m.viol("sent-with-echo", "send(no_echo=True) returned although echo was never turned off")
            except RuntimeError:
                m.event("no_echo_refused")
            finally:
                w.each = None
                w.close()
            m.check(not echo_at_write, "sent-with-echo", "the text was written")
            cli.close()
            rest = await cli.read_all(timeout=4000)
            m.check(fnv_line(b"").strip().decode() in rest, "sent-with-echo", f"the child read {rest!r}, expected nothing")
        elif kind == "secretcmd":
            ans = await cli.command(word, no_echo=True, prompt="ok> ", timeout=20)
            m.check(fnv_line(word.encode() + b"\n").strip().decode() in ans, "not-delivered", f"{ans[:80]!r}")
            m.check(word[:8] not in ans, "echoed", f"{ans[:80]!r}")
        else:
            await cli.send(word, no_echo=True, timeout=20)
            ans, _ = await cli.expect("ok> ", timeout=20)
            m.check(fnv_line(word.encode() + b"\n").strip().decode() in ans, "not-delivered", f"{ans[:80]!r}")
            m.check(word[:8] not in ans, "echoed", f"{ans[:80]!r}")
        if kind != "neveroff":
            await cli.send("public-text")
            cli.close()
            rest = await cli.read_all(timeout=20)
            m.check(fnv_line(b"public-text\n").strip().decode() in rest, "not-delivered", f"{rest!r}")
            m.check(word[:8] not in rest, "echoed", f"{rest[:80]!r}")
    m.check(not any(echo_at_write), "sent-with-echo", f"terminal echo was on when the text was written (after {off} ms)")
    m.event("secret_writes", len(echo_at_write))
    m.event("log_records", len(trap.lines))
    leaks = [x for x in trap.lines if word[:12] in x or word[-12:] in x]
    m.check(not leaks, "secret-logged", f"{leaks[:1]!r}"[:300])
    if os.environ.get("SHELLOUS_TRACE"):
        m.check(len(trap.lines) > 5, "no-log", "the log is empty although tracing is on")
