"P13: prompt output is conserved: nothing lost, duplicated or reordered."
import re

from shellous import cooked, raw

from ..lib import *

PROP = "P13"
LEVEL = "exploration"
BUDGET = {"quick": 30, "thorough": 400}
TECHNIQUE = "runtime monitoring: online conservation monitor over prompt sessions; cancellation injected at every event loop iteration around data arrival"
RULE = (
    "a case is a prompt session (encoding, newline mode, shape, output, write sizes and delays, operation sequence with timeouts and "
    "cancellations at chosen loop iterations); every session with output and at least one successful read is non-trivial"
)
ASSUMPTIONS = ["patterns are matched against what has been read so far, as documented: a match must be the one some prefix of the output gives"]
PATS = ["$> ", "a", "ab", "\n", "é", "zz9", ["b", "é"], ["$> ", "\n"], ["a\n", "b$"], {"re": "[ab]+\\$"}, {"re": "\\n\\$?> ?"}, {"re": "(?<=a)b"}, {"re": "é.*\\n"}, {"re": "x+"}, "中a", {"re": "never-[0-9]+"}]
UNITS = ["$> ", "a", "b", "ab", "\n", "\r\n", "\r", "é", "中a", "😀", "x", "$", "hello world", "a\n", ">> "]


def gen(rng, tier):
    while True:
        shape = rng.choice(["cmd", "cmd", "cmd", "pipe", "ptyraw", "ptycooked"])
        enc = rng.choice(["utf-8", "utf-8", "latin-1", "utf-16-le", "utf-8 replace", "utf-16"]) if "pty" not in shape else "utf-8"
        n = rng.choice([0, 1, 5, 20, 60, 200, 600, 3000])
        if rng.random() < 0.06:
            n = 30000
        long = n and n <= 600 and rng.random() < 0.35
        ops = []
        for _ in range(rng.choice([1, 3, 6, 12])):
            r = rng.random()
            how = rng.choice(["plain", "timeout", "timeout", "cancel", "cancel", "atimeout"])
            arg = {"plain": None, "timeout": rng.choice([0, 0.001, 0.002, 0.005, 0.02]), "atimeout": rng.choice([0.001, 0.003, 0.01]), "cancel": rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15])}[how]
            if r < 0.6:
                pat_ = rng.choice(PATS)
                if long and rng.random() < 0.6:
                    # a match that extends over many reads
                    pat_ = rng.choice([{"re": "<[^<>]*>"}, {"re": "<[^<>]*>"}, {"lit": [rng.random(), rng.choice([50, 260, 500, 1200])]}])
                    how, arg = rng.choice([("plain", None), ("plain", None), ("timeout", 0.02), (how, arg)])
                ops.append(["expect", pat_, how, arg])
            elif r < 0.68:
                ops.append(["pending", None, "plain", None])
            elif r < 0.78:
                ops.append(["read_all", None, how, arg])
            elif r < 0.90:
                ops.append(["send", rng.choice([1, 1, 100, 5000, 100000]), how, arg])
            elif r < 0.95:
                ops.append(["command", rng.choice([p for p in PATS if not isinstance(p, dict)]), how, arg])
            else:
                ops.append(["sleep", rng.choice([0, 1, 3]), "plain", None])
        bad = enc == "utf-8" and rng.random() < 0.12
        if bad:
            ops = [o if o[2] in ("plain", "timeout") else [o[0], o[1], "timeout", 0.005] for o in ops]
        yield {
            "shape": shape,
            "enc": enc,
            "n": n,
            "long": bool(long),
            "seed": rng.randrange(10**6),
            "norm": rng.random() < 0.4,
            "chunk": rng.choice([1, 2, 3, 7, 64, 1000, 65536]) if n <= 600 else rng.choice([500, 4096, 16384, 65536]),
            "delay": rng.choice([0, 0, 200, 1000]) if not long else rng.choice([0, 20]),
            "sink": rng.random() < 0.5 and shape != "ptyraw",
            "default": rng.random() < 0.3,
            "ops": ops,
            "loop": pick_loop(rng, 0.7) if "pty" not in shape else pick_loop(rng, 0.8, ("debug", "eager", "threaded")),
            "deft": rng.choice([None, None, 12.0, 0.01]),
            "bad": bad,
            "end": "close" if bad else rng.choice(["close", "close", "leave"]),
        }


class Ticker:
    "Calls back after n iterations of the event loop."

    def __init__(self, loop):
        self.left = 0
        self.func = None
        orig = getattr(loop, "_run_once", None)
        self.ok = orig is not None

        def run_once():
            if self.func is not None:
                self.left -= 1
                if self.left <= 0:
                    func, self.func = self.func, None
                    func()
            orig()

        if self.ok:
            loop._run_once = run_once

    def after(self, n, func):
        self.left = n
        self.func = func


def build(case):
    rng = random.Random(case["seed"])
    text = "".join(rng.choice(UNITS) for _ in range(case["n"]))
    if case["long"]:
        out, units = [], [u for u in UNITS if ">" not in u]
        while sum(map(len, out)) < 400 + case["n"]:
            out.append("".join(rng.choice(UNITS) for _ in range(rng.choice([0, 3, 20, 100]))))
            out.append("<" + "".join(rng.choice(units) for _ in range(rng.choice([1, 30, 150, 500, 1500]))) + ">")
        text = "".join(out)
    if case["enc"] == "latin-1":
        text = text.encode("latin-1", "ignore").decode("latin-1")
    return text


def comp(p):
    if isinstance(p, dict):
        return re.compile(p["re"], re.S)
    return p


def regex(p):
    if isinstance(p, dict):
        return re.compile(p["re"], re.S)
    if isinstance(p, list):
        return re.compile("|".join(re.escape(x) for x in p))
    return re.compile(re.escape(p))


class Monitor_:
    "The text the session must hand out, and how far it has got."

    def __init__(self, text, m):
        self.text, self.pos, self.m = text, 0, m

    def take(self, s, what):
        ok = self.text.startswith(s, self.pos)
        i = self.pos
        self.m.check(ok, "not-conserved", f"{what} gave {s[:60]!r} (len {len(s)}) at {i}, the child wrote {self.text[i:i + 60]!r}")
        self.pos += len(s)
        return ok

    def pending(self, cli, what):
        p = cli.pending
        self.m.check(self.text.startswith(p, self.pos), "not-conserved", f"after {what}: pending {p[:60]!r} (len {len(p)}) at {self.pos}, the child wrote {self.text[self.pos:self.pos + 60]!r}")

    def match(self, pat, out, mt, what):
        rx = regex(pat)
        rest = self.text[self.pos:]
        s, e = len(out), len(out) + len(mt[0])
        if not self.take(out + mt[0], what):
            return
        # Some prefix of the unread text gives this match.
        for k in {e, e + 1, e + 2, len(rest), *(min(len(rest), e + d) for d in (16, 64, 256, 1024))}:
            f = rx.search(rest[:k])
            if f and f.span() == (s, e):
                return
        if len(rest) < 5000:
            for k in range(e, len(rest) + 1):
                f = rx.search(rest[:k])
                if f and f.span() == (s, e):
                    return
        elif isinstance(pat, dict):
            return
        self.m.viol("not-first-match", f"{what}: matched {mt[0]!r} at {s} of {rest[:80]!r}")


async def run(case, m):
    text = build(case)
    enc = case["enc"].split()
    data = text.encode(enc[0])
    if case["bad"]:
        # What follows the undecodable byte must never be handed out.
        cut = len(text) // 2
        text = text[:cut]
        data = text.encode() + b"\xff" + build(case)[cut:].encode()
    f = m.tmp / "data"
    f.write_bytes(data)
    want = text
    if case["shape"] == "ptycooked":
        want = want.replace("\n", "\r\n")
    if case["norm"]:
        want = want.replace("\r\n", "\n").replace("\r", "\n")
    ops = [f"chunk:{case['chunk']}", f"delay:{case['delay'] if case['n'] < 4000 else 0}", f"catf:{f}"]
    if case["sink"]:
        ops.append("sink")
    cmd = sh.set(encoding=case["enc"])(vpath(), *ops)
    if case["shape"] == "pipe":
        cmd = sh.set(encoding=case["enc"])(vpath(), "cat") | cmd if not case["sink"] and case["seed"] % 2 else cmd | sh.set(encoding=case["enc"])(vpath(), "cat")
    elif case["shape"] == "ptyraw":
        cmd = cmd.set(pty=raw())
    elif case["shape"] == "ptycooked":
        cmd = cmd.set(pty=cooked(echo=False))
    dead = (BrokenPipeError, ConnectionResetError) + ((RuntimeError,) if case["loop"] == "uvloop" else ())
    for o in case["ops"]:
        if isinstance(o[1], dict) and "lit" in o[1]:
            i = int(o[1]["lit"][0] * len(want))
            o[1] = want[i : i + o[1]["lit"][1]] or "x"
    tick = Ticker(asyncio.get_running_loop())
    mon = Monitor_(want, m)
    m.sig(case["shape"], case["long"], case["enc"], case["norm"], case["chunk"], case["delay"], case["sink"], [(o[0], str(o[1]), o[2]) for o in case["ops"]])
    m.trivial = not text
    eof_seen = False
    try:
        unsure = await session(case, m, cmd, want, mon, tick, dead)
        m.check(not case["bad"] or unsure, "decode-error-lost", "the output cannot be decoded, but no operation said so")
    except UnicodeDecodeError as ex:
        m.event("decode_error")
        m.check(case["bad"], "stray-decode-error", repr(ex))
    except dead:
        m.event("session_broken_pipe")
        m.check(not case["sink"] or case["shape"] == "pipe" or case["bad"], "stray-broken-pipe", "session")


async def session(case, m, cmd, want, mon, tick, dead):
    eof_seen = False
    async with cmd.prompt("$> " if case["default"] else None, normalize_newlines=case["norm"], timeout=case["deft"]) as cli:
        for name, arg, how, par in case["ops"]:
            what = f"{name}({arg!r}) {how}={par}"
            pat_ = arg
            if name in ("expect", "command") and case["default"] and arg == "$> ":
                arg = None
            blocked = name in ("expect", "read_all", "command") and case["sink"]
            if how == "plain" and blocked:
                how, par = "timeout", 0.01
            if how == "timeout" and case["deft"] == 0.01 and par:
                how = "default"
            if how == "cancel" and not tick.ok:
                how, par = "atimeout", 0.002
            tmo = {"timeout": par} if how == "timeout" else {}
            if name == "expect":
                co = cli.expect(comp(arg), **tmo)
            elif name == "command":
                co = cli.command("x", prompt=comp(arg), **tmo)
            elif name == "read_all":
                co = cli.read_all(**tmo)
            elif name == "send":
                n_ = min(arg, 200) if "pty" in case["shape"] else arg
                co = cli.send("y" * n_, **tmo)
            elif name == "pending":
                p = cli.pending
                got = cli.read_pending()
                m.check(p == got and cli.pending == "", "pending-differs", what)
                mon.take(got, what)
                continue
            else:
                await asyncio.sleep(arg / 1000)
                mon.pending(cli, what)
                continue
            m.event("op_" + name)
            t0 = time.monotonic()
            try:
                if how == "cancel":
                    task = asyncio.get_running_loop().create_task(co)
                    tick.after(par, task.cancel)
                    # the cancellation may come too late to do anything
                    safety = asyncio.get_running_loop().call_later(0.05, task.cancel)
                    try:
                        res = await task
                    finally:
                        tick.func = None
                        safety.cancel()
                elif how == "atimeout":
                    async with asyncio.timeout(par):
                        res = await co
                else:
                    res = await co
            except asyncio.CancelledError:
                m.event("cancelled_" + name)
                m.check(how == "cancel", "stray-cancel", what)
                mon.pending(cli, what)
            except TimeoutError:
                m.event("timeout_" + name)
                m.check(how in ("timeout", "atimeout") or case["deft"] == 0.01, "stray-timeout", what)
                mon.pending(cli, what)
                m.check(time.monotonic() - t0 < 4, "timing:timeout-late", f"{what}: took {time.monotonic() - t0:.1f}s")
                if name == "expect" and how in ("timeout", "default"):
                    m.check(regex(pat_).search(cli.pending) is None, "timeout-with-match", f"{what}: pending {cli.pending[:80]!r}")
                if case["bad"] and name in ("send", "command"):
                    return True  # one error may hide another
            except EOFError:
                m.event("eof")
                eof_seen = True
                rest = want[mon.pos:]
                if name == "expect":
                    m.check(regex(pat_).search(rest) is None, "eof-with-match", f"{what}: rest {rest[:80]!r}")
                m.check(cli.pending == rest, "eof-not-all", f"{what}: pending {cli.pending[:60]!r}/{len(cli.pending)} rest {rest[:60]!r}/{len(rest)}")
            except dead as ex:
                m.event("broken_pipe")
                m.check(name in ("send", "command"), "stray-broken-pipe", f"{what}: {ex!r}")
                if case["bad"]:
                    return True
                mon.pending(cli, what)
            else:
                m.event("done_" + name)
                if name == "expect":
                    mon.match(pat_, res[0], res[1], what)
                elif name == "command":
                    # the match itself is not handed out: find it
                    if mon.take(res, what):
                        mt = regex(pat_).match(want, mon.pos)
                        if mt is None:
                            m.viol("no-match-there", f"{what} gave {res[:60]!r}, then {want[mon.pos:mon.pos+40]!r}")
                        else:
                            left = len(cli.pending)
                            # (the extent of an open-ended match depends on what had been read)
                            ends = [e for e in range(mon.pos, len(want) + 1) if regex(pat_).fullmatch(want, mon.pos, e)][:200]
                            ends = [e for e in ends if want.startswith(cli.pending, e)]
                            m.check(bool(ends), "not-conserved", f"{what}: pending {cli.pending[:60]!r} does not follow a match")
                            if len(ends) != 1 and len(set(ends)) > 1:
                                m.event("ambiguous_extent")
                                return
                            mon.pos = ends[0] if ends else mon.pos
                elif name == "read_all":
                    eof_seen = True
                    mon.take(res, what)
                    m.eq(mon.pos, len(want), "read_all-not-all", what)
                mon.pending(cli, what)
            if cli.at_eof:
                m.check(mon.pos == len(want), "at-eof-early", f"{what}: at_eof with {len(want) - mon.pos} characters missing")
            if case["bad"]:
                continue
            if eof_seen and not cli.pending:
                m.check(cli.at_eof, "at-eof-late", f"{what}: output ended, nothing pending, at_eof is False")
        if case["end"] == "close" or case["sink"]:
            if "pty" not in case["shape"] or case["sink"]:
                cli.close()
            got = await cli.read_all(timeout=25)
            mon.take(got, "final read_all")
            m.eq(mon.pos, len(want), "lost-at-end", "position after read_all")
            m.check(cli.at_eof, "at-eof-late", "at_eof is False after read_all")
            m.eq(await cli.read_all(timeout=25), "", "read-after-eof", "second read_all")
            for again in ("expect", "command"):
                try:
                    await (cli.expect("zz9") if again == "expect" else cli.command("zz9", prompt="zz9"))
                    m.viol("no-eof-error", again)
                except EOFError:
                    m.event("oracle_checks")
        else:
            # unread output must not keep the child from ending
            while len(want) > 15000 and not cli.at_eof and mon.pos < len(want):
                got = await cli.read_all(timeout=25)
                mon.take(got, "drain")
    m.check(isinstance(cli.result.exit_code, int), "no-result", "cli.result")
