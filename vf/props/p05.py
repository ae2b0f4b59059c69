"P05: exit status reported exactly; ResultError raised exactly when due."
import asyncio
import collections
import signal

import shellous
from shellous import sh, Result, ResultError

from ..lib import *

PROP = "P05"
LEVEL = "exploration"
BUDGET = {"quick": 24, "thorough": 240}
TECHNIQUE = "runtime monitoring: exit-status oracle over all statuses, signals and exit-code containers"
RULE = (
    "a case is (exit status or fatal signal, allowed exit-code container, run style, stderr/stdout volume, loop); "
    "all 256 statuses and all fatal signals are enumerated; every case is non-trivial (a real child exits)"
)
SIGS = [1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 27, 31, 34, 40, 64]
# Signals sent by the caller while the child runs or after it has exited but has
# not been collected yet; `-` in the second field means the signal kills it.
SENT = ["alive-exit", "alive-die", "dead-signal", "dead-cancel", "dead-kill"]
STYLES = ["await", "result", "ctxresult", "with", "iter", "prompt", "setresult", "pipe", "pty", "within"]
CONT = ["none", "none", "zero", "exact", "other", "range256", "range-neg", "list", "empty", "frozen", "dict", "obj"]


class Odd:
    "A container that only supports `in`."

    def __init__(self, items):
        self.items = items

    def __contains__(self, x):
        return x in self.items


def gen(rng, tier):
    for status in range(256):
        yield {"st": status, "cont": "none", "style": ["await", "result"][status % 2], "err": 0, "out": 3, "loop": "default", "must": True}
    for s in SIGS:
        for style in ("await", "result", "with"):
            yield {"st": -s, "cont": rng.choice(CONT), "style": style, "err": 5, "out": 3, "loop": "default", "must": True}
    for style in STYLES:
        for cont in sorted(set(CONT)):
            for st in (0, 1, -9):
                yield {"st": st, "cont": cont, "style": style, "err": 5, "out": 9, "loop": "default", "must": True}
    for sent in SENT:
        for st in (0, 1, 127, 128, 254, 255):
            for loop in ("default", "threaded", "shw", "uvloop"):
                yield {"st": st, "cont": "none", "style": "sent", "sent": sent, "err": 0, "out": 0, "loop": loop, "must": True}
    while True:
        yield {
            "st": rng.choice([0, 1, 2, 126, 127, 128, 254, 255, rng.randrange(256), -rng.choice(SIGS)]),
            "cont": rng.choice(CONT),
            "style": rng.choice(STYLES),
            "err": rng.choice([0, 5, 1024, 1025, 9000]),
            "out": rng.choice([0, 9, 9000, 70000]),
            "loop": pick_loop(rng, 0.5),
        }


def container(kind, st):
    return {
        "none": None,
        "zero": {0},
        "exact": {st},
        "other": {st + 1, st - 1, 300},
        "range256": range(256),
        "range-neg": range(-255, 256),
        "list": [0, 1, st],
        "empty": set(),
        "frozen": frozenset({1, 2, 3}),
        "dict": {st: "x"},
        "obj": Odd([st] if st % 2 else [0]),
    }[kind]


async def run(case, m):
    st, cont, style = case["st"], case["cont"], case["style"]
    if style == "sent":
        return await run_sent(case, m)
    if style == "pty" and case["loop"] == "uvloop":
        m.trivial = True  # ptys are not supported by uvloop
        return
    end = f"kill:{-st}" if st < 0 else f"exit:{st}"
    ops = [f"out:{case['out']}:1", f"err:{case['err']}:2", end]
    allowed = container(cont, st)
    cmd = V(*ops).set(encoding="latin-1")
    if cont != "none" or st % 3:
        cmd = cmd.set(exit_codes=allowed)
    ok = st in (allowed if allowed is not None else {0})
    out = pat(case["out"], 1)
    err = pat(case["err"], 2)[:1024]
    tag = f"{style} status={st} exit_codes={cont}"
    res = ex = None
    value = None
    try:
        if style == "await":
            value = await cmd
            m.eq(value, out.decode("latin-1"), "awaited-value", tag)
        elif style == "result":
            res = await cmd.result
            ok = True
        elif style == "ctxresult":
            res = await sh.set(encoding="latin-1").result(vpath(), *ops)
            ok = True
        elif style == "setresult":
            # Result returned, but exit codes still checked
            res = await cmd.set(_return_result=True)
        elif style == "with":
            async with cmd.stdout(sh.CAPTURE) as r:
                data = await r.stdout.read()
                m.eq(data, out, "with-output", tag)
            plain = r.result(check=False)
            m.eq(plain.exit_code, st, "exit-code", tag)
            m.eq(r.returncode, st, "returncode", tag)
            out = b""
            res = r.result()
        elif style == "within":
            # async with, no capture: result carries both buffers
            async with cmd as r:
                pass
            res = r.result()
        elif style == "iter":
            lines = []
            async for line in cmd:
                lines.append(line)
            m.eq("".join(lines).encode("latin-1"), out, "iter-output", tag)
            out = b""
            # The iterator checks no exit code: it never calls result().
            ok = None
        elif style == "prompt":
            async with cmd.prompt() as cli:
                try:
                    cli.result
                    m.viol("prompt-result-early", tag)
                except RuntimeError:
                    pass
                data = await cli.read_all()
                m.eq(data.encode("latin-1"), out, "prompt-output", tag)
            res = cli.result
            out = b""
            ok = True
        elif style == "pipe":
            pipe = V("out:10:9") | V("sink", *ops).set(encoding="latin-1", exit_codes=allowed, _return_result=True)
            res = await pipe
        elif style == "pty":
            from shellous import raw

            out, err = b"ab", b""
            res = await V(f"outx:6162", end).set(pty=raw(), exit_codes=allowed, _return_result=True)
    except ResultError as e:
        ex = e
        res = e.result
    if ok is None:
        m.event("iter_runs")
        if ex is not None:
            ok = False  # accepted either way, result checked below
        else:
            m.sig(st, cont, style)
            m.check(True, "iter")
            return
    m.event("raised" if ex else "returned")
    m.eq(ex is None, ok, "raise-iff-not-allowed", tag)
    if res is not None:
        m.check(isinstance(res, Result), "result-type", tag)
        m.eq(res.exit_code, st, "exit-code", tag)
        m.eq(res.output_bytes, out, "result-output", tag)
        m.eq(res.error_bytes, err, "result-error", tag)
        m.eq(res.cancelled, False, "cancelled-flag", tag)
        m.eq(bool(res), st == 0, "truthiness", tag)
        want_sig = None if st >= 0 else -st
        if want_sig is None:
            m.eq(res.exit_signal, None, "exit-signal", tag)
        else:
            try:
                got = res.exit_signal
            except ValueError:
                # real-time signals without a name in signal.Signals
                got = -st if (-st) not in set(signal.Signals) else "ValueError"
            m.eq(int(got) if got is not None else None, want_sig, "exit-signal", tag)
        m.eq(res.output, out.decode(res.encoding.split()[0], "replace"), "output-text", tag)
    m.sig(st if (abs(st) < 4 or st < 0) else st // 16, cont, style, bool(case["err"]), case["loop"])


async def run_sent(case, m):
    "The caller signals the child while it runs, or after it exited (not yet collected)."
    st, sent = case["st"], case["sent"]
    tag = f"{sent} status={st} loop={case['loop']}"
    if sent == "alive-exit":
        ops = [f"trap:10:{st}", "outx:41", "pause"]
        want = st
    elif sent == "alive-die":
        ops = ["outx:41", "pause"]
        want = -10
    else:
        ops = ["outx:41", f"exit:{st}"]
        want = st
    cmd = V(*ops).stdout(sh.CAPTURE)
    if sent == "dead-kill":
        cmd = cmd.set(cancel_signal=None)
    async with cmd as run:
        m.eq(await run.stdout.readexactly(1), b"A", "sent-output", tag)
        if sent.startswith("dead"):
            # Let the child become a zombie without giving the loop a chance to run.
            end = time.monotonic() + 5
            while time.monotonic() < end:
                try:
                    state = Path(f"/proc/{run.pid}/stat").read_bytes().rsplit(b")", 1)[1].split()[0]
                except (FileNotFoundError, ProcessLookupError):
                    state = b"-"  # a watcher thread collected it
                if state in (b"Z", b"-"):
                    break
                time.sleep(0.001)
            m.event("zombie_at_signal", state == b"Z")
        if sent in ("alive-exit", "alive-die", "dead-signal"):
            run.send_signal(signal.SIGUSR1)
        else:
            run.cancel()
    res = run.result(check=False)
    m.eq(res.exit_code, want, "exit-code-after-signal", tag)
    m.eq(run.returncode, want, "returncode-after-signal", tag)
    m.eq(res.cancelled, False, "cancelled-flag", tag)
    m.event("signalled_runs")
    m.sig("sent", sent, st, case["loop"])
