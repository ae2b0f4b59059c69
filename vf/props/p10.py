"P10: cancellation stops the command and always surfaces to the caller."
import signal

from ..lib import *
from ..sweep import *

PROP = "P10"
LEVEL = "fault_enumeration"
BUDGET = {"quick": 32, "thorough": 400}
TECHNIQUE = "runtime monitoring: cancellation injected at every suspension point; outcome, signal protocol and exit status checked against the child's own signal log and the recorded signal trace"
RULE = (
    "a run is (command shape, behaviour, style, cancel options, cancellation points); runs in which at least one "
    "cancel request reached the task count; distinct = (shape, commands, style, behaviour, fault, outcome, redirections)"
)
BEHAVES = ["ok", "fail", "die", "hang", "hang", "trap", "trap", "ign", "ign", "log", "log", "flood", "flooderr", "noread", "slow"]
CONFIRM = ("timing",)
MODES = ["cancel", "cancel", "cancel", "cancel2", "cancel3"]


def protocol_cases(rng):
    "Processes that need the whole cancel protocol, for every kind of cancel_timeout."
    out = []
    for shape in ("cmd", "cmd", "pipe"):
        for behave in ("ign", "log"):
            for ct in (0, 0.0, 0.3):
                case = next(gen_sweep(rng, "quick", [behave], modes=["cancel", "cancel2"], shapes=[shape]))
                case["spec"].update(ct=ct, body="read", sig=rng.choice([15, 2]))
                case["max"] = 5
                out.append(case)
    rng.shuffle(out)
    return out


def gen(rng, tier):
    must = protocol_cases(rng)
    for i, case in enumerate(gen_cases(rng, tier)):
        if must and i % 2 == 0:
            yield must.pop()
        yield case


def gen_cases(rng, tier):
    for case in gen_sweep(rng, tier, BEHAVES, fails=0.1, modes=MODES):
        if rng.random() < 0.12:
            case["mode"] = "wrap"
            case["wrap"] = rng.choice(["wait_for", "timeout", "taskgroup", "gather"])
            case["spec"]["behave"] = rng.choice(["hang", "trap", "ign", "flood"])
            case["spec"]["body"] = "read"
            if case["spec"]["shape"] in ("pty", "ptypipe"):
                continue  # closing the stdin of a pty ends the child
            case["spec"].pop("fail", None)
            if case["spec"]["behave"] == "ign":
                case["spec"]["ct"] = 0.05
        if case["spec"]["behave"] in ("ign", "log", "trap", "hang") and rng.random() < 0.2:
            case["spec"]["ct"] = rng.choice([0, 0.0, 0.01])  # (SIGKILL follows at once)
        yield case


def name_of(sig):
    return "SIGKILL" if sig is None else signal.Signals(sig).name


async def run(case, m):
    spec = case["spec"]
    if case["mode"] == "wrap":
        return await run_wrap(case, m)
    first = name_of(spec.get("sig", 15))
    behave = spec["behave"]
    own_end = spec["style"] in ("with", "withcap", "iter", "prompt") and spec["body"] in ("raise", "readraise", "early", "cancelrun")
    fail = spec.get("fail")

    def judge(o, f, tag):
        if not o.cancel_sent:
            return
        m.event("cancelled_runs")
        m.event("oracle_checks")
        kind, what = o.outcome[:2]
        # The request must surface.
        if kind == "value":
            m.viol("cancel-swallowed", f"{tag}: {len(o.cancel_sent)} cancel request(s) sent before the end, but the run returned a value")
        elif what != "CancelledError":
            allowed = set()
            if o.base is not None and o.base.outcome[0] == "raise" and not o.base.cancel_sent:
                allowed.add(o.base.outcome[1])
            if own_end and spec["body"] in ("raise", "readraise"):
                allowed.add("Boom")
            if fail:
                allowed.add(o.sc.expect_exc)
            m.check(what in allowed, f"cancel-replaced:{what}", f"{tag}: cancelled, but raised {o.exc_text} (uncancelled run raises {sorted(map(str, allowed))})")
        m.eq(o.cancelling, spec.get("pre", 0) + len(o.cancel_sent), "cancel-count", tag)
        if what == "CancelledError" and o.sc.run is not None and not fail:
            # The result of the block says so too.
            m.event("oracle_checks")
            m.event("results_of_cancelled_blocks")
            try:
                r = o.sc.run.result(check=False)
            except Exception:
                r = None
            m.check(r is None or r.cancelled, "result-not-cancelled", f"{tag}: the block was cancelled, but its result says {r!r:.200}")
        # Signals follow the cancel protocol.
        for i, evs in o.rec.per_runner().items():
            sigs = [(t, s) for t, _, ph, _, s, *_ in evs if ph == "signal"]
            if not sigs:
                continue
            m.event("signals_seen", len(sigs))
            m.event("oracle_checks")
            names = [name_of(int(s)) if s.isdigit() else s for _, s in sigs]
            sigs = [(t, n) for (t, _), n in zip(sigs, names)]
            if first == "SIGKILL":
                ok = set(names) == {"SIGKILL"}
            else:
                k = len(names)
                while k and names[k - 1] == "SIGKILL":
                    k -= 1
                ok = k >= 1 and all(n == first for n in names[:k])
            m.check(ok, "signal-protocol", f"{tag}: signals {names}, cancel_signal {first}")
            if ok and first != "SIGKILL" and "SIGKILL" in names:
                t_kill = next(t for t, s in sigs if s == "SIGKILL")
                t_first = sigs[0][0]
                again = any(t_first < t <= t_kill for t in o.t_cancels)
                ended = evs[-1][6]
                if not again and not fail and spec["shape"] in ("cmd", "pty"):
                    m.check(t_kill - t_first >= spec["ct"] - 0.01, "killed-early", f"{tag}: SIGKILL {t_kill - t_first:.3f}s after {first}, cancel_timeout={spec['ct']}, exit={ended}")
                if spec["shape"] in ("cmd", "pty", "pipe", "ptypipe"):
                    m.check(t_kill - t_first <= spec["ct"] + 1.5, "timing:killed-late", f"{tag}: SIGKILL {t_kill - t_first:.3f}s after {first}, cancel_timeout={spec['ct']}")
        if spec["shape"] == "cmd" and len(o.rec.runners) == 1 and not fail:
            evs = o.rec.per_runner()[0]
            rc = evs[-1][6]
            names = [e[4] for e in evs if e[2] == "signal"]
            launched = evs[-1][5] is not None
            if launched and behave in RUNNING and len(o.cancel_sent) == 1 and not own_end:
                m.event("protocol_runs")
                m.event("oracle_checks")
                sig = spec.get("sig", 15)
                # (a child that has not installed its handlers yet dies of the signal)
                want = {
                    "hang": {-(sig or 9)},
                    "trap": {-(sig or 9), {15: 7, 2: 8, None: -9}[sig]},
                    "ign": {-(sig or 9), -9},
                    "log": {-(sig or 9), -9},
                }.get(behave)
                if want is not None and spec["ct"] < 0.05:
                    want = want | {-9}  # (SIGKILL can be first)
                if want is not None:
                    m.check(rc in want, "exit-after-cancel", f"{tag}: exit status {rc}, expected one of {want}; signals {names}")
                if behave == "log" and o.siglog is not None:
                    got = o.siglog
                    m.event("child_signal_logs")
                    want_log = [sig] if rc == -9 and sig is not None else []
                    if sig is None:
                        m.check(got == [], "child-saw-signal", f"{tag}: child logged {got}, only SIGKILL was due")
                    elif rc == -9:
                        m.check(got == want_log or got == [], "child-saw-signal", f"{tag}: child logged {got}, expected {want_log}")

    await sweep(case, m, judge, audit=AuditRec, collect=("siglog",))


async def run_wrap(case, m):
    "Cancellation through the standard wrappers."
    spec, how = case["spec"], case["wrap"]
    rng = random.Random(case["seed"])
    await warm_up()
    for i in range(4):
        delay = rng.choice([0.0, 0.001, 0.004, 0.01, 0.03, 0.06])
        tmp = m.tmp / f"w{i}"
        tmp.mkdir()
        rec = AuditRec()
        sc = Scenario(spec, tmp, rec)
        kids0 = set(proc_children())
        tag = f"{how} delay={delay} {spec['shape']}/{spec['style']}/{spec['behave']}"
        outcome = None
        task = asyncio.current_task()
        try:
            if how == "wait_for":
                await asyncio.wait_for(sc.go(), delay)
            elif how == "timeout":
                async with asyncio.timeout(delay):
                    await sc.go()
            elif how == "taskgroup":
                async with asyncio.TaskGroup() as tg:
                    tg.create_task(sc.go())
                    await asyncio.sleep(delay)
                    raise Boom("group")
            else:
                fut = asyncio.gather(sc.go(), sc.go_dummy())
                await asyncio.sleep(delay)
                fut.cancel()
                await fut
            outcome = "value"
        except BaseException as ex:  # noqa
            outcome = type(ex).__name__
            if isinstance(ex, ExceptionGroup):
                outcome += ":" + ",".join(sorted(type(e).__name__ for e in ex.exceptions))
        kids = set(proc_children()) - kids0
        m.event("wrapped_runs")
        want = {"wait_for": "TimeoutError", "timeout": "TimeoutError", "taskgroup": "ExceptionGroup:Boom", "gather": "CancelledError"}[how]
        m.eq(outcome, want, f"wrapper-outcome:{how}", tag)
        if how != "gather":  # gather's outer future is done as soon as it is cancelled
            m.eq(sorted(kids), [], "wrapper-left-children", tag)
        else:
            await settle(lambda: not (set(proc_children()) - kids0), 8.0)
            m.eq(sorted(set(proc_children()) - kids0), [], "wrapper-left-children", tag)
        m.eq(task.cancelling(), 0, "wrapper-cancelling", tag)
        m.sig("wrap", how, delay, spec["shape"], spec["style"], spec["behave"])
        for f in sc.files:
            f.close()
        for fd in sc.owned:
            with contextlib.suppress(OSError):
                os.close(fd)
        if m.violations:
            return
