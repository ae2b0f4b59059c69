"P12: the audit callback sees a well-formed lifecycle for every run."
import signal

from ..lib import *
from ..sweep import *
from .p10 import name_of

PROP = "P12"
LEVEL = "fault_enumeration"
BUDGET = {"quick": 28, "thorough": 300}
TECHNIQUE = "runtime monitoring: per-runner lifecycle automaton over audit events, cross-checked with the kernel process state and the kill calls made, under a fault sweep"
RULE = (
    "a run is (command shape, behaviour, style, failing part, fault kind and point) with an audit callback installed; "
    "distinct = (shape, commands, style, behaviour, failure, fault, outcome, redirections) plus distinct event words"
)
BEHAVES = ["ok", "ok", "fail", "die", "hang", "trap", "ign", "flood", "noread", "log"]
MODES = ["plain", "cancel", "cancel", "cancel2", "cancel3", "inject", "rlimit", "timeout"]
SUBS = {"psr": 2, "psw": 1, "pspipe": 2, "pspipew": 2, "pipeps": 2}


def gen(rng, tier):
    return gen_sweep(rng, tier, BEHAVES, fails=0.35, modes=MODES)


class KillWatch:
    "Records the signals this process sends."

    def __enter__(self):
        self.sent = []
        self.orig = os.kill
        self.orig_pidfd = getattr(signal, "pidfd_send_signal", None)

        def kill(pid, sig):
            res = self.orig(pid, sig)
            if sig:
                self.sent.append((pid, int(sig)))
            return res

        os.kill = kill
        return self

    def __exit__(self, *a):
        os.kill = self.orig


async def run(case, m):
    spec = case["spec"]
    behave, fail = spec["behave"], spec.get("fail")
    sent = []

    def judge(o, f, tag):
        kills = list(sent)
        sent.clear()
        evs_all = o.rec.events
        m.event("audit_events", len(evs_all))
        m.check(o.audits_at_end == len(evs_all), "event-after-end", f"{tag}: audit events after the run had ended: {[(e[2], e[3]) for e in evs_all[o.audits_at_end or 0:]]}")
        rl = "rlimit" in f or "inject" in f
        for i, evs in o.rec.per_runner().items():
            word = "".join(e[2][0] if e[2] != "signal" else "g" for e in evs)
            word = "S" + word[1:-1] + "P" if word[:1] == "s" and word[-1:] == "s" and len(word) > 1 else word
            m.sig("word", [e[2] + e[4] + e[3] for e in evs])
            text = [(e[2], e[3], e[4], e[6]) for e in evs]
            phases = [e[2] for e in evs]
            if not m.check(
                len(phases) >= 2 and phases[0] == "start" and phases[-1] == "stop" and all(p == "signal" for p in phases[1:-1]),
                "lifecycle",
                f"{tag}: runner {i} of {len(o.rec.runners)} saw {text}",
            ):
                continue
            start, stop = evs[0], evs[-1]
            m.check(start[3] == "" and start[4] == "" and start[5] is None, "start-info", f"{tag}: start carries {start[3:6]}")
            for e in evs[1:-1]:
                m.check(e[4] != "" and e[3] == "" and e[5] is not None, "signal-info", f"{tag}: signal event {e[3:6]}")
            _, _, _, failure, sig, pid, rc, alive = stop
            m.check(sig == "", "stop-signal", f"{tag}: stop names signal {sig!r}")
            if pid is None:
                m.event("unlaunched_runners")
                m.check(failure != "", "launch-failure-unnamed", f"{tag}: not launched, stop has no failure: {text}")
                m.check(len(phases) == 2, "signal-without-process", f"{tag}: {text}")
                m.check(rc == (-1000 if failure == "CancelledError" else None), "unlaunched-code", f"{tag}: returncode {rc} failure {failure}")
                if spec["shape"] in ("cmd", "pty") and o.outcome[0] == "raise" and not (spec["style"] in ("with", "withcap") and o.cancel_sent):
                    m.check(failure == o.outcome[1], "failure-name", f"{tag}: failure {failure!r}, run raised {o.outcome[1]}")
            else:
                m.event("launched_runners")
                m.check(rc is not None, "no-exit-code-at-stop", f"{tag}: {text}")
                m.check(alive == "gone" or alive.startswith("Z"), "alive-at-stop", f"{tag}: process {alive!r} at stop: {text}")
                m.check(failure in ("", "CancelledError") or rl or fail, "failure-of-launched", f"{tag}: {text}")
                if failure and not fail and not rl:
                    m.check(bool(o.cancel_sent) or spec["n"] > 1 or "ps" in spec["shape"] or spec.get("timeout") is not None, "failure-without-cause", f"{tag}: {text}")
                if spec["shape"] == "cmd" and not o.cancel_sent and not fail and not rl and behave in ("ok", "fail", "die") and len(phases) == 2:
                    want = {"ok": 0, "fail": 3, "die": -9}[behave]
                    if o.outcome[1] not in ("BrokenPipeError", "Boom", "ConnectionResetError"):
                        m.check(rc == want, "wrong-exit-code", f"{tag}: runner reports {rc}, child exited with {want}")
                # Signals named = signals sent.
                if case["loop"] != "uvloop":
                    named = [name_of(int(e[4])) if e[4].isdigit() else e[4] for e in evs[1:-1]]
                    real = [name_of(s) for p, s in kills if p == pid]
                    k = 0
                    for n in named:
                        if k < len(real) and real[k] == n:
                            k += 1
                    m.check(k == len(real), "signal-not-audited", f"{tag}: sent {real}, audited {named}")
                    if spec["shape"] == "cmd" and behave in ("hang", "ign", "trap", "log") and named:
                        # (any other child may die by itself between the event and the kill)
                        m.check(named[0] in real[:1], "signal-not-sent", f"{tag}: sent {real}, audited {named}")
                    if rc is not None and rc < 0 and behave in ("hang", "ign", "trap", "log") and spec["shape"] == "cmd":
                        m.check(name_of(-rc) in named, "fatal-signal-unnamed", f"{tag}: exit {rc}, audited {named}")
        # Every command of a complete run was announced.
        if o.outcome[0] == "value" and not fail and not o.cancel_sent:
            want = spec["n"] + SUBS.get(spec["shape"], 0)
            m.check(len(o.rec.runners) == want, "missing-runner", f"{tag}: {len(o.rec.runners)} runners announced, {want} commands run")

    with KillWatch() as kw:
        sent = kw.sent
        await sweep(case, m, judge, audit=AuditRec, collect=())
