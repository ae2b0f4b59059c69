"""Master/worker harness shared by every check.

A property module (vf/props/pNN.py) provides

    PROP, RULE            id and the rule that makes a case count as non-trivial
    LEVEL                 'exploration' or 'fault_enumeration'
    BUDGET                {'quick': seconds, 'thorough': seconds}
    gen(rng, tier)        deterministic generator of JSON-able case dicts
    run(case, m)          coroutine function (run in a fresh event loop of kind
                          case['loop']) or plain function; reports into Monitor m

The master starts worker processes that run disjoint slices of the case list.
A case that makes no progress within its watchdog is killed, then re-run twice
alone; it is a violation ("bounded progress") only when it hangs every time.
"""

import asyncio
import collections
import contextlib
import ctypes
import faulthandler
import fcntl
import gc
import hashlib
import importlib
import json
import logging
import os
import random
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VF_REPO", "/repo"))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
NWORKERS = int(os.environ.get("VF_WORKERS", "6"))
WATCHDOG = 30.0
HARD_CAP = 780.0  # a check never runs longer than this (limit is 900 s)


# --------------------------------------------------------------------------
# Monitor: what a case reports.


class Monitor:
    "Collects what one case observed."

    def __init__(self, case):
        self.case = case
        self.violations = []
        self.events = collections.Counter()
        self.sigs = set()
        self.trivial = False
        self.sample = None
        self.notes = []
        self.deadline = None  # when the worker's time is used up

    def viol(self, key, msg, **detail):
        self.violations.append({"key": key, "msg": str(msg)[:2000], "detail": _short(detail)})

    def check(self, cond, key, msg="", **detail):
        self.events["oracle_checks"] += 1
        if not cond:
            self.viol(key, msg, **detail)
        return bool(cond)

    def eq(self, got, want, key, msg="", **detail):
        self.events["oracle_checks"] += 1
        if got != want:
            self.viol(key, f"{msg} got={_rep(got)} want={_rep(want)}", **detail)
            return False
        return True

    def event(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        self.sigs.add("/".join(str(p) for p in parts))


def _rep(value):
    if isinstance(value, (bytes, bytearray, str)) and len(value) > 80:
        data = value if not isinstance(value, str) else value.encode("utf-8", "replace")
        return f"<{type(value).__name__} len={len(value)} sha={hashlib.sha1(bytes(data)).hexdigest()[:10]} {value[:30]!r}...{value[-20:]!r}>"
    text = repr(value)
    return text if len(text) < 400 else text[:400] + "..."


def _short(value):
    if isinstance(value, dict):
        return {str(k): _short(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [_short(v) for v in list(value)[:40]]
    if isinstance(value, (int, float, bool)) or value is None:
        return value
    return _rep(value) if not isinstance(value, str) or len(value) > 800 else value


# --------------------------------------------------------------------------
# Native helper


def vchild() -> str:
    "Path of the compiled helper; builds it if needed (every run may be a fresh copy)."
    src = VERIF / "native" / "vchild.c"
    tag = hashlib.sha1(src.read_bytes()).hexdigest()[:12]
    out = VERIF / "build" / f"vchild-{tag}"
    if not out.exists():
        out.parent.mkdir(exist_ok=True)
        with open(out.parent / ".lock", "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if not out.exists():
                tmp = out.with_suffix(f".{os.getpid()}.tmp")
                cc = next(c for c in ("gcc", "clang", "cc") if shutil.which(c))
                subprocess.run([cc, "-O1", "-o", str(tmp), str(src)], check=True)
                os.replace(tmp, out)
    return str(out)


# --------------------------------------------------------------------------
# Event loops

LOOPS = ("default", "debug", "eager", "uvloop", "threaded", "shw")


@contextlib.contextmanager
def loop_env(kind):
    "Yield a function that runs a coroutine to completion on a loop of `kind`."
    factory = None
    debug = None
    watcher = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", DeprecationWarning)
        if kind == "uvloop":
            import uvloop

            factory = uvloop.new_event_loop
        elif kind == "debug":
            debug = True
        elif kind == "eager":

            def factory():
                loop = asyncio.new_event_loop()
                loop.set_task_factory(asyncio.eager_task_factory)
                return loop

        elif kind == "threaded":
            watcher = asyncio.ThreadedChildWatcher()
            asyncio.set_child_watcher(watcher)
        elif kind == "shw":
            from shellous.watcher import DefaultChildWatcher

            watcher = DefaultChildWatcher()
            asyncio.set_child_watcher(watcher)

        try:
            with asyncio.Runner(debug=debug, loop_factory=factory) as runner:
                yield runner
        finally:
            if watcher is not None:
                watcher.close()
                asyncio.set_child_watcher(None)


# --------------------------------------------------------------------------
# Worker


def _setup_worker():
    libc = ctypes.CDLL(None, use_errno=True)
    libc.prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER
    libc.prctl(1, signal.SIGKILL, 0, 0, 0)  # PR_SET_PDEATHSIG
    # (the caller may have started us with signals ignored or blocked)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for sig in (signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD, signal.SIGTTOU, signal.SIGTTIN, signal.SIGTSTP):
        signal.signal(sig, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    faulthandler.enable()
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    signal.signal(signal.SIGUSR2, _dump_tasks)
    logging.getLogger("shellous").setLevel(logging.ERROR)
    logging.getLogger("asyncio").setLevel(logging.ERROR)
    logging.basicConfig(level=logging.ERROR, stream=sys.stderr)


_CURRENT_LOOP = None


def _dump_tasks(_sig, _frame):
    if _CURRENT_LOOP is not None:
        for task in list(asyncio.all_tasks(_CURRENT_LOOP)):
            print("TASK", task, file=sys.stderr)
            task.print_stack(file=sys.stderr)
    sys.stderr.flush()


KEEP_PIDS = set()  # helpers of a property module that live longer than one case


def reap_all(kill=True):
    "Kill and reap every remaining child of this worker; return those found alive."
    found = []
    for _ in range(20):
        kids = [pid for pid in children() if pid not in KEEP_PIDS]
        if not kids:
            break
        for pid in kids:
            found.append(pid)
            if kill:
                with contextlib.suppress(ProcessLookupError):
                    os.kill(pid, signal.SIGKILL)
        for pid in kids:
            with contextlib.suppress(ChildProcessError):
                os.waitpid(pid, 0)
    return found


def children():
    kids = []
    for tid in os.listdir("/proc/self/task"):
        try:
            kids += [int(x) for x in Path(f"/proc/self/task/{tid}/children").read_text().split()]
        except (FileNotFoundError, ProcessLookupError):
            pass
    return kids


def run_case(mod, case, deadline=None):
    "Run one case and return its Monitor."
    global _CURRENT_LOOP
    m = Monitor(case)
    m.deadline = deadline
    cwd = os.getcwd()
    m.tmp = Path(tempfile.mkdtemp(prefix="c", dir=os.environ["VF_SCRATCH"]))
    try:
        if asyncio.iscoroutinefunction(mod.run):
            with loop_env(case.get("loop", "default")) as runner:
                _CURRENT_LOOP = runner.get_loop()
                runner.run(_guard(mod.run, case, m))
        else:
            mod.run(case, m)
    except BaseException as ex:  # noqa
        if isinstance(ex, (KeyboardInterrupt, SystemExit)):
            raise
        tb = traceback.format_exc()
        m.viol(f"unexpected:{type(ex).__name__}", repr(ex), traceback=tb[-1500:].splitlines())
    finally:
        _CURRENT_LOOP = None
        os.chdir(cwd)
        shutil.rmtree(m.tmp, ignore_errors=True)
    return m


async def _guard(func, case, m):
    await func(case, m)


def worker_main(argv):
    "argv: prop tier seed shard nshards budget out_fd start only(-1)"
    prop, tier, seed, shard, nshards, budget, out_fd, start, only = argv
    shard, nshards, out_fd, start, only = map(int, (shard, nshards, out_fd, start, only))
    budget = float(budget)
    os.set_inheritable(out_fd, False)
    _setup_worker()
    mod = load(prop)
    out = os.fdopen(out_fd, "w", buffering=1)
    t0 = time.monotonic()
    rng = random.Random(f"{seed}/{prop}")
    if hasattr(mod, "worker_setup"):
        mod.worker_setup()
    for idx, case in enumerate(mod.gen(rng, tier)):
        if only >= 0:
            if idx < only:
                continue
            if idx > only:
                break
        else:
            if idx % nshards != shard or idx < start:
                continue
            if time.monotonic() - t0 > budget and not case.get("must"):
                break
        out.write(json.dumps({"start": idx, "wd": case.get("wd", WATCHDOG)}) + "\n")
        c0 = time.monotonic()
        m = run_case(mod, case, None if only >= 0 else t0 + budget)
        reap_all()
        out.write(
            json.dumps(
                {
                    "done": idx,
                    "t": time.monotonic() - c0,
                    "viol": m.violations,
                    "events": dict(m.events),
                    "sigs": sorted(m.sigs),
                    "trivial": m.trivial,
                    "notes": m.notes,
                    "sample": m.sample if idx < 400 else None,
                    "case": case if (m.violations or idx < 40) else None,
                },
                default=repr,
            )
            + "\n"
        )
    out.write(json.dumps({"end": True}) + "\n")
    out.close()
    os._exit(0)


def load(prop):
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    mod = importlib.import_module(f"vf.props.{prop.lower()}")
    import shellous

    assert Path(shellous.__file__).resolve().is_relative_to(REPO.resolve()), shellous.__file__
    return mod


# --------------------------------------------------------------------------
# Master


class _Worker:
    def __init__(self, args, scratch, log, menv=None):
        rfd, wfd = os.pipe()
        os.set_inheritable(wfd, True)
        env = {k: v for k, v in os.environ.items() if not k.startswith("SHELLOUS")}
        env.update(
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONPATH=str(VERIF),
            VF_SCRATCH=str(scratch),
            VF_VCHILD=own_vchild(scratch),
            VF_CHILDTAG="vf",
            LC_ALL="C.UTF-8",
        )
        if menv is not None:
            env.update(menv(args[3]))
        env.pop("PYTHONASYNCIODEBUG", None)
        self.log = log
        with open(log, "ab") as logf:
            self.proc = subprocess.Popen(
                [PY, "-B", str(VERIF / "check.py"), "--worker", *map(str, args[:6]), str(wfd), *map(str, args[6:])],
                stdin=subprocess.DEVNULL,
                stdout=logf,
                stderr=logf,
                pass_fds=[wfd],
                env=env,
                cwd=scratch,
                start_new_session=True,
            )
        os.close(wfd)
        os.set_blocking(rfd, False)
        self.rfd = rfd
        self.buf = b""
        self.current = None
        self.started = 0.0
        self.wd = WATCHDOG
        self.last = -1
        self.ended = False

    def lines(self):
        try:
            while True:
                data = os.read(self.rfd, 1 << 16)
                if not data:
                    self.ended = True
                    break
                self.buf += data
        except BlockingIOError:
            pass
        *full, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in full if x]

    def kill(self, dump=True):
        if dump:
            for sig in (signal.SIGUSR2, signal.SIGUSR1):
                with contextlib.suppress(ProcessLookupError):
                    self.proc.send_signal(sig)
                time.sleep(0.3)
        with contextlib.suppress(ProcessLookupError):
            os.killpg(self.proc.pid, signal.SIGKILL)
        self.proc.wait()

    def close(self):
        with contextlib.suppress(OSError):
            os.close(self.rfd)
        if self.proc.poll() is None:
            self.kill(dump=False)


def own_vchild(scratch):
    "A copy of the helper for this run only, so that its processes are known to be ours."
    out = Path(scratch) / "bin" / "vchild"
    if not out.exists():
        out.parent.mkdir(exist_ok=True)
        tmp = out.with_suffix(f".{os.getpid()}")
        shutil.copy2(vchild(), tmp)
        os.replace(tmp, out)
    return str(out)


def kill_tagged(scratch):
    "End every stray process that runs our copy of the helper (they were started by our workers)."
    for pid in os.listdir("/proc"):
        if not pid.isdigit():
            continue
        try:
            exe = os.readlink(f"/proc/{pid}/exe")
        except OSError:
            continue
        if exe.startswith(f"{scratch}/") and "/bin/vchild" in exe:
            with contextlib.suppress(OSError):
                os.kill(int(pid), signal.SIGKILL)


def load_known():
    path = VERIF / "known-findings.txt"
    out = []
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith("known: "):
                # known: property=P07 key=<key> <text>
                parts = line[len("known: ") :].split(" ", 2)
                out.append((parts[0].split("=", 1)[1], parts[1].split("=", 1)[1], parts[2]))
    return out


def master(prop, tier, seed, replay=None, budget=None, verbose=False):
    t_start = time.monotonic()
    mod = load(prop)
    if replay is not None:
        return replay_main(mod, prop, replay)

    budget = budget or mod.BUDGET.get(tier, 25)
    scratch = Path(tempfile.mkdtemp(prefix=f"vf-{prop}-", dir="/tmp"))
    os.chmod(scratch, 0o755)
    try:
        return _master(mod, prop, tier, seed, budget, scratch, t_start, verbose)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _master(mod, prop, tier, seed, budget, scratch, t_start, verbose):
    nshards = getattr(mod, "WORKERS", NWORKERS)
    sel = selectors.DefaultSelector()
    live = {}
    results = {}
    hung = {}
    crashed = {}
    t_end = t_start + budget

    def spawn(shard, start):
        remaining = max(0.0, t_end - time.monotonic())
        log = scratch / f"w{shard}.log"
        wdir = scratch / f"w{shard}"
        wdir.mkdir(exist_ok=True)
        wk = _Worker([prop, tier, seed, shard, nshards, remaining, start, -1], wdir, log, getattr(mod, "env_of", None))
        wk.shard = shard
        live[wk.rfd] = wk
        sel.register(wk.rfd, selectors.EVENT_READ, wk)

    def retire(wk):
        sel.unregister(wk.rfd)
        del live[wk.rfd]
        wk.close()

    for shard in range(nshards):
        spawn(shard, 0)

    nhang = 0
    while live:
        for key, _ in sel.select(0.5):
            wk = key.data
            for msg in wk.lines():
                _absorb(wk, msg, results)
            if wk.ended:
                cur = wk.current
                retire(wk)
                if cur is not None:
                    # The worker died inside a case.
                    crashed[cur] = _tail(wk.log)
                    if len(crashed) < 20:
                        spawn(wk.shard, cur + 1)
        now = time.monotonic()
        for wk in list(live.values()):
            if wk.current is not None and now - wk.started > wk.wd:
                for msg in wk.lines():
                    _absorb(wk, msg, results)
                if wk.current is None or time.monotonic() - wk.started <= wk.wd:
                    continue
                cur = wk.current
                wk.kill()
                hung[cur] = _tail(wk.log)
                nhang += 1
                retire(wk)
                if nhang <= 12 and now < t_end + 60:
                    spawn(wk.shard, cur + 1)
        if now - t_start > HARD_CAP:
            for wk in list(live.values()):
                wk.kill(dump=False)
                retire(wk)
    kill_tagged(scratch)

    # Re-run hung / crashed cases alone.
    inconclusive = []
    violations = []
    for idx, log in sorted({**hung, **crashed}.items())[:3]:
        again = 0
        last = log
        case = None
        for attempt in range(2):
            if time.monotonic() - t_start > HARD_CAP:
                break
            res, tail = _solo(mod, prop, tier, seed, idx, scratch, attempt)
            if res is None:
                again += 1
                last = tail
            else:
                results[idx] = res
                break
        kind = "hang" if idx in hung else "crash"
        if again == 2:
            violations.append(
                {
                    "key": kind,
                    "msg": f"case {idx} makes no progress ({kind}), reproduced twice alone",
                    "detail": {"log": last[-3000:]},
                    "idx": idx,
                    "case": _nth_case(mod, prop, tier, seed, idx),
                }
            )
        else:
            inconclusive.append({"idx": idx, "kind": kind, "reruns_stuck": again})
    for idx in sorted({**hung, **crashed})[3:]:
        inconclusive.append({"idx": idx, "kind": "hang/crash (not re-run)"})

    events = collections.Counter()
    sigs = set()
    trivial = 0
    samples = []
    notes = []
    for idx, res in sorted(results.items()):
        events.update(res["events"])
        if res["trivial"]:
            trivial += 1
        else:
            sigs.update(res["sigs"])
        if res.get("sample") is not None and len(samples) < 12:
            samples.append(res["sample"])
        notes += res["notes"][:2]
        for v in res["viol"]:
            violations.append({**v, "idx": idx, "case": res["case"]})
    if len(samples) < 3:
        samples += [r["case"] for _, r in sorted(results.items()) if r.get("case")][:6]

    # Timing-dependent oracles are confirmed by re-running the case alone.
    confirmed = []
    tried = {}
    for v in violations:
        if v["key"].startswith("timing:") or v["key"].split(":")[0] in getattr(mod, "CONFIRM", ()):
            k = (v["key"], v["idx"])
            if v["key"] in {x["key"] for x in confirmed}:
                confirmed.append(v)
                continue
            if len([1 for t in tried if t[0] == v["key"]]) >= 4 or time.monotonic() - t_start > HARD_CAP:
                inconclusive.append({"idx": v["idx"], "kind": "unconfirmed " + v["key"]})
                continue
            if k not in tried:
                hits = 0
                for attempt in range(2):
                    res, _ = _solo(mod, prop, tier, seed, v["idx"], scratch, 10 + attempt)
                    if res is None or any(x["key"] == v["key"] for x in res["viol"]):
                        hits += 1
                tried[k] = hits
            if tried[k] >= 1:
                confirmed.append(v)
            else:
                inconclusive.append({"idx": v["idx"], "kind": "unconfirmed " + v["key"]})
        else:
            confirmed.append(v)
    violations = confirmed

    known = [(k, text) for p, k, text in load_known() if p == prop]
    fresh = []
    hit_known = collections.Counter()
    for v in violations:
        for k, text in known:
            if v["key"] == k:
                hit_known[(k, text)] += 1
                break
        else:
            fresh.append(v)

    wall = time.monotonic() - t_start
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(seed),
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:12] or ["none"],
            "observed_events": dict(sorted(events.items())),
            "trivial_cases": trivial,
            "hung_or_crashed_cases": len(hung) + len(crashed),
            "inconclusive": inconclusive[:20],
            "notes": notes[:10],
            "violation_keys": dict(collections.Counter(v["key"] for v in violations)),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", [])
        or ["Linux, CPython 3.12; executions produced by this run's workload only"],
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    (evdir / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=repr) + "\n")

    print(
        f"{prop} {tier} seed={seed}: {len(results)} cases, {len(sigs)} distinct, "
        f"{events['oracle_checks']} oracle checks, {len(violations)} violations "
        f"({len(fresh)} new), {len(inconclusive)} inconclusive, {wall:.1f}s"
    )
    if verbose:
        print(json.dumps(evidence["coverage"], indent=1, default=repr)[:6000])
    for k, text in known:
        print(f"KNOWN-FINDING: property={prop} {text}")
    if fresh:
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        shown = collections.Counter()
        for v in fresh:
            shown[v["key"]] += 1
            if shown[v["key"]] > int(os.environ.get("VF_SHOW", "1")) or len(shown) > 8:
                continue
            name = hashlib.sha1(v["key"].encode()).hexdigest()[:8] + (f"-{shown[v['key']]}" if shown[v["key"]] > 1 else "")
            path = rdir / f"{prop}-{name}.json"
            path.write_text(
                json.dumps(
                    {"property": prop, "tier": tier, "seed": seed, "idx": v["idx"], "violation": v, "case": v.get("case")},
                    indent=1,
                    default=repr,
                )
            )
            print(f"  [{v['key']}] case {v['idx']}: {v['msg'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if not results or not sigs or events["oracle_checks"] == 0:
        print(f"INCONCLUSIVE property={prop}: the monitors observed nothing")
        return 2
    return 0


def _absorb(wk, msg, results):
    if "start" in msg:
        wk.current = msg["start"]
        wk.started = time.monotonic()
        wk.wd = msg["wd"]
    elif "done" in msg:
        results[msg["done"]] = msg
        wk.current = None
        wk.last = msg["done"]


def _solo(mod, prop, tier, seed, idx, scratch, attempt):
    log = scratch / f"solo-{idx}-{attempt}.log"
    wdir = scratch / f"solo{attempt}"
    wdir.mkdir(exist_ok=True)
    nshards = getattr(mod, "WORKERS", NWORKERS)
    wk = _Worker([prop, tier, seed, idx % nshards, nshards, 1e9, 0, idx], wdir, log, getattr(mod, "env_of", None))
    res = {}
    limit = time.monotonic() + 5
    started = False
    while True:
        time.sleep(0.02)
        for msg in wk.lines():
            _absorb(wk, msg, res)
        if wk.current is not None and not started:
            started = True
            limit = time.monotonic() + wk.wd * 1.3
        if idx in res:
            wk.close()
            return res[idx], ""
        if wk.ended and wk.proc.poll() is not None:
            wk.close()
            return None, _tail(log)
        if started and time.monotonic() > limit:
            wk.kill()
            wk.close()
            kill_tagged(scratch)
            return None, _tail(log)
        if not started and time.monotonic() > limit + 60:
            wk.kill()
            wk.close()
            return None, _tail(log)


def _nth_case(mod, prop, tier, seed, idx):
    rng = random.Random(f"{seed}/{prop}")
    for i, case in enumerate(mod.gen(rng, tier)):
        if i == idx:
            return case


def _tail(path, n=6000):
    try:
        return Path(path).read_bytes()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def replay_main(mod, prop, replay):
    "Re-run the recorded case in this process, verbosely."
    info = json.loads(Path(replay).read_text())
    case = info["case"]
    os.environ["VF_SCRATCH"] = tempfile.mkdtemp(prefix="vf-replay-", dir="/tmp")
    os.environ["VF_VCHILD"] = vchild()
    os.environ["VF_CHILDTAG"] = "vf"
    if not os.environ.get("VF_REPLAYING"):
        # (the settings of the worker that ran it must be there when shellous is imported)
        env = {k: v for k, v in os.environ.items() if not k.startswith("SHELLOUS")}
        if hasattr(mod, "env_of"):
            env.update(mod.env_of(info["idx"] % getattr(mod, "WORKERS", NWORKERS)))
        shutil.rmtree(os.environ["VF_SCRATCH"], ignore_errors=True)
        env["VF_REPLAYING"] = "1"
        os.execve(sys.executable, [sys.executable, "-B", *sys.argv], env)
    _setup_worker()
    if hasattr(mod, "worker_setup"):
        mod.worker_setup()
    signal.alarm(120)
    try:
        m = run_case(mod, case)
    finally:
        shutil.rmtree(os.environ["VF_SCRATCH"], ignore_errors=True)
    reap_all()
    print("case:", json.dumps(case, default=repr))
    print("events:", dict(m.events))
    for v in m.violations:
        print("violation:", json.dumps(v, default=repr, indent=1))
    if m.violations:
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    print("no violation on this run")
    return 0
