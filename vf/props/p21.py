"P21: concurrent runs (of shared objects, nested, in many tasks) are isolated from each other."
from shellous import ResultError
from shellous.runner import Runner

from ..lib import *

PROP = "P21"
LEVEL = "exploration"
BUDGET = {"quick": 26, "thorough": 300}
TECHNIQUE = "runtime monitoring: every run of a shared object carries data of its own and records its process; data, exit status, liveness and order of ending of each run checked against what that run alone must show, while others nest, fail and are cancelled"
RULE = (
    "a case is a set of task trees (object entered at each level, data sizes, nesting, ways of leaving, cancellations, loop); "
    "distinct = that tree; cases with at least two overlapping runs of one object are non-trivial"
)
OBJS = ["cat", "cat", "catbuf", "pipe", "pipe3", "err", "exit3", "procsub", "awaitin", "prompt", "iter"]
SIZES = [0, 1, 10, 1000, 8192, 70000]


def tree(rng, depth, obj):
    "A level: which object, how much data, nested levels, way of leaving."
    node = {
        "obj": obj if obj and rng.random() < 0.6 else rng.choice(OBJS),
        "n": rng.choice(SIZES),
        "leave": rng.choice(["ok"] * 6 + ["raise", "early", "kill"]),
        "kids": [],
        "spawn": [],
        "yields": rng.randrange(4),
    }
    if depth > 0:
        for _ in range(rng.choice([0, 1, 1, 2])):
            node["kids"].append(tree(rng, depth - 1, node["obj"]))
        if rng.random() < 0.25:
            node["spawn"].append(tree(rng, depth - 1, node["obj"]))
    return node


def gen(rng, tier):
    while True:
        nt = rng.choice([1, 1, 2, 3, 5, 8])
        obj = rng.choice(OBJS)
        tasks = [{"tree": tree(rng, rng.choice([1, 2, 3] if nt < 5 else [0, 1]), obj), "cancel": None} for _ in range(nt)]
        if nt > 1 and rng.random() < 0.4:
            for t in rng.sample(tasks, rng.randrange(1, max(nt // 2, 2))):
                t["cancel"] = rng.choice([0, 1, 3, 10, 30, 60, 100])
        yield {"tasks": tasks, "loop": pick_loop(rng, 0.6), "seed": rng.randrange(1 << 30)}


class Boom(Exception):
    pass


def make_objs(tmp):
    lat = sh.set(encoding="latin-1", error_limit=None, cancel_timeout=3.0)
    c = lambda *ops: lat(vpath(), *ops)  # noqa
    both = lambda x: x.stdin(sh.CAPTURE).stdout(sh.CAPTURE)  # noqa
    return {
        "cat": both(c("cat")),
        "catbuf": c("cat").stdin(sh.CAPTURE),
        "pipe": both(c("cat") | c("cat")),
        "pipe3": (c("cat") | c("cat") | c("cat")).stdin(sh.CAPTURE),
        "err": c("cat2").stdin(sh.CAPTURE).stdout(sh.DEVNULL).stderr(sh.BUFFER),
        "exit3": c("cat", "exit:3").stdin(sh.CAPTURE),
        "procsub": c("pmode:cat", c("out:5000:9"), "cat").stdin(sh.CAPTURE),
        "awaitin": pat(9000, 4) | c("pid", "cat"),
        "prompt": c("cat"),
        "iter": c("pid", "outx:610a620a630a", "delay:100", "outx:640a"),
    }


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(") ", 1)[1][0] not in "ZX"
    except OSError:
        return False


class World:
    def __init__(self, case, m):
        self.case, self.m = case, m
        self.rng = random.Random(case["seed"])
        self.objs = make_objs(m.tmp)
        self.uid = 0
        self.open_runs = 0
        self.peak = 0
        self.inside = {}
        self.overlap = 0
        self.tag = json_tag(case)
        self.before = {k: (o, repr(o)) for k, o in self.objs.items()}

    def enter(self, name):
        self.open_runs += 1
        self.peak = max(self.peak, self.open_runs)
        self.inside[name] = self.inside.get(name, 0) + 1
        if self.inside[name] > 1:
            self.overlap += 1

    def left(self, name):
        self.open_runs -= 1
        self.inside[name] -= 1

    async def spin(self, k):
        for _ in range(k):
            await asyncio.sleep(self.rng.choice([0, 0, 0, 0.001, 0.003]))

    async def level(self, node, chain):
        "Run one level; returns when its block has been left."
        name = node["obj"]
        obj = self.objs[name]
        m = self.m
        self.uid += 1
        uid = self.uid
        data = pat(node["n"], 1000 + uid)
        tag = f"run {uid} of {name} n={node['n']} leave={node['leave']} depth={len(chain)} in {self.tag}"
        m.event("runs")
        if name == "awaitin":
            await self.await_level(obj, node, chain, tag)
            return
        if name == "iter":
            await self.iter_level(obj, node, chain, tag)
            return
        if name == "prompt":
            await self.prompt_level(obj, node, chain, tag, data)
            return
        out = b""
        run = None
        spawned = []
        failed = None
        try:
            try:
                async with obj as run:
                    self.enter(name)
                    try:
                        me = {"run": run, "pid": run.pid if isinstance(run, Runner) else None, "ended": False, "uid": uid}
                        for other in chain:
                            m.check(other["run"] is not run, "same-run", tag)
                            if me["pid"]:
                                m.check(other["pid"] != me["pid"], "same-process", tag)
                        half = len(data) // 2
                        if half <= 4096:
                            run.stdin.write(data[:half])
                            rest = data[half:]
                        else:
                            rest = data
                        await self.spin(node["yields"])
                        for kid in node["spawn"]:
                            spawned.append(asyncio.ensure_future(self.level(kid, [])))
                        for kid in node["kids"]:
                            await self.level(kid, chain + [me])
                            if me["pid"]:
                                m.check(run.returncode is None and alive(me["pid"]), "ended-by-inner", f"{tag}: pid {me['pid']} returncode {run.returncode} after leaving {kid['obj']}")
                        if node["leave"] == "raise":
                            raise Boom(uid)
                        if node["leave"] == "kill" and me["pid"]:
                            run.send_signal(9)
                            failed = -9
                        if node["leave"] != "early":
                            out = await self.talk(run, rest, failed)
                        else:
                            failed = "early"
                            run.stdin.close()
                    finally:
                        self.left(name)
            except ResultError:
                # a substituted sub-command fails because its reader was killed
                if failed not in (-9, "early") or name != "procsub":
                    raise
                return
            except (BrokenPipeError, ConnectionResetError, RuntimeError) as ex:
                if failed is None or (isinstance(ex, RuntimeError) and "handler is closed" not in str(ex)):
                    raise
        except Boom as ex:
            m.check(ex.args == (uid,), "foreign-exception", f"{tag}: {ex!r}")
            failed = "raise"
        finally:
            if spawned:
                # (also when this task is being cancelled: those are other runs)
                await _all(spawned)
        if isinstance(run, Runner):
            m.check(run.returncode is not None and not alive(run.pid), "still-running", f"{tag}: pid {run.pid} returncode {run.returncode}")
        if failed == "raise":
            return
        if failed == "early":
            return
        res = run.result(check=False)
        if failed == -9:
            m.eq(res.exit_code, -9, "exit-code", tag)
            return
        want = data if name != "procsub" else pat(5000, 9) + data
        got = out or res.output_bytes
        if name == "err":
            got = res.error_bytes
        elif name in ("catbuf", "pipe3", "exit3", "procsub"):
            m.eq(res.error_bytes, b"", "foreign-data", tag)
        m.eq(got, want, "foreign-data", tag)
        m.eq(res.exit_code, 3 if name == "exit3" else 0, "exit-code", tag)
        m.event("bytes", len(want))

    async def talk(self, run, rest, failed):
        "Write the rest of our data and read everything."

        async def feed():
            try:
                i = 0
                while i < len(rest):
                    k = self.rng.choice([1, 100, 5000, 70000])
                    run.stdin.write(rest[i : i + k])
                    i += k
                    await run.stdin.drain()
                    if self.rng.random() < 0.3:
                        await asyncio.sleep(0)
            except (BrokenPipeError, ConnectionResetError, RuntimeError):
                if not failed:
                    raise
            finally:
                run.stdin.close()

        if run.stdout is None:
            await feed()
            return b""
        t = asyncio.ensure_future(feed())
        try:
            return await run.stdout.read()
        finally:
            t.cancel() if not t.done() and failed else None
            await asyncio.wait([t])
            if not t.cancelled() and t.exception() and not failed:
                raise t.exception()

    async def await_level(self, obj, node, chain, tag):
        m = self.m
        self.enter("awaitin")
        try:
            many = node["yields"] + 1
            aws = [asyncio.ensure_future(obj.coro()) for _ in range(many)]
            kids = [asyncio.ensure_future(self.level(k, [])) for k in node["kids"] + node["spawn"]]
            ref = None
            try:
                if many > 1 and node["leave"] in ("raise", "kill"):
                    await asyncio.sleep(self.rng.choice([0, 0, 0.001, 0.004]))
                    aws[0].cancel()
                    ref = aws.pop(0)
                outs = await asyncio.gather(*aws)
            finally:
                await _quiet(aws + ([ref] if ref else []))
                await _all(kids)
            pids = set()
            for o in outs:
                pid, _, rest = o.partition("\n")
                pids.add(pid)
                m.eq(rest.encode("latin-1"), pat(9000, 4), "foreign-data", tag)
            m.check(len(pids) == len(aws), "same-process", f"{tag}: {pids}")
            m.event("runs", many)
        finally:
            self.left("awaitin")

    async def iter_level(self, obj, node, chain, tag):
        m = self.m
        self.enter("iter")
        try:
            lines = []
            kids = list(node["kids"] + node["spawn"])
            async for line in obj:
                lines.append(line)
                if kids:
                    await self.level(kids.pop(), chain)
            m.check(lines[0].strip().isdigit() and lines[1:] == ["a\n", "b\n", "c\n", "d\n"], "foreign-data", f"{tag}: {lines}")
        finally:
            self.left("iter")

    async def prompt_level(self, obj, node, chain, tag, data):
        m = self.m
        text = data[:20000].decode("latin-1")
        self.enter("prompt")
        try:
            async with obj.prompt() as cli:
                half = len(text) // 2
                await cli.send(text[:half], end="")
                for kid in node["kids"] + node["spawn"]:
                    await self.level(kid, chain)
                await cli.send(text[half:], end="")
                cli.close()
                m.eq(await cli.read_all(), text, "foreign-data", tag)
            m.eq(cli.result.exit_code, 0, "exit-code", tag)
        finally:
            self.left("prompt")


async def _quiet(tasks):
    "Wait for tasks, which end soon."
    while not all(t.done() for t in tasks):
        try:
            await asyncio.wait(tasks)
        except asyncio.CancelledError:
            await asyncio.wait(tasks)
            raise


async def _all(tasks):
    if not tasks:
        return
    while True:
        try:
            await asyncio.wait(tasks)
            break
        except asyncio.CancelledError:
            # (leave the other runs alone, go on afterwards)
            await asyncio.wait(tasks)
            for t in tasks:
                t.result()
            raise
    for t in tasks:
        t.result()


def json_tag(case):
    def short(n):
        k = ",".join([short(x) for x in n["kids"]] + ["&" + short(x) for x in n["spawn"]])
        return f"{n['obj']}:{n['n']}:{n['leave']}" + (f"({k})" if k else "")

    return " ".join((f"[cancel@{t['cancel']}]" if t["cancel"] is not None else "") + short(t["tree"]) for t in case["tasks"])


async def run(case, m):
    w = World(case, m)
    m.sig(w.tag, case["loop"])
    tasks = []
    for t in case["tasks"]:
        tasks.append(asyncio.ensure_future(w.level(t["tree"], [])))

    async def canceller(task, k):
        for _ in range(k):
            await asyncio.sleep(0)
        if k >= 30:
            await asyncio.sleep(k / 5000)
        return task.cancel()

    reqs = {i: asyncio.ensure_future(canceller(tasks[i], t["cancel"])) for i, t in enumerate(case["tasks"]) if t["cancel"] is not None}
    await asyncio.wait(tasks)
    for i, task in enumerate(tasks):
        tag = f"task {i} of {w.tag}"
        if i in reqs:
            sent = await reqs[i]
            if task.cancelled():
                m.event("cancelled_tasks")
                continue
            ex = task.exception()
            m.check(not sent or ex is not None, "cancel-lost", tag)
            if ex is not None:
                m.check(isinstance(ex, (BrokenPipeError, ConnectionResetError)), "foreign-exception", f"{tag}: {ex!r}")
        else:
            if m.check(not task.cancelled(), "foreign-cancel", tag):
                ex = task.exception()
                if ex is not None:
                    raise ex
    left = [p for p in proc_children() if alive(p)]
    m.check(not left, "left-running", f"{w.tag}: {left}")
    for k, (o, r) in w.before.items():
        m.check(repr(o) == r, "object-changed", f"{w.tag}: {k}")
    m.event("peak_runs_sum", w.peak)
    m.event("overlapping_entries", w.overlap)
    m.trivial = w.overlap == 0
    m.sample = {"tree": w.tag[:300], "peak": w.peak}
