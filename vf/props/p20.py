"P20: harvest waits for everything and reports the right outcome (virtual time versus a reference model)."
from shellous.harvest import harvest, harvest_results

from ..lib import *

PROP = "P20"
LEVEL = "exploration"
BUDGET = {"quick": 24, "thorough": 240}
TECHNIQUE = "runtime monitoring: the real harvest functions run on an event loop with a virtual clock; state of every awaitable, outcome and end time compared with a reference model, for arbitrary completion times, failures, cancellation reactions and outer cancellations"
RULE = (
    "an execution is (function, awaitable specs, timeout, cancel_finish, outer cancellation times, task factory); distinct = those; "
    "an execution is trivial when there is a single awaitable that simply returns"
)
ASSUMPTIONS = ["awaitables react to a cancel request within cancel_timeout (15 s, or 60 s when that is passed)"]
EPS = 1e-6


class VLoop(asyncio.SelectorEventLoop):
    "An event loop whose clock jumps to the next timer when it is idle."

    _vt = 0.0

    def time(self):
        return self._vt

    def _run_once(self):
        if not self._ready:
            nxt = min((h._when for h in self._scheduled if not h._cancelled), default=None)
            if nxt is None:
                raise RuntimeError("deadlock: nothing left to run")
            self._vt = max(self._vt, nxt)
        super()._run_once()


class Boom(Exception):
    pass


def gen(rng, tier):
    while True:
        yield {"seed": rng.randrange(1 << 40), "runs": 150, "eager": rng.random() < 0.2}


# kinds of awaitable:
#   coro / task (created earlier) / future / done (finished before the call)
# ends: ok / exc / rte (RuntimeError) / cancel (raises CancelledError itself)
# reaction to a cancel request: die / late (dies after a while) / swallow (returns a
#   value after a while) / raise (raises after a while) / ignore (goes on to its end)


def spec(rng, tie):
    t = (lambda a: float(rng.randrange(0, int(a) + 1))) if tie else (lambda a: rng.uniform(0.01, a))
    return {
        "kind": rng.choice(["coro", "coro", "coro", "task", "future", "done", "inner"]),
        "d": t(10),
        "end": rng.choice(["ok", "ok", "ok", "ok", "exc", "exc", "rte", "cancel"]),
        "react": rng.choice(["die", "die", "late", "swallow", "raise", "ignore"]),
        "c": t(3),
    }


class Aw:
    "One awaitable and what happened to it."

    def __init__(self, s, i, loop):
        self.s, self.i, self.loop = s, i, loop
        self.started = self.ended = self.end_time = None
        self.cancels = []
        self.task = None

    def finish(self, end):
        if end == "exc":
            raise Boom(self.i)
        if end == "rte":
            raise RuntimeError(self.i)
        if end == "cancel":
            raise asyncio.CancelledError()
        return ("value", self.i)

    async def body(self):
        s, loop = self.s, self.loop
        self.task = asyncio.current_task()
        self.started = loop.time()
        end_at = loop.time() + s["d"]
        try:
            try:
                await asyncio.sleep(s["d"])
                return self.finish(s["end"])
            except asyncio.CancelledError:
                if s["end"] == "cancel" and loop.time() >= end_at - EPS:
                    raise
                self.cancels.append(loop.time())
                r = s["react"]
                if r == "die":
                    raise
                if r == "ignore":
                    await self.hold(max(end_at - loop.time(), 0))
                    return self.finish(s["end"])
                await self.hold(s["c"])
                if r == "late":
                    raise
                if r == "raise":
                    raise Boom(self.i)
                return ("swallowed", self.i)
        finally:
            self.ended = True
            self.end_time = loop.time()

    async def hold(self, d):
        "Sleep on, whatever happens (but record further requests)."
        end = self.loop.time() + d
        while True:
            try:
                await asyncio.sleep(max(end - self.loop.time(), 0))
                return
            except asyncio.CancelledError:
                self.cancels.append(self.loop.time())

    def make(self):
        s = self.s
        k = s["kind"]
        if k == "inner":

            async def inner():
                await harvest(self.body(), cancel_timeout=60.0)

            # an awaitable which is itself a harvest
            async def outer():
                self.wrapper = asyncio.current_task()
                await inner()
                return ("value", self.i) if not self.cancels else ("swallowed", self.i)

            return outer()
        if k == "coro":
            return self.body()
        if k == "task":
            return asyncio.ensure_future(self.body())
        fut = self.loop.create_future()
        self.task = fut
        self.ended = True  # (no code of ours runs)
        if k == "done":
            self.set(fut)
        else:
            self.loop.call_later(s["d"], self.set, fut)
        return fut

    def set(self, fut):
        if fut.done():
            return
        e = self.s["end"]
        if e == "exc":
            fut.set_exception(Boom(self.i))
        elif e == "rte":
            fut.set_exception(RuntimeError(self.i))
        elif e == "cancel":
            fut.cancel()
        else:
            fut.set_result(("value", self.i))

    # -- reference model

    def natural(self):
        "(time, outcome) if left alone."
        s = self.s
        end = s["end"]
        if s["kind"] == "inner" and end == "cancel":
            end = "ok"  # (harvest does not pass on that an awaitable cancelled itself)
        return (0.0 if s["kind"] == "done" else s["d"]), end

    def cancelled_at(self, t):
        "(time, outcome) if asked to cancel at t, while unfinished."
        s = self.s
        r = s["react"]
        if s["kind"] in ("future",) or r == "die":
            return t, "cancel"
        if r == "ignore":
            # nested: harvest reports a value that was finished after the request as cancelled
            return s["d"], ("cancel" if s["kind"] == "inner" else s["end"])
        end = {"late": "cancel", "raise": "exc", "swallow": "swallowed"}[r]
        return t + s["c"], ("cancel" if s["kind"] == "inner" else end)


def model(aws, timeout, cancels, cancel_finish):
    "(end time, kind, outcome of each), kind in ok/failed/timeout/cancelled."
    nat = [a.natural() for a in aws]
    fails = [t for t, e in nat if e in ("exc", "rte")]
    t_all = max(t for t, _ in nat)
    t_exc = min(fails, default=float("inf"))
    t_to = float("inf") if timeout is None else timeout
    t_c = cancels[0] if cancels else float("inf")
    t1 = min(t_all, t_exc, t_to, t_c)
    if t1 == t_c:
        kind = "cancelled"
    elif t1 == t_exc:
        kind = "failed"
    elif t1 == t_all:
        return t_all, "ok", nat
    else:
        kind = "timeout"
    out = []
    for a, (t, e) in zip(aws, nat):
        if t <= t1 or (kind == "cancelled" and cancel_finish):
            out.append((t, e))
        else:
            out.append(a.cancelled_at(t1))
    end = max([t1] + [t for t, _ in out])
    if kind != "cancelled" and any(t1 < c < end for c in cancels):
        kind = "cancelled"
    return end, kind, out


def one(rng, m, loop, acc):
    tie = rng.random() < 0.2
    n = rng.choice([1, 2, 2, 3, 3, 4, 6])
    specs = [spec(rng, tie) for _ in range(n)]
    func = rng.choice(["harvest", "harvest", "results"])
    timeout = None if rng.random() < 0.5 else (float(rng.randrange(0, 9)) if tie else rng.uniform(0.05, 9))
    ncancel = rng.choice([0, 0, 0, 1, 1, 2, 3])
    cancels = sorted(float(rng.randrange(0, 9)) if tie else rng.uniform(0.01, 9) for _ in range(ncancel))
    finish = func == "harvest" and rng.random() < 0.3
    dup = rng.random() < 0.08
    slow = rng.random() < 0.15
    if slow:
        # slow reactions need a longer cancel_timeout
        for s in specs:
            s["c"] *= 12
    tag = f"{func} timeout={timeout} cancels={cancels} finish={finish} dup={dup} slow={slow} {specs}"
    aws = [Aw(s, i, loop) for i, s in enumerate(specs)]
    state = {}

    async def call():
        objs = [a.make() for a in aws]
        state["objs"] = objs
        order = list(range(n))
        if dup:
            k = next((i for i, a in enumerate(aws) if a.s["kind"] in ("task", "future", "done")), None)
            if k is not None:
                objs = objs + [objs[k]]
                order.append(k)
        state["order"] = order
        t0 = loop.time()
        kw = {"cancel_timeout": 60.0} if slow else {}
        if timeout is not None:
            kw["timeout"] = timeout
        if func == "harvest" and finish:
            kw["cancel_finish"] = True
        try:
            try:
                fn = harvest if func == "harvest" else harvest_results
                return ("ok", await fn(*objs, **kw))
            finally:
                state["t"] = loop.time() - t0
                state["undone"] = [a.i for a in aws if a.started is not None and not a.ended or (a.s["kind"] in ("future", "done") and not a.task.done())]
                state["never"] = [a.i for a in aws if a.s["kind"] in ("coro",) and a.started is None and not cancels]
        except asyncio.CancelledError as ex:
            return ("raise", ex)
        except Exception as ex:
            return ("raise", ex)
        finally:
            state["cancelling"] = asyncio.current_task().cancelling()

    async def main():
        t = asyncio.ensure_future(call())
        for c in cancels:
            loop.call_later(c, t.cancel)
        res = await t
        state["left"] = [x for x in asyncio.all_tasks() if x is not asyncio.current_task() and not x.done()]
        for x in state["left"]:
            x.cancel()
        return res

    errs = []
    loop.set_exception_handler(lambda _l, ctx: errs.append(str(ctx)[:300]))
    # (each execution has a timeline of its own)
    loop._vt = 0.0
    loop._scheduled.clear()
    kind, value = loop.run_until_complete(main())
    m.event("executions")
    m.event("awaitables", n)
    acc.add((func, timeout is None, len(cancels), finish, tuple((s["kind"], s["end"], s["react"], round(s["d"], 1)) for s in specs)))

    m.check(not state["undone"], "not-done", f"{tag}: still running when it ended: {state['undone']}")
    m.check(not state["left"], "tasks-left", f"{tag}: {state['left']}")
    t_end, want, outs = model(aws, timeout, cancels, finish)
    exc = value if kind == "raise" else None
    cancelled = isinstance(exc, asyncio.CancelledError) or (func == "results" and kind == "ok" and value[0])
    # weak rules, valid for ties as well
    arrived = [c for c in cancels if c < state["t"] - EPS]
    if arrived and func == "harvest":
        m.check(cancelled, "cancel-lost", f"{tag}: ended {kind} {value!r}")
    if arrived and func == "results":
        fatal = isinstance(exc, RuntimeError)
        m.check(cancelled or fatal, "cancel-lost", f"{tag}: ended {kind} {value!r}")
    if not cancels:
        m.check(not cancelled, "cancelled-unasked", f"{tag}: {kind} {value!r}")
        m.check(state["cancelling"] == 0, "cancelling", tag)
        # (CancelledError must also not surface because an awaitable was cancelled)
    if isinstance(exc, Exception) and not isinstance(exc, asyncio.TimeoutError):
        own = isinstance(exc, (Boom, RuntimeError)) and exc.args and exc.args[0] in range(n)
        m.check(own, "foreign-exception", f"{tag}: {exc!r}")
    if func == "results" and kind == "ok":
        _, results = value
        m.check(len(results) == len(state["order"]), "result-count", f"{tag}: {results!r}")
        for pos, (k, r) in enumerate(zip(state["order"], results)):
            good = (
                isinstance(r, asyncio.CancelledError)
                or (isinstance(r, Boom) and r.args[0] == k)
                or (isinstance(r, tuple) and r[1] == k)
            )
            m.check(good, "wrong-result", f"{tag}: result {pos} is {r!r}")
    if tie:
        m.event("ties")
        return
    close = any(abs(a - b) < 1e-3 for i, a in enumerate(_times(aws, timeout, cancels)) for b in _times(aws, timeout, cancels)[:i])
    if close:
        return
    m.event("modelled")
    # strong rules: exactly the model's outcome at the model's time
    m.check(abs(state["t"] - t_end) < 1e-3, "wrong-end-time", f"{tag}: ended at {state['t']}, want {t_end} ({want})")
    has_rte = any(e == "rte" for _, e in outs)
    failures = {i for i, (_, e) in enumerate(outs) if e in ("exc", "rte")}
    if func == "harvest":
        if want == "cancelled":
            ok = isinstance(exc, asyncio.CancelledError)
        elif want == "timeout":
            ok = isinstance(exc, asyncio.TimeoutError)
        elif want == "failed":
            ok = isinstance(exc, (Boom, RuntimeError)) and not isinstance(exc, asyncio.TimeoutError) and exc.args[0] in failures
        else:
            ok = kind == "ok" and value is None
        m.check(ok, "wrong-outcome", f"{tag}: want {want}, got {kind} {value!r}")
        return
    if want == "timeout":
        m.check(isinstance(exc, asyncio.TimeoutError), "wrong-outcome", f"{tag}: want {want}, got {kind} {value!r}")
    elif has_rte:
        m.check(isinstance(exc, RuntimeError), "wrong-outcome", f"{tag}: want RuntimeError, got {kind} {value!r}")
    else:
        if not m.check(kind == "ok" and value[0] == (want == "cancelled"), "wrong-outcome", f"{tag}: want {want}, got {kind} {value!r}"):
            return
        for pos, (k, r) in enumerate(zip(state["order"], value[1])):
            e = outs[k][1]
            if e == "cancel":
                ok = isinstance(r, asyncio.CancelledError)
            elif e == "exc":
                ok = isinstance(r, Boom)
            else:
                ok = r == (("value" if e == "ok" else "swallowed"), k)
                # (an awaitable that ignored the request returned its own value)
            m.check(ok, "wrong-result", f"{tag}: result {pos} is {r!r}, want {e}")
    if errs:
        m.viol("loop-error", f"{tag}: {errs[:2]}")


def _times(aws, timeout, cancels):
    ts = [a.natural()[0] for a in aws if a.s["kind"] != "done"] + list(cancels)
    if timeout is not None:
        ts.append(timeout)
    return ts


def run(case, m):
    rng = random.Random(case["seed"])
    loop = VLoop()
    if case["eager"]:
        loop.set_task_factory(asyncio.eager_task_factory)
    acc = set()
    late = []
    logging = __import__("logging")
    logging.getLogger("shellous").setLevel(logging.CRITICAL)
    asyncio.set_event_loop(loop)
    try:
        for _ in range(case["runs"]):
            one(rng, m, loop, acc)
        loop.set_exception_handler(lambda _l, ctx: late.append(str(ctx)[:300]))
        gc.collect()
        loop.run_until_complete(asyncio.sleep(0))
    finally:
        asyncio.set_event_loop(None)
        loop.close()
        logging.getLogger("shellous").setLevel(logging.ERROR)
    m.check(not late, "unretrieved", f"{late[:2]}")
    for a in acc:
        m.sig(*a)
