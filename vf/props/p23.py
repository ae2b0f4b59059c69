"P23: a child inherits only the descriptors it should."
import fcntl
import threading

from ..lib import *

PROP = "P23"
ASSUMPTIONS = ["Linux, CPython 3.12; uvloop itself leaves inheritable descriptors of the parent to its children (it does not implement close_fds), so there only the descriptors shellous makes are checked"]
LEVEL = "exploration"
BUDGET = {"quick": 16, "thorough": 240}
TECHNIQUE = "runtime monitoring: every process of concurrently launched commands dumps its own descriptor table; an offline checker compares each table with a model and the holders of every pipe across all processes and the parent"
RULE = (
    "a case is (concurrent items with shapes, redirections, pass_fds, process substitutions and ptys; inheritable noise in the parent, static or changing; number of event loops; loop); "
    "distinct = (shape, redirections, descriptor options, style, loop, noise); non-trivial always"
)

STDIN = ["bytes", "bytes", "null", "file", "fd", "cap", "inherit", "fobj"]
STDOUT = ["buffer", "buffer", "null", "file", "append", "fd", "bytearray", "fobj"]
STDERR = ["buffer", "buffer", "null", "file", "fd", "stdout", "stdout", "inherit", "bytearray"]
PASS = ["none", "none", "none", "list", "tuple", "set", "close", "two", "keep"]


def item(rng, loop):
    shape = rng.choice(["one", "one", "one", "pipe", "pipe", "pipe", "sub", "sub", "pipesub", "pty"])
    if loop == "uvloop" and shape == "pty":
        shape = "one"
    return {
        "shape": shape,
        "n": rng.choice([2, 2, 3, 4]),
        "subs": [rng.choice(["r", "w", "r2", "w2"]) for _ in range(rng.choice([1, 1, 2, 3]))],
        "in": rng.choice(STDIN),
        "out": rng.choice(STDOUT),
        "err": rng.choice(STDERR),
        "pass": [rng.choice(PASS) for _ in range(4)],
        "cf": rng.random() < 0.12,
        "style": rng.choice(["result", "result", "with", "iter"]),
        "size": rng.choice([0, 10, 5000, 70000]),
        "seed": rng.randrange(1000),
    }


def gen(rng, tier):
    while True:
        loop = pick_loop(rng, 0.6)
        yield {
            "items": [item(rng, loop) for _ in range(rng.choice([1, 2, 3, 5, 8]))],
            "noise": rng.choice(["few", "many", "none"]),
            "churn": rng.random() < 0.5,
            "loops": rng.choice([1, 1, 1, 2, 3]) if loop == "default" else 1,
            "loop": loop,
            "seed": rng.randrange(1 << 30),
        }


class Proc:
    def __init__(self, item, name, dump):
        self.item = item
        self.name = name
        self.dump = dump
        self.exp = {}  # fd -> class
        self.extra = {}  # fd -> target, inherited on purpose
        self.subs = 0  # further descriptors: process substitution pipes
        self.all = False  # close_fds=False: inheritable noise may be there
        self.table = None

    def read(self):
        with contextlib.suppress(FileNotFoundError):
            text = self.dump.read_text()
            if not text.endswith("\n"):
                return
            table = {int(a): b for a, b in (ln.split(" ", 1) for ln in text.splitlines())}
            self.table = {fd: t for fd, t in table.items() if t != str(self.dump)}


class World:
    def __init__(self, case, m):
        self.m = m
        self.tmp = m.tmp
        self.rng = random.Random(case["seed"])
        self.fds = []  # ours to close
        self.churned = set()  # pipes that come and go
        self.owned = set()  # handed over with pass_fds_close
        self.procs = []
        self.links = []  # (proc a, fd a, proc b, fd b)
        self.static = {}  # inheritable noise
        n = {"none": 0, "few": 2, "many": 25}[case["noise"]]
        for i in range(n):
            fd = self.file(f"noise{i}")
            if i % 3 == 0:
                fd2 = fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, self.rng.choice([3, 20, 100, 400, 700]))
                self.fds.append(fd2)
                fd = fd2
            if i % 2 == 0:
                os.set_inheritable(fd, True)
                self.static[fd] = os.readlink(f"/proc/self/fd/{fd}")
        r, w = os.pipe()
        self.fds += [r, w]
        os.set_inheritable(w, True)
        self.static[w] = os.readlink(f"/proc/self/fd/{w}")

    def file(self, name, inherit=False):
        fd = os.open(self.tmp / name, os.O_RDWR | os.O_CREAT, 0o600)
        self.fds.append(fd)
        if inherit:
            os.set_inheritable(fd, True)
        return fd

    def close(self):
        for fd in self.fds:
            if fd not in self.owned:
                with contextlib.suppress(OSError):
                    os.close(fd)


def build_item(w, it, i):
    "The command and its processes; fills in what each should hold."
    tmp, rng = w.tmp, w.rng
    gate = tmp / f"gate{i}"
    counter = iter(range(100))

    def proc(*work):
        j = next(counter)
        p = Proc(i, f"{i}.{j}", tmp / f"d{i}-{j}")
        p.exp = {0: "pipe", 1: "pipe", 2: "pipe"}
        w.procs.append(p)
        return p, V("pmode:none", f"fdsf:{p.dump}", f"wait:{gate}", *work)

    def with_pass(p, cmd, j):
        k = it["pass"][j % len(it["pass"])]
        if k == "none":
            return cmd
        fds = [w.file(f"pass{i}-{j}-{x}", inherit=rng.random() < 0.3) for x in range(2 if k == "two" else 1)]
        for fd in fds:
            p.extra[fd] = os.readlink(f"/proc/self/fd/{fd}")
            if os.get_inheritable(fd):
                w.static[fd] = p.extra[fd]
        kind = {"tuple": tuple, "set": set}.get(k, list)
        if k == "close":
            w.owned.update(fds)
            return cmd.set(pass_fds=kind(fds), pass_fds_close=True)
        if k == "keep":
            return cmd.set(pass_fds=kind(fds), pass_fds_close=False)
        return cmd.set(pass_fds=kind(fds))

    size, seed = it["size"], it["seed"]
    data = pat(size, seed)
    shape = it["shape"]
    stages = []
    if shape in ("pipe", "pipesub"):
        n = it["n"]
        for j in range(n):
            work = ["hash"] if j == n - 1 else ["cat"]
            p, c = proc(*work)
            stages.append((p, with_pass(p, c, j)))
        for (a, _), (b, _) in zip(stages, stages[1:]):
            w.links.append((a, 1, b, 0))
    else:
        p, c = proc("hash")
        stages.append((p, with_pass(p, c, 0)))
    subs = it["subs"] if shape in ("sub", "pipesub") else []
    first, last = stages[0], stages[-1]
    sinks = []
    if subs:
        p, c = stages[-1]
        for j, s in enumerate(subs):
            # (the paths are looked at by the dump only: `unused` drops them)
            if s[0] == "r":
                a, sc = proc("out:0:5")
                head = a
                if s == "r2":
                    b, sc2 = proc("cat")
                    w.links.append((a, 1, b, 0))
                    sc = sc | sc2
                    head = b
                w.links.append((head, 1, p, "sub"))
                c = c(sc)
            else:
                a, sc = proc("cat")
                tail = sc
                w.links.append((p, "sub", a, 0))
                if s == "w2":
                    b, sc2 = proc("cat")
                    w.links.append((a, 1, b, 0))
                    tail = sc | sc2
                sink = bytearray()
                sinks.append(sink)
                c = c((tail | sink).writable)
            p.subs += 1
        stages[-1] = last = (p, c)
    # redirections
    p0, c0 = first
    if len(stages) == 1:
        c0 = last[1]
    cin = it["in"]
    want = data
    style = it["style"]
    if shape == "pty":
        style = "result"
        fn = tmp / f"in{i}"
        fn.write_bytes(data)
        c0 = c0.set(pty=True).stdin(fn)
        p0.exp = {0: f"file:{fn}", 1: "tty", 2: "tty"}
        cin = "done"
    elif cin == "bytes":
        c0 = c0.stdin(data)
    elif cin == "null":
        c0, want = c0.stdin(sh.DEVNULL), b""
        p0.exp[0] = "file:/dev/null"
    elif cin in ("file", "fd", "fobj"):
        fn = tmp / f"in{i}"
        fn.write_bytes(data)
        p0.exp[0] = f"file:{fn}"
        if cin == "file":
            c0 = c0.stdin(fn)
        elif cin == "fd":
            fd = os.open(fn, os.O_RDONLY)
            w.fds.append(fd)
            c0 = c0.stdin(fd)
        else:
            c0 = c0.stdin(open(fn, "rb"), close=True)
    elif cin == "cap":
        if style != "with":
            c0 = c0.stdin(data)
        else:
            c0 = c0.stdin(sh.CAPTURE)
    else:
        c0, want = c0.stdin(sh.INHERIT), b""
        p0.exp[0] = f"file:{os.readlink('/proc/self/fd/0')}"
    if len(stages) == 1:
        last = (p0, c0)
    stages[0] = (p0, c0)
    stages[-1] = last
    for j, (p, c) in enumerate(stages):
        if it["cf"]:
            c = c.set(close_fds=False)
            p.all = not p.subs and not p.extra
        # standard error of each stage
        e = it["err"] if shape != "pty" else "stdout"
        if j < len(stages) - 1 and e == "stdout":
            e = "buffer"
        if e == "null":
            c = c.stderr(sh.DEVNULL)
            p.exp[2] = "file:/dev/null"
        elif e == "file":
            c = c.stderr(tmp / f"err{i}-{j}")
            p.exp[2] = f"file:{tmp}/err{i}-{j}"
        elif e == "fd":
            c = c.stderr(w.file(f"err{i}-{j}"))
            p.exp[2] = f"file:{tmp}/err{i}-{j}"
        elif e == "inherit":
            c = c.stderr(sh.INHERIT)
            p.exp[2] = f"file:{os.readlink(f'/proc/self/fd/{sys.stderr.fileno()}')}"
        elif e == "bytearray":
            c = c.stderr(bytearray())
        elif e == "stdout" and shape != "pty":
            c = c.stderr(sh.STDOUT)
            p.exp[2] = "as1"
        stages[j] = (p, c)
    p, c = stages[-1]
    out = None
    o = it["out"] if shape != "pty" and style == "result" else "buffer"
    fn = tmp / f"out{i}"
    if o == "null":
        c = c.stdout(sh.DEVNULL)
        p.exp[1] = "file:/dev/null"
        if p.exp[2] == "as1":
            p.exp[2] = "pipe"  # ("standard error only")
        out = lambda r: None  # noqa
    elif o in ("file", "append", "fd", "fobj"):
        p.exp[1] = f"file:{fn}"
        if o == "file":
            c = c.stdout(fn)
        elif o == "append":
            c = c.stdout(fn, append=True)
        elif o == "fd":
            c = c.stdout(w.file(f"out{i}"))
        else:
            c = c.stdout(open(fn, "wb"), close=True)
        out = lambda r: fn.read_bytes()  # noqa
    elif o == "bytearray":
        buf = bytearray()
        c = c.stdout(buf)
        out = lambda r: bytes(buf)  # noqa
    stages[-1] = (p, c)
    full = stages[0][1]
    for _, c in stages[1:]:
        full = full | c
    return {"cmd": full, "gate": gate, "want": fnv_line(want), "out": out, "style": style, "data": data, "cap": cin == "cap" and style == "with", "pty": shape == "pty", "item": it, "i": i}


async def drive(job):
    cmd, style = job["cmd"], job["style"]
    if style == "result":
        res = await cmd.result()
        return job["out"](res) if job["out"] else res.output_bytes
    if style == "iter":
        return "".join([ln async for ln in cmd]).encode()
    async with cmd.stdout(sh.CAPTURE) as run:
        if job["cap"]:
            run.stdin.write(job["data"])
            run.stdin.close()
        return await run.stdout.read()


async def run(case, m):
    w = World(case, m)
    stop = threading.Event()
    churner = None
    try:
        jobs = [build_item(w, it, i) for i, it in enumerate(case["items"])]
        if case["churn"]:
            churner = threading.Thread(target=churn, args=(w, stop), daemon=True)
            churner.start()
        await observe(case, m, w, jobs)
    finally:
        stop.set()
        if churner:
            churner.join(5)
        w.close()
    for it in case["items"]:
        passes = sorted(set(it["pass"][: it["n"]]))
        m.sig(it["shape"], it["in"], it["out"], it["err"], it["style"], case["loop"], it["cf"])
        for p in passes:
            m.sig("pass", it["shape"], p, it["cf"], case["noise"], case["churn"], case["loops"])
    m.sample = {"items": [f"{it['shape']}:{it['in']}>{it['out']},{it['err']}" for it in case["items"]], "processes": len(w.procs), "links": len(w.links)}


def churn(w, stop):
    "Inheritable descriptors come and go while commands are launched."
    i = 0
    while not stop.is_set():
        i += 1
        r, wr = os.pipe()
        w.churned.add(os.readlink(f"/proc/self/fd/{r}"))
        fd = os.open(w.tmp / "noise-churn", os.O_RDWR | os.O_CREAT, 0o600)
        for f in (r, wr, fd):
            os.set_inheritable(f, True)
        if i % 3 == 0:
            time.sleep(0.0005)
        for f in (r, wr, fd):
            os.close(f)
        time.sleep(0.0002)


async def observe(case, m, w, jobs):
    tasks = []
    if case["loops"] == 1:
        tasks = [asyncio.ensure_future(drive(j)) for j in jobs]
    else:
        # several event loops launch at once
        async def part(chunk):
            return await asyncio.gather(*(drive(j) for j in chunk), return_exceptions=True)

        for b in range(case["loops"]):
            chunk = jobs[b :: case["loops"]]
            t = asyncio.ensure_future(asyncio.to_thread(lambda c=chunk: asyncio.run(part(c))))
            t.chunk = chunk
            tasks.append(t)

    def dumped():
        for p in w.procs:
            if p.table is None:
                p.read()
        return all(p.table is not None for p in w.procs) or (case["loops"] == 1 and any(t.done() for t in tasks))

    await settle(dumped, 12)
    missing = [p.name for p in w.procs if p.table is None]
    ours = {}
    # (ends of pipes between children must be closed in the parent once both are launched)
    linked = set()
    for a, fa, b, fb in w.links:
        for p, f in ((a, fa), (b, fb)):
            if p.table and f != "sub" and f in p.table:
                linked.add(p.table[f])

    def no_links():
        nonlocal ours
        ours = fd_table()
        return not (linked & set(ours.values()))

    clean = await settle(no_links, 3)
    for j in w.rng.sample(jobs, len(jobs)):
        j["gate"].touch()
        if w.rng.random() < 0.3:
            await asyncio.sleep(0.002)
    done, pending = await asyncio.wait(tasks, timeout=15)
    for t in pending:
        t.cancel()
    if pending:
        await asyncio.wait(pending, timeout=5)
    m.check(not pending, "stuck", f"{len(pending)} of {len(tasks)} did not finish: an end of a pipe is held by someone else?")
    for t in tasks:
        if t in pending:
            continue
        results = [t.result() if not t.exception() else t.exception()] if case["loops"] == 1 else t.result()
        for job, res in zip([jobs[tasks.index(t)]] if case["loops"] == 1 else t.chunk, results):
            if isinstance(res, BaseException):
                if isinstance(res, (AssertionError, TypeError, NameError)):
                    raise res
                m.viol("run-failed", f"{res!r} {job['item']}")
                continue
            m.event("runs")
            if res is not None:
                got = res.replace(b"\r\n", b"\n") if job["pty"] else res
                m.eq(got, job["want"], "output", str(job["item"]))
    if not m.check(not missing, "no-dump", f"processes never started: {missing}"):
        return
    m.check(clean, "parent-keeps-link", f"parent still holds ends of pipes between children: {sorted(linked & set(ours.values()))[:4]}")
    judge(case, m, w, ours)
    closed = fd_table()
    for fd in w.owned:
        m.check("/pass" not in closed.get(fd, ""), "pass-not-closed", f"pass_fds_close descriptor {fd} still open in the parent")
    for fd in w.fds:
        if fd not in w.owned:
            m.check(fd in closed, "parent-closed", f"descriptor {fd} of the parent was closed")


def judge(case, m, w, ours):
    holders = {}
    for p in w.procs:
        m.event("tables")
        m.event("descriptors", len(p.table))
        for fd, target in p.table.items():
            if target.startswith(("pipe:", "socket:")):
                holders.setdefault(target, []).append((p, fd))
        it = case["items"][p.item]
        desc = f"{p.name} of {it['shape']} {it['in']}>{it['out']},{it['err']} table={p.table}"
        for fd in (0, 1, 2):
            got = p.table.get(fd, "<closed>")
            exp = p.exp[fd]
            if exp == "pipe":
                ok = got.startswith(("pipe:", "socket:"))
            elif exp == "tty":
                ok = got.startswith("/dev/pts/") and got == p.table.get(2)
            elif exp == "as1":
                ok = got == p.table.get(1)
            else:
                ok = got == exp[5:]
            m.check(ok, f"std{fd}", f"descriptor {fd} is {got}, expected {exp}: {desc}")
        extra = {fd: t for fd, t in p.table.items() if fd > 2}
        for fd, t in p.extra.items():
            m.check(extra.pop(fd, None) == t, "pass-missing", f"pass_fds descriptor {fd} is not there: {desc}")
        if case["loop"] == "uvloop":
            # uvloop leaves what is inheritable to its children, and second copies of 0, 1, 2.
            std = {p.table.get(i) for i in (0, 1, 2)}
            extra = {fd: t for fd, t in extra.items() if t not in std and w.static.get(fd) != t and "noise-churn" not in t and t not in w.churned}
        elif p.all:
            # close_fds=False: whatever is inheritable, and nothing else
            for fd, t in w.static.items():
                if fd not in w.owned:
                    m.check(extra.get(fd) == t, "inherit-missing", f"inheritable descriptor {fd} is not there: {desc}")
            extra = {fd: t for fd, t in extra.items() if w.static.get(fd) != t and "noise-churn" not in t and t not in w.churned}
        pipes = {fd: t for fd, t in extra.items() if t.startswith("pipe:")}
        m.check(len(pipes) == p.subs == len(extra), "leak", f"{len(extra)} further descriptors, expected {p.subs}: {desc}")
    # who holds each pipe
    subs = {}
    for a, fa, b, fb in w.links:
        if "sub" in (fa, fb):
            p, q, f = (a, b, fb) if fa == "sub" else (b, a, fa)
            t = q.table[f]
            mine = [fd for fd, x in p.table.items() if x == t]
            m.check(len(mine) == 1 and mine[0] > 2, "sub-link", f"process substitution pipe {t} of {q.name} not in {p.name}: {p.table}")
            subs[t] = {p, q}
        else:
            t = a.table[fa]
            m.check(t == b.table[fb], "link", f"{a.name}.{fa}={t} but {b.name}.{fb}={b.table[fb]}")
            subs[t] = {a, b}
        m.event("links")
    for t, hold in holders.items():
        if t in w.static.values() or t in w.churned:
            continue
        ps = {p for p, _ in hold}
        if t in subs:
            m.check(ps == subs[t], "pipe-shared", f"{t} held by {[(p.name, f) for p, f in hold]}")
        elif not all(p.all for p in ps) and case["loop"] != "uvloop":
            m.check(len(ps) == 1, "pipe-shared", f"{t} held by {[(p.name, f) for p, f in hold]}")
            if case["loop"] != "uvloop" and t.startswith("pipe:") and hold[0][1] != 0:
                m.check(t in ours.values(), "pipe-no-reader", f"{t} of {[(p.name, f) for p, f in hold]} has no other end in the parent")
