"P15: commands, contexts and pipelines are immutable values."
import asyncio
import copy
import dataclasses
import io
import logging
import pathlib
import signal

import shellous
from shellous import sh
from shellous.command import CmdContext, Command, Options
from shellous.pipeline import Pipeline

from ..lib import *

PROP = "P15"
LEVEL = "exploration"
BUDGET = {"quick": 20, "thorough": 240}
TECHNIQUE = "runtime monitoring: random construction programs over shared objects, every object's snapshot re-checked after every operation and run; reference model of option chains; equality/hash laws"
RULE = (
    "a case is (random program of modifiers/operators/calls over a growing pool of shared objects, interleaved sequential and concurrent runs); "
    "distinct = set of operation kinds used and run modes; every case is non-trivial (at least 10 operations)"
)

FIELDS = [f.name for f in dataclasses.fields(Options)]
DEFAULTS = {f.name: f.default for f in dataclasses.fields(Options)}


def cb(phase, info):
    pass


def co(arg):
    return arg


SETTABLE = {
    "path": [None, "/bin", "/usr/bin:/bin", ""],
    "env": [{}, {"A": 1}, {"A": "x", "B": None}, None, {"C": ""}],
    "inherit_env": [True, False],
    "encoding": ["utf-8", "latin-1", "utf-8 replace"],
    "_return_result": [True, False],
    "exit_codes": [None, frozenset({0, 1}), range(5), (0, 3), frozenset(), [0, 3], {0, 3}],
    "timeout": [None, 0, 30.0, 60],
    "cancel_timeout": [0.0, 3.0, 9],
    "cancel_signal": [None, signal.SIGTERM, signal.SIGINT],
    "alt_name": [None, "alias", ""],
    "pass_fds": [(), (0,), (1, 2), [0], [1, 2], [2, 0], {1}],
    "pass_fds_close": [False],
    "_start_new_session": [True, False],
    "close_fds": [True],
    "audit_callback": [None, cb],
    "coerce_arg": [None, co],
    "error_limit": [None, 0, 10, 1024],
}


def gen(rng, tier):
    while True:
        yield {"seed": rng.randrange(1 << 40), "n": rng.choice([12, 25, 50]), "runs": rng.choice([1, 2, 3]), "loop": pick_loop(rng, 0.7)}


class Ent:
    "A pooled object, its snapshot and the model of what it should be."

    def __init__(self, obj, kind, args, opts, recipe):
        self.obj, self.kind, self.args, self.opts, self.recipe = obj, kind, args, opts, recipe
        self.snap = snapshot(obj)


def osnap(o):
    out = {}
    for f in FIELDS:
        v = getattr(o, f)
        if f == "env" and v is not None:
            v = ("env", dict(v), list(v))
        elif type(v) in (list, set, dict):
            v = (type(v).__name__, id(v), *v)
        out[f] = v
    return out


def snapshot(obj):
    "Everything observable about the value, copied."
    if isinstance(obj, Pipeline):
        return ("pipe", tuple(snapshot(c) for c in obj.commands), tuple(id(c) for c in obj.commands))
    args = tuple(getattr(obj, "args", ()))
    o = osnap(obj.options)
    return (type(obj).__name__, args, tuple((k, id(v) if not isinstance(v, (tuple, str, int, float, type(None))) else v) for k, v in o.items()), id(obj.options))


def model_of(obj):
    "(args, options dict) read back from the object."
    o = {f: getattr(obj.options, f) for f in FIELDS}
    o["env"] = dict(o["env"]) if o["env"] is not None else None
    return tuple(getattr(obj, "args", ())), o


def same(a, b):
    "Option values equal (objects that are not values by identity)."
    return a is b or (type(a) is type(b) and not isinstance(a, (bytearray, io.IOBase)) and a == b) or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b and type(a) is type(b))


class World:
    def __init__(self, rng, m):
        self.rng, self.m = rng, m
        self.pool = []
        self.kinds = set()
        self.sinks = [bytearray(b"old"), io.BytesIO(b"old"), io.StringIO("old"), m.tmp / "out", logging.getLogger("vf.null"), sh.DEVNULL, sh.CAPTURE, sh.INHERIT, sh.BUFFER, 2]
        self.sources = [b"abc", "text\n", bytearray(b"xyz"), m.tmp / "in", io.BytesIO(b"bio"), io.StringIO("sio"), sh.DEVNULL, sh.CAPTURE, sh.INHERIT, 0]
        (m.tmp / "in").write_bytes(b"file")
        self.add(sh, "ctx", (), dict(DEFAULTS), ("sh",))
        self.add(CmdContext(), "ctx", (), dict(DEFAULTS), ("CmdContext",))

    def add(self, obj, kind, args, opts, recipe):
        e = Ent(obj, kind, args, opts, recipe)
        self.pool.append(e)
        return e

    def pick(self, *kinds):
        c = [e for e in self.pool if e.kind in kinds]
        return self.rng.choice(c[-12:] if self.rng.random() < 0.6 else c) if c else None

    # model operations on option dicts
    @staticmethod
    def m_set(o, kw):
        o = dict(o)
        for k, v in kw.items():
            v = type(v)(v) if type(v) in (list, set) else v
            o[k] = ({str(a): str(b) for a, b in v.items()} if v else None) if k == "env" else v
        return o

    @staticmethod
    def m_env(o, kw):
        o = dict(o)
        o["env"] = {**(o["env"] or {}), **{str(a): str(b) for a, b in kw.items()}}
        return o

    @staticmethod
    def m_in(o, v, close=False):
        return {**o, "input": v, "input_close": close}

    @staticmethod
    def m_out(o, v, append=False, close=False):
        return {**o, "output": v, "output_append": append, "output_close": close}

    @staticmethod
    def m_err(o, v, append=False, close=False):
        return {**o, "error": v, "error_append": append, "error_close": close}

    @staticmethod
    def m_result(o):
        return {**o, "_return_result": True, "exit_codes": range(-255, 256)}

    def random_op(self):
        "A function applicable to an object, with its effect on the model."
        rng = self.rng
        k = rng.choice(["set", "set", "set", "env", "env", "stdin", "stdout", "stderr", "ror", "or", "rshift", "result", "writable", "setenv"])
        if k == "set":
            kw = {n: rng.choice(SETTABLE[n]) for n in rng.sample(sorted(SETTABLE), rng.choice([1, 1, 2, 4]))}
            return k, lambda x: x.set(**kw), lambda o: self.m_set(o, kw), ("ctx", "cmd")
        if k == "setenv":
            d = {rng.choice("ABCD"): rng.choice([1, "v", True, 2.5]) for _ in range(3)}
            kept = dict(d)

            def go(x):
                y = x.set(env=d)
                d.clear()
                d["EVIL"] = "1"
                y2 = y
                d.clear()
                d.update(kept)
                return y2

            return k, go, lambda o: self.m_set(o, {"env": kept}), ("ctx", "cmd")
        if k == "env":
            kw = {rng.choice(["A", "B", "C", "PATHX"]): rng.choice([1, "v", None, 2.5, ""]) for _ in range(rng.choice([0, 1, 2]))}
            return k, lambda x: x.env(**kw), lambda o: self.m_env(o, kw), ("ctx", "cmd")
        if k in ("stdin", "ror"):
            v = rng.choice(self.sources)
            if k == "ror":
                return k, lambda x: v | x, lambda o: self.m_in(o, v), ("cmd", "pipe")
            return k, lambda x: x.stdin(v), lambda o: self.m_in(o, v), ("ctx", "cmd", "pipe")
        if k in ("stdout", "or", "rshift"):
            v = rng.choice(self.sinks)
            if k == "or":
                return k, lambda x: x | v, lambda o: self.m_out(o, v), ("cmd", "pipe")
            if k == "rshift":
                return k, lambda x: x >> v, lambda o: self.m_out(o, v, True), ("cmd", "pipe")
            a = rng.random() < 0.5
            return k, lambda x: x.stdout(v, append=a), lambda o: self.m_out(o, v, a), ("ctx", "cmd", "pipe")
        if k == "stderr":
            v = rng.choice([*self.sinks, sh.STDOUT])
            a = rng.random() < 0.5
            return k, lambda x: x.stderr(v, append=a), lambda o: self.m_err(o, v, a), ("ctx", "cmd", "pipe")
        if k == "result":
            return k, lambda x: x.result, self.m_result, ("ctx", "cmd", "pipe")
        return k, lambda x: x.writable, lambda o: {**o, "_writable": True}, ("cmd", "pipe")

    def step(self):
        rng = self.rng
        r = rng.random()
        if r < 0.2:
            e = self.pick("ctx")
            ops = self.rand_ops()
            args = (vpath(), *ops)
            return self.derive("call-ctx", e, lambda x: x(*args), "cmd", lambda a, o: (args, o))
        if r < 0.32:
            e = self.pick("cmd")
            if e is None:
                return None
            ops = self.rand_ops()
            return self.derive("call-cmd", e, lambda x: x(*ops), "cmd", lambda a, o: (a + tuple(ops), o))
        if r < 0.50:
            a, b = self.pick("cmd", "pipe"), self.pick("cmd", "pipe")
            if a is None:
                return None
            if (a.kind == "pipe" and len(a.obj) + (len(b.obj) if b.kind == "pipe" else 1) > 5) or (b.kind == "pipe" and len(b.obj) > 4):
                return None
            self.kinds.add(f"join-{a.kind}-{b.kind}")
            parts_a = a.args if a.kind == "pipe" else ((a.args, a.opts),)
            parts_b = b.args if b.kind == "pipe" else ((b.args, b.opts),)
            obj = a.obj | b.obj
            return self.add(obj, "pipe", parts_a + parts_b, None, ("join", a.recipe, b.recipe))
        k, fn, mod, on = self.random_op()
        e = self.pick(*on)
        if e is None:
            return None
        if e.kind == "pipe":
            first = k in ("stdin", "ror")

            def newparts(parts, _):
                i = 0 if first else len(parts) - 1
                p = list(parts)
                p[i] = (p[i][0], mod(p[i][1]))
                return tuple(p), None

            return self.derive(k, e, fn, "pipe", newparts)
        return self.derive(k, e, fn, e.kind, lambda a, o: (a, mod(o)))

    def derive(self, k, e, fn, kind, model):
        self.kinds.add(f"{k}-{e.kind}")
        obj = fn(e.obj)
        again = fn(e.obj)
        args, opts = model(e.args, e.opts)
        tag = f"{k} on {e.kind}"
        self.m.check(obj == again, "equal-chains-differ", tag)
        h = []
        for x in (obj, again):
            try:
                h.append(hash(x))
            except TypeError:
                h.append("unhashable")
        self.m.check(h[0] == h[1], "equal-hash-differs", tag)
        self.m.event("hashable" if h[0] != "unhashable" else "unhashable")
        return self.add(obj, kind, args, opts, (k, e.recipe))

    def rand_ops(self):
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            out.append(rng.choice(["outx:41", "outx:4242420a", "errx:45", "errx:4646", "cat", "exit:3", "exit:0"]))
        return out

    def check_new(self, e):
        "The object is what the model says."
        m = self.m
        objs = e.obj.commands if e.kind == "pipe" else (e.obj,)
        want = e.args if e.kind == "pipe" else ((e.args, e.opts),)
        m.check(len(objs) == len(want), "wrong-length", f"{e.recipe}")
        for obj, (args, opts) in zip(objs, want):
            ga, go = model_of(obj)
            if e.kind != "ctx":
                m.eq(ga, tuple(args), "chain-args", f"{e.recipe}")
            diff = {f: (go[f], opts[f]) for f in FIELDS if not same(go[f], opts[f])}
            m.check(not diff, "chain-options", f"{e.recipe}: {diff}")
        m.check(isinstance(e.obj, {"ctx": CmdContext, "cmd": Command, "pipe": Pipeline}[e.kind]), "wrong-type", f"{e.recipe} -> {type(e.obj)}")

    def check_all(self, after):
        for e in self.pool:
            self.m.event("snapshots_checked")
            if snapshot(e.obj) != e.snap:
                self.m.viol("object-changed", f"after {after}: {e.kind} made by {e.recipe} changed: {snapshot(e.obj)} was {e.snap}")
                return False
        return True


def predict(args, o):
    "(stdout, stderr, exit) of a command, when its redirections are simple."
    data = None
    inp = o["input"]
    if isinstance(inp, (bytes, bytearray)):
        data = bytes(inp)
    elif isinstance(inp, str):
        data = inp.encode()
    elif isinstance(inp, pathlib.Path):
        data = b"file"
    elif isinstance(inp, io.BytesIO):
        data = inp.getvalue()
    elif isinstance(inp, io.StringIO):
        data = inp.getvalue().encode()
    elif inp is DEFAULTS["input"] or inp is sh.DEVNULL:
        data = b""
    if data is None:
        return None
    out = err = b""
    code = 0
    for op in args[1:]:
        k, _, v = op.partition(":")
        if k == "outx":
            out += bytes.fromhex(v)
        elif k == "errx":
            err += bytes.fromhex(v)
        elif k == "cat":
            out += data
            data = b""
        elif k == "exit":
            code = int(v)
            break
    return out, err, code


async def once(obj):
    return await obj


def reads_all(args):
    "The command reads its standard input before it exits."
    for op in args[1:]:
        if op == "cat":
            return True
        if op.startswith("exit"):
            return False
    return False


async def run(case, m):
    rng = random.Random(case["seed"])
    w = World(rng, m)
    for i in range(case["n"]):
        e = w.step()
        if e is None:
            continue
        w.check_new(e)
        if not w.check_all(e.recipe[0]) or m.violations:
            return
        m.event("operations")
    # Unequal models are unequal objects; assignments are refused.
    for _ in range(30):
        a, b = rng.choice(w.pool), rng.choice(w.pool)
        if a.kind == b.kind and a.kind != "pipe":
            eq = (a.kind == "ctx" or a.args == b.args) and all(same(a.opts[f], b.opts[f]) or a.opts[f] == b.opts[f] for f in FIELDS)
            m.check((a.obj == b.obj) == eq, "equality", f"{a.recipe} vs {b.recipe}: model equal={eq}")
            if a.obj == b.obj:
                try:
                    ha, hb = hash(a.obj), hash(b.obj)
                    m.check(ha == hb, "equal-hash-differs", f"{a.recipe} vs {b.recipe}")
                except TypeError:
                    pass
        elif a.kind != b.kind:
            m.check(a.obj != b.obj, "equality", f"{a.kind} == {b.kind}")
    e = rng.choice(w.pool)
    for attr in ("args", "options", "commands"):
        if hasattr(e.obj, attr):
            try:
                setattr(e.obj, attr, ())
                m.viol("assignable", f"{e.kind}.{attr} can be assigned")
            except (dataclasses.FrozenInstanceError, AttributeError):
                m.event("assignments_refused")
    # Run some of them, several times.
    modes = set()
    for _ in range(case["runs"]):
        e = w.pick("cmd")
        if e is None:
            break
        o = e.opts
        if o["path"] == "" or o["timeout"] == 0 or o["input"] in (sh.CAPTURE, sh.INHERIT, 0) or any(o[x] in (sh.CAPTURE, sh.INHERIT, 2) for x in ("output", "error")):
            continue
        if isinstance(o["input"], int) and o["input"] is sh.STDOUT:
            continue
        want = predict(e.args, o)
        if want is None:
            continue
        count = rng.choice([1, 2, 3, 5])
        conc = count > 1 and rng.random() < 0.5 and not any(isinstance(o[x], (bytearray, io.IOBase, pathlib.Path)) for x in ("output", "error"))
        obj = e.obj.result
        if conc:
            got = await asyncio.gather(*[once(obj) for _ in range(count)], return_exceptions=True)
        else:
            got = []
            for _ in range(count):
                got += await asyncio.gather(once(obj), return_exceptions=True)
        res = []
        for r in got:
            if isinstance(r, BrokenPipeError) and not reads_all(e.args):
                m.event("unread_input")
            elif isinstance(r, BaseException):
                raise r
            else:
                res.append(r)
        modes.add("conc" if conc else "seq")
        tag = f"run of {e.recipe} args={e.args[1:]}"
        plain = o["output"] in (DEFAULTS["output"], sh.BUFFER) if isinstance(o["output"], int) else False
        plain_err = o["error"] in (DEFAULTS["error"], sh.BUFFER) if isinstance(o["error"], int) else False
        for r in res:
            m.event("runs")
            m.check(r.exit_code == want[2], "run-differs", f"{tag}: exit {r.exit_code}, expected {want[2]}")
            if plain and o["error"] is not sh.STDOUT:
                m.eq(r.output_bytes, want[0], "run-differs", tag)
            if plain_err:
                lim = o["error_limit"]
                m.eq(r.error_bytes, want[1] if lim is None else want[1][:lim], "run-differs", tag)
        if not w.check_all("run"):
            return
        w.check_new(e)
    # A command with process substitutions as arguments, run again and again:
    # every run opens descriptors of its own for them.
    for _ in range(case["runs"]):
        e = w.pick("ctx")
        o = e.opts
        if o["path"] == "" or o["timeout"] == 0 or predict((), o) is None or o["coerce_arg"] or any(o[x] in (sh.CAPTURE, sh.INHERIT, 2) for x in ("output", "error")):
            continue
        subs = [rng.choice([sh(vpath(), "outx:414243"), sh(vpath(), "cat").writable, sh(vpath(), "outx:44") | sh(vpath(), "cat")]) for _ in range(rng.choice([1, 2, 3]))]
        snaps = [snapshot(x) for x in subs]
        args = [vpath()]
        for x in subs:
            # (a writing substitution is only named, a reading one is read)
            args += ["pmode:cat" if getattr(x, "options", None) is None or not x.options._writable else "pmode:ignore", x]
        cmd = e.obj(*args)
        parent = w.add(cmd, "cmd", tuple(args), o, ("procsub", e.recipe))
        count = rng.choice([1, 2, 2, 3])
        tag = f"substitution run of {e.recipe}"
        want = b"".join(b"" if getattr(x, "options", None) is not None and x.options._writable else b"ABC" if not isinstance(x, Pipeline) else b"D" for x in subs)
        conc = count > 1 and rng.random() < 0.3 and not any(isinstance(o[x], (bytearray, io.IOBase, pathlib.Path)) for x in ("output", "error"))
        if conc:
            got = await asyncio.gather(*[once(cmd.result) for _ in range(count)], return_exceptions=True)
        else:
            got = []
            for _ in range(count):
                got += await asyncio.gather(once(cmd.result), return_exceptions=True)
        plain = o["output"] in (DEFAULTS["output"], sh.BUFFER) if isinstance(o["output"], int) else False
        for r in got:
            if isinstance(r, BrokenPipeError):
                m.event("unread_input")
                continue
            if isinstance(r, BaseException):
                raise r
            m.event("runs")
            m.check(r.exit_code == 0, "run-differs", f"{tag}: {r!r}")
            if plain and o["error"] is not sh.STDOUT:
                m.eq(r.output_bytes, want, "run-differs", tag)
        modes.add("procsub")
        m.check([snapshot(x) for x in subs] == snaps, "object-changed", f"{tag}: a substituted command changed")
        if not w.check_all("substitution run"):
            return
        w.check_new(parent)
    for _ in range(case["runs"]):
        e = w.pick("pipe")
        if e is None or rng.random() < 0.5:
            break
        f, l = e.args[0][1], e.args[-1][1]
        if any(p[1]["path"] == "" or p[1]["timeout"] == 0 for p in e.args) or f["input"] in (sh.CAPTURE, sh.INHERIT, 0) or l["output"] in (sh.CAPTURE, sh.INHERIT, 2) or any(p[1]["error"] in (sh.CAPTURE, sh.INHERIT, 2) for p in e.args):
            continue
        outs = set()
        for _ in range(2):
            try:
                r = await e.obj.result
                outs.add((r.exit_code, r.output_bytes))
            except BrokenPipeError:
                pass
            m.event("runs")
        modes.add("pipe")
        if not w.check_all("pipeline run"):
            return
        w.check_new(e)
    m.sig(",".join(sorted(modes)), case["loop"], ",".join(sorted(w.kinds)))
