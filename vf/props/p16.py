"P16: the child's argv is exactly the flattened, coerced argument list."
import collections
import datetime
import decimal
import enum
import fractions
import io
import ipaddress
import os
import pathlib
import types
import uuid

import shellous
from shellous import sh

from ..lib import *

PROP = "P16"
LEVEL = "exploration"
BUDGET = {"quick": 18, "thorough": 200}
TECHNIQUE = "runtime monitoring: argv dumped by the child process compared with an independent reference flattening of generated argument trees"
RULE = (
    "a case is (generated argument tree, way of applying it in one or several calls, run style, loop); "
    "distinct = set of value kinds and depth in the tree x style; non-trivial when at least one argument is passed"
)

STRS = [
    "", " ", "  ", "a b", "*", "?", "[a-z]*", "$HOME", "${PATH}", "`id`", "$(id)", "~", "~root", "|", ">", "<", ">>", "&", "&&", ";",
    "'", '"', "\\", "\\n", "\n", "a\nb\n", "\t", "-", "--", "-n", "--x=1", "a=b", "#", "!", "%s", "%d%%", "{}", "{a,b}", "\x01\x02", "\x7f",
    "é", "日本", "😀", "\udc80", "a\udcffb", "\u202e", "x" * 1000, "None", "True", "0", ".", "..", "/", "//", "./a", "a:b", "argv",
]


class Color(enum.Enum):
    RED = 1


class Num(enum.IntEnum):
    TWO = 2


class SEnum(str, enum.Enum):
    A = "alpha"


class MyStr(str):
    def __str__(self):
        return "WRONG-str-called"


class MyBytes(bytes):
    pass


class MyList(list):
    pass


Pt = collections.namedtuple("Pt", "x y")


class Fs:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class Obj:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return "WRONG-repr"


ASSUMPTIONS = ["uvloop 0.20 itself mishandles path-like arguments and bytes subclasses that are not pathlib objects; these are sampled on asyncio loops only"]
NOFS = False


class IterObj(Obj):
    "Iterable, but not a sequence: a scalar."

    def __iter__(self):
        return iter("WRONG")


def bts(rng):
    return bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 3, 20])))


def make(rng, depth, kinds, allow_bad):
    """Return (value, flat list of bytes | None if unsupported, mutator)."""
    r = rng.random()
    nop = lambda: None  # noqa
    if allow_bad and r < 0.08:
        bad = rng.choice(
            [
                None, {}, {"a": 1}, set(), {1}, frozenset({"x"}), (x for x in "ab"), range(3), range(0), Ellipsis,
                collections.OrderedDict(a=1), collections.Counter("ab"), types.MappingProxyType({}), {"k": 1}.keys(), {"k": 1}.items(),
                collections.defaultdict(int), collections.ChainMap({}), os.environ,
            ]
        )
        kinds.add("bad:" + type(bad).__name__)
        return bad, None, nop
    if r < 0.35:
        s = rng.choice(STRS) if rng.random() < 0.8 else rand_text(rng, rng.randrange(1, 40))
        if "\0" in s:
            s = "x"
        kinds.add("str")
        return s, [os.fsencode(s)], nop
    if r < 0.42:
        b = bts(rng)
        kinds.add("bytes")
        return b, [b], nop
    if r < 0.50:
        s = rng.choice([x for x in STRS if x])
        k = rng.choice(["Path", "PurePath", "fs", "fsb", "mystr", "mybytes", "senum"])
        if NOFS and k in ("fs", "fsb", "mybytes"):
            k = "Path"
        kinds.add(k)
        if k == "Path":
            p = pathlib.Path(s)
            return p, [os.fsencode(str(p))], nop
        if k == "PurePath":
            p = pathlib.PurePosixPath(s, "x")
            return p, [os.fsencode(str(p))], nop
        if k == "fs":
            return Fs(s), [os.fsencode(s)], nop
        if k == "fsb":
            return Fs(os.fsencode(s)), [os.fsencode(s)], nop
        if k == "mystr":
            return MyStr(s), [os.fsencode(s)], nop
        if k == "senum":
            return SEnum.A, [b"alpha"], nop
        b = bts(rng)
        return MyBytes(b), [b], nop
    if r < 0.62:
        b = bytearray(bts(rng))
        k = rng.choice(["bytearray", "memoryview", "mvslice", "StringIO", "BytesIO"])
        kinds.add(k)
        if k == "bytearray":
            want = bytes(b)
            return b, [want], lambda: b.extend(b"MUT")
        if k == "memoryview":
            want = bytes(b)

            def mut():
                b[:] = b"M" * len(b)

            return memoryview(b), [want], mut
        if k == "mvslice":
            b2 = bytes(range(1, 41))
            st = rng.choice([1, 2, 3, -1])
            mv = memoryview(b2)[rng.randrange(10) :: st] if st > 0 else memoryview(b2)[::-1]
            return mv, [mv.tobytes()], nop
        if k == "StringIO":
            s = rng.choice(STRS)
            f = io.StringIO(s, newline="")
            f.seek(rng.randrange(0, len(s) + 1))
            return f, [os.fsencode(s)], lambda: f.write("MUT" * 400)
        f = io.BytesIO(bytes(b))
        f.seek(rng.randrange(0, len(b) + 1))
        return f, [bytes(b)], lambda: f.write(b"MUT" * 400)
    if r < 0.78 or depth <= 0:
        v, t = rng.choice(
            [
                (0, "0"), (-5, "-5"), (10**30, "1" + "0" * 30), (1.5, "1.5"), (1e300, "1e+300"), (float("inf"), "inf"), (True, "True"), (False, "False"),
                (1 + 2j, "(1+2j)"), (decimal.Decimal("1.50"), "1.50"), (fractions.Fraction(1, 3), "1/3"),
                (uuid.UUID(int=5), "00000000-0000-0000-0000-000000000005"), (ipaddress.ip_network("10.0.0.0/30"), "10.0.0.0/30"),
                (ipaddress.ip_address("::1"), "::1"), (datetime.date(2020, 1, 2), "2020-01-02"), (Color.RED, "Color.RED"), (Num.TWO, "2"),
                (Obj("a b"), "a b"), (Obj(""), ""), (IterObj("it er"), "it er"), (Obj("ü€"), "ü€"),
            ]
        )
        kinds.add(type(v).__name__)
        return v, [t.encode()], nop
    # containers
    k = rng.choice(["list", "list", "tuple", "tuple", "mylist", "namedtuple", "reversed", "enumerate", "zip"])
    kinds.add(k)
    n = rng.choice([0, 1, 2, 3, 5])
    if k == "namedtuple":
        n = 2
    items = [make(rng, depth - 1, kinds, allow_bad) for _ in range(n)]
    vals = [v for v, _, _ in items]
    flat = []
    order = items[::-1] if k == "reversed" else items
    for i, (_, f, _) in enumerate(order):
        if k in ("enumerate", "zip"):
            flat.append(str(i if k == "enumerate" else i * 7).encode())
        if f is None:
            flat = None
            break
        flat += f
    val = {
        "list": lambda: vals,
        "tuple": lambda: tuple(vals),
        "mylist": lambda: MyList(vals),
        "namedtuple": lambda: Pt(*vals),
        "reversed": lambda: reversed(vals),
        "enumerate": lambda: enumerate(vals),
        "zip": lambda: zip([j * 7 for j in range(n)], vals),
    }[k]()

    def mut():
        for _, _, f in items:
            f()
        if k in ("list", "mylist"):
            val.append("MUTATED")

    return val, flat, mut


def gen(rng, tier):
    while True:
        yield {
            "seed": rng.randrange(1 << 40),
            "n": rng.choice([1, 1, 2, 3, 5, 10, 40]),
            "depth": rng.choice([0, 1, 2, 3, 4]),
            "bad": rng.random() < 0.25,
            "calls": rng.choice([1, 1, 2, 3]),
            "how": rng.choice(["ctx", "cmd", "mix"]),
            "style": rng.choice(["result", "await", "with", "pipe", "pty"]),
            "coerce": rng.choice(["none", "none", "id", "dict", "opt"]),
            "big": rng.choice(["", "", "", "", "long", "many"]),
            "loop": pick_loop(rng, 0.6),
        }


def coerce_fn(kind, seen):
    def fn(arg):
        seen.append(arg)
        if kind == "dict" and isinstance(arg, dict):
            return [f"--{k}={v}" for k, v in arg.items()]
        if kind == "opt" and arg is None:
            return ()
        return arg

    return fn


async def run(case, m):
    global NOFS
    NOFS = case["loop"] == "uvloop"
    rng = random.Random(case["seed"])
    kinds = set()
    seen = []
    co = case["coerce"]
    ctx = sh if co == "none" else sh.set(coerce_arg=coerce_fn(co, seen))
    prog = vpath()
    kind0 = rng.choice(["str", "bytes", "Path", "fs", "list"])
    prog_val = {"str": prog, "bytes": os.fsencode(prog), "Path": Path(prog), "fs": prog if NOFS else Fs(prog), "list": [prog]}[kind0]
    groups = []
    for _ in range(case["calls"]):
        items = []
        for _ in range(case["n"]):
            if co == "dict" and rng.random() < 0.3:
                d = {"a": 1, "b c": "x y"}
                items.append((d, [b"--a=1", b"--b c=x y"], lambda: None))
                kinds.add("coerced-dict")
            elif co == "opt" and rng.random() < 0.3:
                items.append((None, [], lambda: None))
                kinds.add("coerced-none")
            else:
                v, f, mu = make(rng, case["depth"], kinds, case["bad"])
                if co == "dict" and isinstance(v, dict):
                    f = [f"--{k}={x}".encode() for k, x in v.items()]
                if co == "opt" and v is None:
                    f = []
                items.append((v, f, mu))
        groups.append(items)
    if case["big"] == "long":
        s = "q" * 120000
        groups[-1].append((s, [s.encode()], lambda: None))
        kinds.add("long")
    elif case["big"] == "many":
        groups[-1].append((["w%d" % i for i in range(3000)], [b"w%d" % i for i in range(3000)], lambda: None))
        kinds.add("many")

    # Build.
    supported = all(f is not None for g in groups for _, f, _ in g)
    tag = f"{sorted(kinds)} calls={case['calls']} style={case['style']} loop={case['loop']}"
    try:
        if case["how"] == "ctx" and len(groups) == 1:
            cmd = ctx(prog_val, "argv", *[v for v, _, _ in groups[0]])
        else:
            cmd = ctx(prog_val, "argv")
            parents = [cmd]
            for g in groups:
                before = cmd.args
                new = cmd(*[v for v, _, _ in g])
                m.check(cmd.args is before or cmd.args == before, "call-mutates", tag)
                cmd = new() if rng.random() < 0.3 else new
                parents.append(cmd)
    except TypeError as ex:
        m.check(not supported, "supported-rejected", f"{tag}: {ex!r}")
        m.event("rejected")
        m.sig("rejected", ",".join(sorted(k for k in kinds if k.startswith("bad"))), case["depth"])
        return
    if not supported:
        m.viol("unsupported-accepted", f"{tag}: accepted {[v for g in groups for v, f, _ in g if f is None]!r:.300}")
        return
    # What the caller does with its objects afterwards does not matter.
    for g in groups:
        for _, _, mut in g:
            mut()
    want = [os.fsencode(prog), b"argv"] + [x for g in groups for _, f, _ in g for x in f]
    style = case["style"]
    if style == "pty" and case["loop"] == "uvloop":
        style = "result"
    cmd = cmd.set(encoding="latin-1")
    if style == "await":
        out = (await cmd).encode("latin-1")
    elif style == "result":
        res = await cmd.result
        m.eq(res.exit_code, 0, "exit", tag)
        out = res.output_bytes
    elif style == "with":
        async with cmd.stdout(sh.CAPTURE) as r:
            out = await r.stdout.read()
    elif style == "pipe":
        out = (await (V("exit:0") | cmd)).encode("latin-1")
    else:
        out = (await cmd.set(pty=shellous.raw())).encode("latin-1")
    got = [bytes.fromhex(x.decode()) for x in out.split(b"\n")[:-1]]
    m.eq(got, want, "argv", tag)
    m.event("argv_entries", len(want))
    m.sig(style, case["calls"], case["loop"], case["coerce"], ",".join(sorted(kinds)))


