"P17: the child's environment is exactly the configured one."
from shellous import cooked, raw
from shellous.command import CmdContext

from ..lib import *

PROP = "P17"
LEVEL = "exploration"
BUDGET = {"quick": 18, "thorough": 200}
TECHNIQUE = "runtime monitoring: environment block dumped by the child process compared with an independent merge of the modifiers applied; the parent's environment compared before and after"
RULE = (
    "a case is (sequence of env modifiers on contexts and commands, changes of the parent's environment, run style); "
    "distinct = the modifier sequence with key/value classes; non-trivial when at least one modifier or parent change is applied"
)

KEYS = ["VF_A", "VF_B", "VF_C", "vf_a", "VF_É", "PATH", "HOME", "LC_ALL", "VF.DOT", "VF SPACE", "self", "base", "updates", "env", "path", "_data", "", "1", "VF_\udc80"]
# (values chosen so that str() matters)
VALUES = ["", "x", "a b", "a=b", "$HOME", "line\nbreak", "é日", "\udcff", 0, 1, -5, 2.5, True, False, None, 10**20, "x" * 5000, ("t", 1), Path("/a/b"), b"raw", float("inf")]
STYLES = ["await", "result", "with", "iter", "prompt", "pipe", "procsub", "gather", "pty", "stdin"]


def gen(rng, tier):
    while True:
        steps = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
            on = rng.choice(["env", "env", "env", "set", "set", "inherit", "other", "fork"])
            n = rng.choice([0, 1, 1, 2, 4])
            ks = [rng.randrange(len(KEYS)) for _ in range(n)]
            steps.append([on, [[k, rng.randrange(len(VALUES))] for k in ks], rng.random() < 0.5])
        style = rng.choice(STYLES)
        yield {
            "steps": steps,
            "where": rng.randrange(0, len(steps) + 1),
            "style": style,
            "parent": [[rng.choice(["VF_A", "VF_B", "VF_P", "VF_É"]), rng.choice(["p", "", "é\nq", None])] for _ in range(rng.choice([0, 0, 1, 3]))],
            "late": rng.random() < 0.5,
            "seed": rng.randrange(1 << 30),
            "loop": pick_loop(rng, 0.7) if style != "pty" else pick_loop(rng, 0.8, ("debug", "eager")),
        }


def ok_key(k):
    return k != "" and "=" not in k


def parse(text):
    out = {}
    dup = []
    for line in text.split():
        item = bytes.fromhex(line)
        k, _, v = item.partition(b"=")
        if k in out:
            dup.append(k)
        out[k] = v
    return out, dup


def apply(obj, model, step):
    "Apply one step; the model is (settings, inherit)."
    on, kv, flag = step
    env, inherit = model
    kv = {KEYS[k]: VALUES[v] for k, v in kv if ok_key(KEYS[k])}
    if on == "env":
        kw = {k: v for k, v in kv.items() if k != "self"}
        return obj.env(**kw), ({**env, **{k: str(v) for k, v in kw.items()}}, inherit)
    if on == "set":
        given = dict(kv)
        new = obj.set(env=given)
        given["VF_LATE"] = "must not be seen"
        return new, ({k: str(v) for k, v in kv.items()}, inherit)
    if on == "inherit":
        return obj.set(inherit_env=flag), (env, flag)
    if on == "fork":
        # derived objects do not influence each other
        obj.env(VF_A="other", VF_Z="z").set(inherit_env=not inherit)
        return obj, model
    return obj.set(timeout=60 if flag else None, alt_name="x"), model


def expected(model):
    env, inherit = model
    want = dict(os.environb) if inherit else {}
    want.update({os.fsencode(k): os.fsencode(v) for k, v in env.items()})
    return want


async def run(case, m):
    rng = random.Random(case["seed"])
    saved = dict(os.environb)
    try:
        await body(case, m, rng)
    finally:
        now = dict(os.environb)
        for k in set(now) - set(saved):
            del os.environb[k]
        for k, v in saved.items():
            if now.get(k) != v:
                os.environb[k] = v


def change_parent(case):
    for k, v in case["parent"]:
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v


async def body(case, m, rng):
    if not case["late"]:
        change_parent(case)
    obj, model = CmdContext() if rng.random() < 0.5 else sh, ({}, True)
    made = False
    style = case["style"]
    for i, step in enumerate(case["steps"]):
        if i == case["where"]:
            obj, made = obj(vpath(), "env"), True
        obj, model = apply(obj, model, step)
    if not made:
        obj = obj(vpath(), "env")
    if case["late"]:
        change_parent(case)
    before = dict(os.environb)
    want = expected(model)
    other = ({"VF_OTHER": "1", "VF_A": "other"}, False)
    steps = [(s[0], tuple(KEYS[k] for k, _ in s[1]), tuple(type(VALUES[v]).__name__ for _, v in s[1]), s[2]) for s in case["steps"]]
    m.sig(style, case["where"], steps, case["late"], [tuple(p) for p in case["parent"]], case["loop"])
    m.trivial = not case["steps"] and not case["parent"]
    tag = f"{style} steps={steps} parent={case['parent']} late={case['late']}"
    oth = sh(vpath(), "env").set(inherit_env=False).env(VF_OTHER=1, VF_A="other")
    texts = []
    if style == "await":
        texts = [(await obj, want)]
    elif style == "result":
        texts = [((await obj.result).output, want)]
    elif style == "stdin":
        texts = [(await (b"" | obj), want)]
    elif style == "with":
        async with obj.stdout(sh.CAPTURE) as r:
            texts = [((await r.stdout.read()).decode(), want)]
    elif style == "iter":
        texts = [("".join([x async for x in obj]), want)]
    elif style == "prompt":
        async with obj.prompt() as cli:
            texts = [(await cli.read_all(), want)]
    elif style == "pty":
        texts = [(await obj.set(pty=raw()), want)]
    elif style == "pipe":
        # each command has its own environment
        text = await (oth | obj("cat"))
        # the second dumps its own environment, then copies its input
        lines = text.split()
        n = len(want)
        texts = [(" ".join(lines[:n]), want), (" ".join(lines[n:]), expected(other))]
    elif style == "procsub":
        text = await oth("pmode:cat", obj)
        lines = text.split()
        n = len(expected(other))
        texts = [(" ".join(lines[:n]), expected(other)), (" ".join(lines[n:]), want)]
    elif style == "gather":
        a, b, c = await asyncio.gather(go(obj), go(oth), go(obj.env(VF_MORE="m")))
        texts = [(a, want), (b, expected(other)), (c, {**want, b"VF_MORE": b"m"})]
    for text, w in texts:
        got, dup = parse(text)
        m.event("environments_dumped")
        m.check(not dup, "duplicate-names", f"{tag}: {dup}")
        if got != w:
            extra = {k: got[k] for k in got if k not in w}
            missing = {k: w[k] for k in w if k not in got}
            diff = {k: (got[k], w[k]) for k in w if k in got and got[k] != w[k]}
            m.viol("environment-differs", f"{tag}: extra {extra} missing {missing} different(got,want) {diff}"[:1500])
        else:
            m.event("oracle_checks")
    m.check(dict(os.environb) == before, "parent-modified", f"{tag}: {set(os.environb.items()) ^ set(before.items())}"[:600])
    # The settings themselves can be read back.
    env, inherit = model
    have = obj.options.env
    m.check(dict(have or {}) == env, "settings-differ", f"{tag}: options.env = {have!r}, expected {env}"[:900])


async def go(c):
    return await c
