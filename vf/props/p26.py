"P26: programs are found by the documented search rule."
import os

import shellous
from shellous import sh

from ..lib import *

PROP = "P26"
LEVEL = "exploration"
BUDGET = {"quick": 18, "thorough": 180}
TECHNIQUE = "runtime monitoring: identity of the program that actually ran versus an independent model of the search rule over generated directory layouts"
RULE = (
    "a case is (layout of search directories, path option, PATH, name form, run style, loop); distinct = (kinds of entry before and at the first match, "
    "source of the search path, name form, style); non-trivial unless no directory has the name"
)

ENTRY = ["missing", "missing", "exec", "exec", "noexec", "dir", "link", "dangling", "linkdir", "linknoexec", "gx", "ro"]
NAMES = ["vfprog", "vfprog", "vf prog", "-vf", "vf.prog", "vfé", "vf*"]


def gen(rng, tier):
    while True:
        nd = rng.choice([1, 2, 3, 4])
        yield {
            "dirs": [rng.choice(["abs", "abs", "abs", "rel", "dot", "empty", "nodir", "file", "colonsp", "dup"]) for _ in range(nd)],
            "ent": [rng.choice(ENTRY) for _ in range(nd)],
            "cwd": rng.choice(ENTRY),
            "where": rng.choice(["option", "option", "env", "env", "both", "envarg", "optempty", "unset", "late"]),
            "name": rng.choice(NAMES),
            "form": rng.choice(["bare", "bare", "bare", "bytes", "fs", "slash", "reldir", "dotslash"]),
            "style": rng.choice(["await", "result", "with", "iter", "prompt", "pipe1", "pipe2", "pty", "ps"]),
            "loop": pick_loop(rng, 0.6),
        }


def put(path, kind, ident):
    "Create an entry; returns ident when it is a program that can be found."
    script = f"#!/bin/sh\necho ran-{ident}\n"
    real = path.parent / f".real-{path.name}"
    if kind in ("exec", "gx", "ro"):
        path.write_text(script)
        path.chmod({"exec": 0o755, "gx": 0o654, "ro": 0o555}[kind])
        return ident
    if kind == "noexec":
        path.write_text(script.replace("ran", "WRONG"))
        path.chmod(0o644)
    elif kind == "dir":
        path.mkdir()
    elif kind == "link":
        real.write_text(script)
        real.chmod(0o755)
        path.symlink_to(real.name)
        return ident
    elif kind == "dangling":
        path.symlink_to("nowhere")
    elif kind == "linkdir":
        path.symlink_to(".")
    elif kind == "linknoexec":
        real.write_text(script)
        real.chmod(0o600)
        path.symlink_to(real.name)
    return None


class Fs:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


async def run(case, m):
    name = case["name"]
    cwd = m.tmp / "cwd"
    cwd.mkdir()
    cwd_hit = put(cwd / name, case["cwd"], "cwd")
    os.chdir(cwd)
    elems, hits = [], []
    for i, (d, ent) in enumerate(zip(case["dirs"], case["ent"])):
        base = m.tmp / f"d{i}"
        if d == "dot":
            elems.append(".")
            hits.append(cwd_hit)
            continue
        if d == "empty":
            elems.append("")
            hits.append(cwd_hit)
            continue
        if d == "dup" and elems:
            elems.append(elems[-1])
            hits.append(hits[-1])
            continue
        if d == "nodir":
            elems.append(str(m.tmp / "missing"))
            hits.append(None)
            continue
        if d == "file":
            (m.tmp / f"f{i}").write_text("x")
            elems.append(str(m.tmp / f"f{i}"))
            hits.append(None)
            continue
        if d == "colonsp":
            base = m.tmp / f"d {i} $X"
        if d == "rel":
            base = cwd / f"rel{i}"
        base.mkdir()
        hits.append(put(base / name, ent, f"d{i}"))
        elems.append(f"rel{i}" if d == "rel" else str(base))
    spath = ":".join(elems)
    decoy = m.tmp / "decoy"
    decoy.mkdir()
    put(decoy / name, "exec", "decoy")
    where = case["where"]
    saved = os.environ.get("PATH")
    first = next((h for h in hits if h), None)
    if spath == "":
        first = None  # an empty search path finds nothing
    ctx = sh
    try:
        os.environ["PATH"] = str(decoy)
        if where == "option":
            ctx = sh.set(path=spath)
        elif where == "env":
            os.environ["PATH"] = spath
        elif where == "both":
            ctx = sh.set(path=spath)
            os.environ["PATH"] = f"{decoy}:{spath}"
        elif where == "envarg":
            # The child's own PATH is not what is searched.
            os.environ["PATH"] = spath
            ctx = sh.env(PATH=str(decoy))
        elif where == "optempty":
            ctx = sh.set(path="")
            first = None
        elif where == "unset":
            del os.environ["PATH"]
            first = None
        elif where == "late":
            os.environ["PATH"] = "/nonexistent"
        form = case["form"]
        if case["loop"] == "uvloop" and form == "fs":
            form = "bare"
        arg0 = {"bare": name, "bytes": os.fsencode(name), "fs": Fs(name)}.get(form, name)
        kind = None
        if form == "slash":
            kind, i = case["ent"][0], 0
            target = m.tmp / "abs"
            target.mkdir()
            want = put(target / name, kind, "abs")
            arg0 = str(target / name)
        elif form == "reldir":
            kind = case["ent"][0]
            (cwd / "sub").mkdir()
            want = put(cwd / "sub" / name, kind, "sub")
            arg0 = f"sub/{name}"
        elif form == "dotslash":
            kind, want, arg0 = case["cwd"], cwd_hit, f"./{name}"
        elif where == "late":
            want = first
        else:
            want = first
        cmd = ctx(arg0, "arg")
        if where == "late":
            os.environ["PATH"] = spath  # looked up when it runs
        tag = f"path={spath!r} hits={hits} where={where} form={form} style={case['style']} kind={kind}"

        found = None
        if form in ("bare", "slash", "reldir", "dotslash"):
            found = ctx.find_command(arg0 if isinstance(arg0, str) else name)
            m.eq(found is not None, want is not None, "find-command", f"{tag}: found {found}")
            if found is not None:
                m.check(f"ran-{want}\n" in (cwd / found).read_text(), "find-command-which", f"{tag}: {found}, expected {want}")

        style = case["style"]
        if style == "pty" and case["loop"] == "uvloop":
            style = "await"
        outcome = None
        try:
            if style == "await":
                out = await cmd
            elif style == "result":
                out = (await cmd.result).output
            elif style == "with":
                async with cmd.stdout(sh.CAPTURE) as r:
                    out = (await r.stdout.read()).decode()
            elif style == "iter":
                out = "".join([x async for x in cmd])
            elif style == "prompt":
                async with cmd.prompt() as cli:
                    out = await cli.read_all()
            elif style == "pipe1":
                out = await (cmd | V("cat"))
            elif style == "pipe2":
                out = await (V("exit:0") | cmd)
            elif style == "pty":
                out = (await cmd.set(pty=True)).replace("\r\n", "\n")
            elif style == "ps":
                out = await V("pmode:cat")(cmd)
            outcome = out
        except OSError as ex:
            outcome = type(ex).__name__
        if want is not None:
            expect = f"ran-{want}\n"
        elif kind in ("noexec", "dir", "linkdir", "linknoexec"):
            expect = "PermissionError"
        else:
            expect = "FileNotFoundError"
        m.eq(outcome, expect, "wrong-program", tag)
        m.event("found" if want else "not_found")
        k = hits.index(first) if first else len(hits)
        if not first and not any(e != "missing" for e in case["ent"]):
            m.trivial = True
        m.sig(where, form, style, case["loop"], ",".join(f"{d}:{e}" for d, e in zip(case["dirs"][: k + 1], case["ent"])))
    finally:
        if saved is not None:
            os.environ["PATH"] = saved
