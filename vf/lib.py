"Helpers shared by the property modules: child programs, reference data, snapshots."

import asyncio
import contextlib
import functools
import gc
import io
import os
import random
import struct
import sys
import time
import warnings
from pathlib import Path

from shellous import sh

VCH = os.environ.get("VF_VCHILD", "")
M64 = (1 << 64) - 1


def vpath():
    return os.environ["VF_VCHILD"]


def V(*ops, ctx=sh):
    "A command that runs the scriptable child with `ops`."
    return ctx(vpath(), *ops)


# --- reference data -------------------------------------------------------


def _splitmix(x):
    x = (x + 0x9E3779B97F4A7C15) & M64
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
    return x ^ (x >> 31)


@functools.lru_cache(maxsize=256)
def pat(n, seed):
    "The n pattern bytes that `vchild out:n:seed` writes."
    base = (seed * 1000003) & M64
    blocks = [_splitmix((base + i) & M64) for i in range((n + 7) // 8)]
    return struct.pack(f"<{len(blocks)}Q", *blocks)[:n]


def fnv_line(data):
    "The line `vchild hash` prints for `data`."
    h = 1469598103934665603
    for b in data:
        h = ((h ^ b) * 1099511628211) & M64
    return b"%d %016x\n" % (len(data), h)


EDGE = [0, 1, 2, 7, 100, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385]
BIG = [65535, 65536, 65537, 70000, 131072, 131073, 200001]


def pick_size(rng, big=0.25, huge=0.0):
    r = rng.random()
    if r < huge:
        return rng.choice([300000, 524288, 1000003])
    if r < huge + big:
        return rng.choice(BIG)
    if r < huge + big + 0.45:
        return rng.choice(EDGE)
    return rng.randrange(0, 30000)


def pick_loop(rng, w=0.6, kinds=("debug", "eager", "uvloop", "threaded", "shw")):
    return "default" if rng.random() < w else rng.choice(list(kinds))


ALPHA = "abcdefghijklmnopqrstuvwxyz0123456789 .,;-_ABCXYZ"
UNI = "éßñ中文字日本語жΩ€😀𝒳\u0301"


def rand_text(rng, n, nl=0.1, uni=0.3, crlf=False):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < nl:
            out.append("\r\n" if crlf and rng.random() < 0.5 else "\n")
        elif r < nl + uni:
            out.append(rng.choice(UNI))
        else:
            out.append(rng.choice(ALPHA))
    return "".join(out)


def ops_for(data, rng=None, stream="outx", cuts=None):
    "Ops that write `data` in pieces separated at `cuts` (small data only)."
    out = []
    prev = 0
    for c in sorted(set(cuts or [])) + [len(data)]:
        if c > prev:
            out.append(f"{stream}:{data[prev:c].hex()}")
            prev = c
    return out


# --- fd / process / task snapshots ------------------------------------------


def fd_table():
    "Map fd -> target for every descriptor open in this process."
    out = {}
    dfd = os.open("/proc/self/fd", os.O_RDONLY | os.O_DIRECTORY)
    try:
        for name in os.listdir(dfd):
            fd = int(name)
            if fd == dfd:
                continue
            try:
                out[fd] = os.readlink(name, dir_fd=dfd)
            except OSError:
                pass
    finally:
        os.close(dfd)
    return out


def fd_diff(before, after):
    "(opened, closed) between two tables, by number and target."
    opened = {k: v for k, v in after.items() if before.get(k) != v}
    closed = {k: v for k, v in before.items() if after.get(k) != v}
    return opened, closed


async def settle(cond, limit=4.0):
    "Poll cond() until true (bounded); gives loop callbacks time to run."
    for _ in range(20):
        if cond():
            return True
        await asyncio.sleep(0)
    end = time.monotonic() + limit
    delay = 0.001
    while time.monotonic() < end:
        if cond():
            return True
        await asyncio.sleep(delay)
        delay = min(delay * 1.5, 0.1)
    return cond()


def proc_children():
    kids = []
    for tid in os.listdir("/proc/self/task"):
        with contextlib.suppress(FileNotFoundError, ProcessLookupError):
            kids += [int(x) for x in Path(f"/proc/self/task/{tid}/children").read_text().split()]
    return kids


def other_tasks():
    cur = asyncio.current_task()
    return [t for t in asyncio.all_tasks() if t is not cur and not t.done()]


async def quiet_await(aw):
    try:
        return await aw
    except asyncio.CancelledError:
        raise
