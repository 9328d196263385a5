"""C26: objects stay valid when those they were obtained from go away."""

import os
import pathlib
import subprocess
import sys

ID = "C26"
RULE = (
    "for every kind of object in the library (instance and its parts, routes, "
    "solutions, results, search routes, nodes, solutions, spaces, local "
    "searches, operators, neighbourhoods, parameters and utilities): every "
    "path of up to 3 (thorough: 4) accessors, element accesses and partly "
    "consumed iterators starting from it, x every subset of the objects along "
    "the path (and of what they were made from) released in between, in a "
    "process that overwrites released memory: what is finally held must still "
    "have the value it has when nothing is released, and must work the same "
    "when used"
)
ASSUMPTIONS = [
    "accessors taking arguments are called with indices 0 and 1",
    "use of released memory shows as a changed value or a crash, since the "
    "allocator overwrites released memory (glibc.malloc.perturb)",
]
TECHNIQUE = (
    "stateless model checking of the real objects: exhaustive enumeration of "
    "all accessor paths and release patterns up to a depth, under an "
    "allocator that overwrites released memory"
)


def shards(tier):
    from mc import lifetimes

    depth = 3 if tier == "quick" else 4
    return [dict(root=name, depth=depth) for name in lifetimes.roots()]


def run(shard, ctx):
    import pyvrp as pv

    where = pathlib.Path(pv.__file__).resolve().parent.parent
    here = pathlib.Path(__file__).resolve().parent.parent.parent
    env = dict(
        os.environ, PYTHONPATH=f"{here}:{where}", PYTHONDONTWRITEBYTECODE="1",
        GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.perturb=165",
    )
    res = subprocess.run(
        [sys.executable, "-m", "mc.lifetimes", str(where), shard["root"],
         str(shard["depth"])],
        env=env, cwd=here, capture_output=True, text=True, errors="replace",
    )
    lines = res.stdout.splitlines()
    at = [ln[3:] for ln in lines if ln.startswith("AT ")]
    ctx.states += len(at)
    for ln in lines:
        if ln.startswith("COUNT "):
            ctx.transitions += int(ln.split()[1])
            ctx.traces += int(ln.split()[1])
        if ln.startswith("BAD "):
            ctx.fail(ln[4:].split(" released")[0], ln[4:])
    ctx.sample(at[-1] if at else shard["root"])
    if res.returncode != 0 or not any(ln.startswith("DONE") for ln in lines):
        ctx.fail(
            at[-1] if at else shard["root"],
            f"process ended with {res.returncode} after releasing the objects "
            f"this was obtained from: {res.stderr[-600:]}",
        )
