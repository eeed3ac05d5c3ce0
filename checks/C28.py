"""Mapped elements join conformingly across neighbouring cells."""
from harness import THOROUGH
from mapped import cases, check_twin, piola_cfgs, scalar_cfgs


def run(ctx):
    todo = cases(ctx, scalar_cfgs(THOROUGH) + piola_cfgs(THOROUGH), 0, 80 if THOROUGH else 16)
    todo.sort(key=lambda c: -c[0]["d"])
    ctx.pmap(check_twin, todo, limit=400)


BOUNDS = "every mapped configuration; %d pairs of cells each with pseudo-random positions, global numbering and vertex sizes" % (80 if THOROUGH else 16)
