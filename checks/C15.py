"""Mapped Piola elements match the family built on the physical cell."""
from harness import THOROUGH
from mapped import cases, check_case, piola_cfgs


def run(ctx):
    cfgs = piola_cfgs(THOROUGH)
    todo = cases(ctx, cfgs, 80 if THOROUGH else 10, 0)
    # the expensive ones first
    todo.sort(key=lambda c: -c[0]["d"])
    ctx.pmap(check_case, todo, limit=400)


BOUNDS = "every offered cell, degree (to %d), variant and averaging flag; %s pseudo-random non-degenerate cells each, turned inside out every other "\
    "time, every vertex of its own size; derivatives to order 3 (1 for split families)" % (7 if THOROUGH else 6, 80 if THOROUGH else 10)
