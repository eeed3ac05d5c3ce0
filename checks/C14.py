"""Mapped scalar elements are nodal for physical degrees of freedom."""
from harness import THOROUGH
from mapped import cases, check_case, check_curved, scalar_cfgs


def run(ctx):
    cfgs = scalar_cfgs(THOROUGH)
    todo = cases(ctx, cfgs, 80 if THOROUGH else 12, 0)
    # the expensive ones first
    todo.sort(key=lambda c: -c[0]["d"])
    ctx.pmap(check_case, todo, limit=400)
    # all degrees of freedom at points, derivatives at vertices only: curved cells are no different
    ctx.pmap(check_curved, [c for c in todo if c[0]["n"] in ("Hermite", "QuadraticPowellSabin6")], limit=100)


BOUNDS = "every offered cell, degree (to %d), variant and averaging flag; %s pseudo-random non-degenerate cells each, turned inside out every other "\
    "time, every vertex of its own size; derivatives to order 3 (1 for split families)" % (10 if THOROUGH else 9, 80 if THOROUGH else 12)
