"""Symbolic point evaluation agrees with tabulation."""
import zlib
import functools

import gem
import numpy as np
import sympy as sp
import foci
from catalog import leaf
from finat.point_set import PointSet
from harness import THOROUGH
from replay import (L, O, TF, build, close, entity_cells, entity_points, expected, finat_table, generate_many, geval, leaves_of, maxdiff,
                    ops_of, plain, real_entity, show)
from tables import rng_for, sample


@functools.lru_cache(None)
def symbolic_leaf(lid):
    """can the family be tabulated at symbolic points at all?"""
    lf = leaf(lid)
    d = lf.entities[-1][0]
    try:
        lf.fiat.tabulate(1, [sp.symbols("X Y Z")[:d]], (d, 0))
        return True
    except Exception:
        return False


def one(rec, out):
    t, val = rec["term"], rec["val"]
    if not all(symbolic_leaf(l) for l in leaves_of(t)):
        return
    el = build(t)
    sig = ".".join(ops_of(t)) or "leaf"
    name = show(t)
    out.count("traces")
    rng = rng_for(rec)
    ne = len(val["ents"])
    heavy = val["cell"]["n"] == 3 or val["nd"] * int(np.prod(val["vsh"], dtype=int)) > 30
    order = 1 if heavy else 2
    if (THOROUGH or zlib.crc32(name.encode()) % 5 == 0) and val["nd"] * int(np.prod(val["vsh"], dtype=int)) <= 20:
        order += 1
    ents = list(range(ne)) if ne <= 7 else sorted(set(rng.choice(ne - 1, size=3, replace=False)) | {ne - 1})
    shape = tuple(val["ish"]) + tuple(val["vsh"])
    for e in ents:
        ent = real_entity(val, e)
        pts = entity_points(val, e, 3, rng)
        d = pts.shape[1]
        top = e == ne - 1
        want = expected(val, order, e, pts)
        # a point known only at run time
        X = gem.Variable("X", (d,))
        # a family of points with two free indices of its own
        q, r = gem.Index(extent=3), gem.Index(extent=2)
        lit = np.stack([pts, pts[::-1]], axis=1)
        j = gem.Index(extent=d)
        Y = gem.ComponentTensor(gem.Indexed(gem.Literal(lit), (q, r, j)), (j,)) if d else gem.Literal(np.zeros(0))
        for kind, P, free in (("variable", X, ()), ("indexed", Y, (q, r) if d else ())):
            for entity in ([ent, None] if top and kind == "variable" else [ent]):
                try:
                    res = el.point_evaluation(order, P, entity)
                except NotImplementedError:
                    return
                out.count("evaluations", len(res))
                out.case([name, kind, str(ent), order])
                if set(tuple(int(i) for i in a) for a in res) != set(want):
                    out.fail("alphas:%s" % sig, "%s on %s: derivatives %s instead of %s" % (name, ent, sorted(res)[:8], sorted(want)[:8]), term=t)
                    return
                for a, expr in res.items():
                    a = tuple(int(i) for i in a)
                    if tuple(expr.shape) != shape:
                        out.fail("shape:%s" % sig, "%s on %s, derivative %s: shape %s instead of %s" % (name, ent, a, expr.shape, shape), term=t)
                        return
                    if set(expr.free_indices) - set(free):
                        out.fail("free:%s" % sig, "%s on %s, derivative %s: free indices %s are not the point's" % (
                            name, ent, a, expr.free_indices), term=t)
                        return
                    if kind == "variable":
                        got = np.array([geval(expr, (), {X: p}) for p in pts]).reshape(len(pts), val["nd"], -1)
                        w = want[a]
                    else:
                        got = geval(expr, free)
                        if free:
                            w = np.stack([want[a], want[a][::-1]], axis=1)
                            got = got.reshape(w.shape)
                        else:
                            w = want[a][:1]
                            got = got.reshape(w.shape)
                    if not close(got, w, 1e-7):
                        out.fail("value:%s:%s" % (sig, kind), "%s on entity %s, %s point, derivative %s: %s" % (
                            name, ent, kind, a, maxdiff(got, w)), term=t, entity=plain(ent), alpha=a, points=plain(pts))
                        return
        # and with what the element itself tabulates
        if top:
            ps = PointSet(pts)
            tab = finat_table(el.basis_evaluation(order, ps, ent), ps, el)
            for a in want:
                if not close(tab[a], want[a], 1e-7):
                    out.fail("tabulate:%s" % sig, "%s: tabulation of derivative %s differs (%s)" % (name, a, maxdiff(tab[a], want[a])), term=t)
                    break
    if len(out.samples) < 1:
        out.samples.append(name)


LEAVES = ["CG2T", "CG3T", "DG1T", "RT1T", "RT2T", "N1C2T", "N2C1T", "BDM1T", "CR1T", "BUB3T", "BERN2T", "KMV2T", "DTAY2T", "REG1T",
          "HHJ1T", "GLSA1T", "GLSB1T", "S1Q", "S2Q", "DPC1Q", "BDMCE1Q", "BDMCF1Q", "FDML3I", "FDMH3I", "GLL3I", "GL2I", "LEG2I",
          "ILEG3I", "CG2K", "RT1K", "N1C1K", "FBUB3K", "S2H", "DPC1H", "CG1I", "DG0I", "DG0T", "CG1K", "CGa1T", "CGi1T", "CGa2T", "DGa1T",
          "TSF2Q", "R:CG2T:facet", "CGi2I", "CG4T", "GLL5I", "LEG6I", "ILEG6I", "RT3T", "N1C3T",
          "S4Q", "DPC3Q"] + (["CG5T", "GLL6I", "GL6I", "RT4T", "N1C4T", "DG5T", "CG3K"] if THOROUGH else [])


def run(ctx):
    fs = [dict(leaves=LEAVES, ops=["brk", "tfe"], shapes=[[2]], maxleaves=1, maxops=1, maxnd=60),
          foci.simplex(maxops=1), foci.lines(maxnd=20), foci.square(maxops=2), foci.squaresums(), foci.flatsums(), foci.wedge(maxops=1),
          foci.wedgesums(), foci.hexes(maxops=1, maxnd=24), foci.shapes(maxnd=24),
          dict(terms=[TF("CG1I", [2]), TF("DG1T", [2], True), L("CG1I"), L("DG0T")], ops=["tpe", "flat", "mix"], maxleaves=2, maxops=2,
               maxstack=2, maxnd=30),
          dict(leaves=["CG1I", "DG1I"], ops=["tpe", "flat"], tpek=[3], maxleaves=3, maxops=2, maxnd=12)]
    todo = []
    for f, recs in zip(fs, generate_many(ctx, fs)):
        todo += sample(recs, 10**6 if THOROUGH else 28 if "leaves" not in f or f["leaves"] is not LEAVES else 200, ctx.rng,
                       key=lambda r: (tuple(ops_of(r["term"])), r["term"]["tr"], str(r["val"]["vsh"]), leaves_of(r["term"])[0] if len(leaves_of(r["term"])) == 1 else ""))
    ctx.pmap(one, todo, limit=600)


BOUNDS = "programs of the foci, every entity (a sample on cells with more than seven), derivative order <= 3 (2 in three dimensions)"
