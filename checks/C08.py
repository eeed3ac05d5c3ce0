"""Entity permutations describe how DoFs move under cell reflections."""
import itertools

import numpy as np
import foci
from catalog import DIM, leaf
from finat.point_set import PointSet
from harness import THOROUGH
from replay import (L, O, TF, build, by_entity, close, entity_cells, entity_points, finat_table, generate_many, key_count,
                    leaves_of, maxdiff, ops_of, plain, real_entity, show)
from tables import rng_for, sample

NODAL = {"CG", "CGe", "DG", "DGe", "GLL", "GL"}


def nodal(t):
    """scalar elements whose every function is dual to evaluation at a point of a symmetric set"""
    return set(ops_of(t)) <= {"tpe", "flat", "brk"} and all(leaf(l).fam in NODAL for l in leaves_of(t))


def product_of_leaves(t):
    while t["op"] in ("flat", "brk"):
        t = t["args"][0]
    return t["op"] == "leaf" or (t["op"] == "tpe" and all(a["op"] == "leaf" for a in t["args"]))


def barycentric(x):
    return np.hstack([1 - x.sum(axis=1, keepdims=True), x])


def reorient(d, o, x):
    """self-map number o of the reference simplex of dimension d"""
    if d == 0:
        return x
    s = list(itertools.permutations(range(d + 1)))[o]
    return barycentric(x)[:, np.argsort(s)][:, 1:]


def orientations(cells):
    """the (axis permutation, leaf orientations) of an entity, in the model's order"""
    import math
    dims = [d for d, _ in cells]
    n = len(cells)
    if all(c == "interval" for _, c in cells):
        aps = [ap for ap in itertools.permutations(range(n)) if all(dims[m] or ap[m] == m for m in range(n))]
    else:
        aps = [tuple(range(n))]
    return [(ap, os) for ap in aps for os in itertools.product(*[range(math.factorial(d + 1)) for d in dims])]


def one(rec, out):
    t, val = rec["term"], rec["val"]
    el = build(t)
    sig = ".".join(ops_of(t)) or "leaf"
    name = show(t)
    if not val["pav"]:
        if t["op"] == "brk":        # functions moved onto the cell: their permutations are not those of the parts
            out.count("evaluations")
            out.case("unavailable " + name)
            try:
                el.entity_permutations
            except NotImplementedError:
                return
            if any(val["ent"][-1] != e for e in [list(range(val["nd"]))]):
                return
            out.fail("broken:" + sig, "%s reports permutations although its parts have functions on facets" % name, term=t)
        return
    out.count("traces")
    perms = el.entity_permutations
    if key_count(perms) != len(val["ents"]):
        out.fail("entities:" + sig, "%s: permutations for %d entities instead of %d" % (
            name, key_count(perms), len(val["ents"])), term=t)
        return
    got = by_entity(val, perms)
    for i, (g, want) in enumerate(zip(got, val["perm"])):
        out.count("evaluations", len(want))
        out.case("%s entity %s" % (name, val["ents"][i]))
        w = {(o["o"][0] if len(o["o"]) == 1 else tuple(o["o"])): o["p"] for o in want}
        g = {(tuple(int(x) for x in k) if isinstance(k, tuple) else int(k)): [int(x) for x in p] for k, p in g.items()}
        if set(w) != set(g):
            out.fail("orientations:" + sig, "%s entity %s: orientations %s instead of %s" % (
                name, val["ents"][i], sorted(g, key=str)[:6], sorted(w, key=str)[:6]), term=t)
            return
        bad = [k for k in w if w[k] != g[k]]
        if bad:
            out.fail("permutation:" + sig, "%s entity %s orientation %s: %s instead of %s" % (
                name, val["ents"][i], bad[0], g[bad[0]], w[bad[0]]), term=t)
            return
    # evaluating at the reoriented point is evaluating the permuted basis
    if not (nodal(t) and product_of_leaves(t)):
        return
    rng = rng_for(rec)
    for i in range(len(val["ents"])):
        dofs = val["ent"][i]
        if not dofs or sum(val["ents"][i]["d"]) == 0:
            continue
        cells = entity_cells(val, i)
        x = entity_points(val, i, 3, rng)
        offs = np.cumsum([0] + [d for d, _ in cells])
        ent = real_entity(val, i)
        if t["op"] == "brk" and i < len(val["ents"]) - 1:
            continue

        def tab(pts):
            ps = PointSet(pts)
            (a,) = finat_table(el.basis_evaluation(0, ps, entity=ent), ps, el).values()
            return a[:, :, 0]
        A = tab(x)
        os = orientations(cells)
        want = [o["p"] for o in val["perm"][i]]
        if len(os) != len(want):
            out.fail("orientationcount:" + sig, "%s entity %s has %d orientations, its cell has %d symmetries" % (
                name, ent, len(want), len(os)), term=t)
            return
        keys = [(o["o"][0] if len(o["o"]) == 1 else tuple(o["o"])) for o in val["perm"][i]]
        ls = [slot["l"] for slot in val["lay"][0]["slots"]]
        for (ap, oo), key in zip(os, keys):
            if any(ls[ap[m]] != ls[m] for m in range(len(ap))):
                continue            # swapping the axes of unequal factors is no symmetry of the element
            cols = [None] * len(cells)
            for m, (d, _) in enumerate(cells):
                cols[ap[m]] = reorient(d, oo[m], x[:, offs[m]:offs[m + 1]])
            B = tab(np.hstack(cols))
            p = [int(q) for q in got[i][key]]
            out.count("evaluations")
            d = np.array(dofs)
            if not close(B[:, d[p]], A[:, d], 1e-7):
                out.fail("law:" + sig, "%s entity %s orientation %s: evaluating at the reoriented point is not "
                         "evaluating the permuted basis (%s)" % (name, ent, key, maxdiff(B[:, d[p]], A[:, d])), term=t)
                return
    if len(out.samples) < 1:
        out.samples.append({"program": name, "orientations of the cell": [o for o in val["perm"][-1]][:3]})


def run(ctx):
    P = lambda **k: dict(dict(perms=True, maxnd=80), **k)
    fs = [P(leaves=["CG1I", "CG2I", "CG3I", "CG4I", "DG1I", "DG2I", "GLL3I", "GL2I", "CGe4I"], ops=["tpe", "flat", "brk"],
            maxleaves=2, maxops=3, maxnd=36),
          P(leaves=["CG2I", "CG3I", "DG1I"], ops=["tpe", "flat"], tpek=[3], maxleaves=3, maxops=2),
          P(terms=[O("tpe", "CG4I", "CG4I", "CG3I"), O("tpe", "DG2I", "DG1I", "DG1I")], ops=["flat", "brk"], maxleaves=3, maxops=2,
            maxnd=100),
          P(leaves=["CG2T", "CG3T", "CG4T", "CGe5T", "DG1T", "DG2T", "RT1T", "CR1T", "CG4K", "DG1K"], ops=["enr", "brk"], maxleaves=2,
            maxops=2, maxnd=70, maxstack=2),
          P(leaves=["CG3T", "DG1T", "CG3I", "DG1I", "CG4I"], ops=["tpe", "brk"], maxleaves=2, maxops=2, maxnd=60),
          P(terms=[O("tpe", "CG1T", "DG1I"), O("tpe", "RT1T", "DG1I"), O("tpe", "DG1T", "CG3I"), O("tpe", "CG2T", "DG0I")],
            ops=["hdiv", "hcurl", "enr"], maxleaves=4, maxops=3, maxnd=60, maxstack=2),
          P(terms=[O("tpe", "CG3I", "DG1I"), O("tpe", "DG1I", "CG3I"), O("tpe", "DG2I", "DG2I"), O("tpe", "CG3I", "CG3I")],
            ops=["hdiv", "hcurl", "flat", "enr", "brk"], maxleaves=4, maxops=4, maxnd=60, maxstack=2),
          P(terms=[foci.Q1, foci.Q2, foci.DQ1, O("flat", O("tpe", "CG3I", "CG3I")), foci.RTCF1, foci.RTCF2, L("CG3I"), L("DG1I")],
            ops=["tpe", "flat", "brk", "enr"], maxleaves=8, maxops=2, maxnd=80, maxstack=2)]
    fs += [P(leaves=["CG5T", "CG6T", "CG7T", "CGe6T", "CG5K", "CG6K", "CG5I", "CG8I", "GLL6I", "GL6I", "DG5T", "DG6I", "DG3K"], ops=["brk"], maxleaves=1,
             maxops=1, maxnd=90),
           P(leaves=["CG5I", "GL5I", "CG6I"], ops=["tpe", "flat"], maxleaves=2, maxops=2, maxnd=60),
           P(terms=[O("tpe", "CG5T", "CG4I"), O("tpe", "CG2T", "CG6I"), O("tpe", "CG3I", "CG3I", "CG2I")], ops=["brk"], maxleaves=3, maxops=1, maxnd=150)]
    todo = []
    for f, recs in zip(fs, generate_many(ctx, fs)):
        recs = [r for r in recs if r["val"]["pav"] or r["term"]["op"] == "brk"]
        todo += sample(recs, 10**6 if THOROUGH else 70, ctx.rng,
                       key=lambda r: (tuple(ops_of(r["term"])), r["val"]["cell"]["n"], r["val"]["pav"]))
    ctx.pmap(one, todo)


BOUNDS = "every entity and orientation of the programs of the foci (products of two and three factors, both cell kinds)"
