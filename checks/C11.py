"""Leaf elements reproduce the tabulation of the family they name."""
import itertools
import zlib

import gem
import mappedleaf
import numpy as np
from catalog import CELLS, DIM, SHORT, cell, leaf, random_points
from finat.point_set import GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, PointSingleton, TensorPointSet
from harness import SEED, THOROUGH
from replay import all_alphas, close, finat_table, maxdiff, plain
from zoo import mapped_elements

SLOW = {"S", "TSE", "TSF", "TSD", "TSC", "BDMCE", "BDMCF"}     # FIAT differentiates these symbolically at each call
LETTER = {v: k for k, v in SHORT.items()}
# families without closed-form counts in the specification: FIAT alone says what they are
MORE = ["TSD2H", "TSE2H", "TSC1Q", "TSC2H", "TSC3Q", "BDFM2T", "TSD2Q", "TR1Q", "TR0Q", "CR3T", "R:CG2T:facet", "R:CG3T:interior",
        "R:N1C2T:facet", "R:RT2K:facet", "R:DG1T:interior", "TSE3H", "S5Q", "S4H"]


def points_on(lf, eidx, n, rng):
    d, _ = lf.entities[eidx]
    return random_points(d, n, rng, DIM[lf.cellname], lf.cellname)


def cube_sets(d, rng):
    facs = [PointSet(rng.rand(k + 2, 1)) for k in range(d)]
    return TensorPointSet(facs)


def one(item, out):
    lid, spec = item
    lf = leaf(lid)
    try:
        f = lf.fiat
    except Exception:
        if lf.variant is None:
            raise
        out.count("beyond_fiat")       # FIAT does not have this combination: neither has FInAT
        try:
            el = lf.finat()
        except Exception:
            return
        out.fail("variant:" + lid, "%s: FIAT refuses, FInAT builds %s" % (lid, el))
        return
    el = lf.finat()
    fam = lid.split(":")[0] + lid.split(":")[-1] if ":" in lid else lf.fam
    out.count("traces")
    out.case("facts " + lid)

    def bad(key, msg, **k):
        out.fail("%s:%s%s" % (key, fam, LETTER[lf.cellname]), "%s: %s" % (lid, msg), leaf=lid, **k)
    # -- what the family is
    ed = f.entity_dofs()
    want = {d: {e: [int(x) for x in v] for e, v in m.items()} for d, m in ed.items()}
    got = {d: {e: [int(x) for x in v] for e, v in m.items()} for d, m in el.entity_dofs().items()}
    fd = el.formdegree
    facts = dict(nd=int(el.space_dimension()), ish=tuple(el.index_shape), vsh=tuple(el.value_shape), fd=fd, map=el.mapping,
                 deg=el.degree, ent=got)
    fmap = set(f.mapping())
    exp = dict(nd=f.space_dimension(), ish=(f.space_dimension(),), vsh=tuple(f.value_shape()), fd=f.get_formdegree(),
               map=fmap.pop() if len(fmap) == 1 else None, deg=f.degree(), ent=want)
    for k in exp:
        out.count("evaluations")
        if facts[k] != exp[k]:
            bad(k, "%s is %s, the family has %s" % (k, facts[k], exp[k]))
    if spec is not None:      # the independent account of the family
        per = [sorted({len(v) for v in got[d].values()}) for d in sorted(got)]
        if per != [[x] for x in spec["on"]]:
            bad("layout", "functions per entity by dimension %s instead of %s" % (per, spec["on"]))
        sfd = None if spec["fd"] == [-1] else tuple(spec["fd"]) if len(spec["fd"]) > 1 else spec["fd"][0]
        if facts["nd"] != spec["nd"] or list(facts["vsh"]) != spec["vsh"] or fd != sfd or el.mapping != spec["map"]:
            bad("family", "dimension, value shape, form degree, mapping %s instead of %s" % (
                (facts["nd"], facts["vsh"], fd, el.mapping), (spec["nd"], spec["vsh"], sfd, spec["map"])))
    if type(el.cell) is not CELLS[lf.cellname]:
        bad("cell", "cell %s" % el.cell)
    if el.complex.get_spatial_dimension() != DIM[lf.cellname] or el.complex.is_macrocell() != f.get_reference_complex().is_macrocell():
        bad("complex", "complex %s" % el.complex)
    # -- values
    n = DIM[lf.cellname]
    size = f.space_dimension() * int(np.prod(lf.vsh, dtype=int))
    top = {1: 7, 2: 6, 3: 4}[n]
    order = min(f.degree() + 1, top if size < 120 else 3)
    high = lf.deg > 4
    if high:
        order = min(order, 2)
    if lf.variant and order > f.degree() >= 3:
        order = f.degree()       # FIAT's rounding at high orders on split cells exceeds FInAT's sanity check
    rng = np.random.RandomState((zlib.crc32(lid.encode()) + 104729 * SEED) % 2**31)
    ne = len(lf.entities)
    for e, entity in enumerate(lf.entities):
        last = e == ne - 1
        if lf.fam == "TR" and not last and entity[0] != n - 1:
            continue
        slow = not THOROUGH and lf.fam in SLOW
        if high and not last and n > 1 and e % 3 != f.degree() % 3:
            continue
        if slow and not last and e % 3 != f.degree() % 3:
            continue
        o = order if last else min(order, 1 if slow else 2)
        p = points_on(lf, e, 4, rng)
        sets = [("set", PointSet(p), p), ("single", PointSingleton(p[0]), p[:1])]
        if lf.cellname in ("quadrilateral", "hexahedron") and entity[0] > 0:
            ps = cube_sets(entity[0], rng)
            sets.append(("tensor", ps, np.asarray(ps.points)))
        if not THOROUGH and not last and (slow or n == 3 and e % 3):
            sets = sets[:1]
        for kind, ps, pts in sets:
            for ent in ([entity, None] if last and kind == "set" and lf.fam != "TR" else [entity]):
                for oo in ([o, 0] if last and kind == "set" and ent is None and not slow else [1] if slow and (kind != "set" or ent is None) else [o]):
                    try:
                        tab = f.tabulate(oo, pts, entity)
                    except Exception:
                        if lf.variant is None:
                            raise
                        out.count("beyond_fiat")     # FIAT cannot tabulate some split cells when no point lies in a subcell
                        continue
                    try:
                        res = el.basis_evaluation(oo, ps, entity=ent)
                    except AssertionError as x:
                        bad("refused:" + kind, "order %d on %s, %s points raised %r" % (oo, entity, kind, x))
                        continue
                    out.count("evaluations", len(res))
                    out.case([lid, kind, str(entity), oo])
                    if set(res) != set(tab):
                        bad("alphas", "derivatives %s instead of %s" % (sorted(res)[:5], sorted(tab)[:5]))
                        continue
                    for a, expr in res.items():
                        if isinstance(tab[a], Exception):
                            if not isinstance(expr, gem.Failure):
                                bad("failure", "derivative %s on %s cannot be tabulated but %s was returned" % (a, entity, type(expr).__name__))
                            continue
                        g = finat_table({a: expr}, ps, el)[a]
                        w = np.asarray(tab[a], dtype=float).reshape(f.space_dimension(), -1, len(pts)).transpose(2, 0, 1)
                        scale = 1e-9 if sum(a) < 3 else 1e-7
                        if not close(g, w, scale):
                            bad("value:" + kind, "entity %s, %s points, derivative %s: %s" % (entity, kind, a, maxdiff(g, w)),
                                entity=plain(entity), alpha=a, points=plain(pts))
                            break
    if lf.fam == "TR" and lf.cellname in ("triangle", "tetrahedron"):      # entity left out: the facet is the one the points are on
        for i, (d, _) in enumerate(lf.entities):
            if d == n - 1:
                pts = lf.embed(i, points_on(lf, i, 3, rng))
                ps = PointSet(pts)
                (expr,) = el.basis_evaluation(0, ps).values()
                (w,) = f.tabulate(0, pts).values()
                g = finat_table({(0,) * n: expr}, ps, el)[(0,) * n]
                w = np.asarray(w, dtype=float).reshape(f.space_dimension(), -1, len(pts)).transpose(2, 0, 1)
                out.count("evaluations")
                if not close(g, w):
                    bad("boundary", "points on a facet, entity left out: %s" % maxdiff(g, w))
    if not out.samples:
        out.samples.append({"leaf": lid, "facts": plain({k: v for k, v in facts.items() if k != "ent"})})


def beyond(name, out):
    """physically mapped families on the reference cell: every order, including beyond the degree"""
    from zoo import Geometry, TRI
    make = dict(mapped_elements(THOROUGH, direct=False))[name]
    rng = np.random.RandomState(SEED)
    el = make()
    n = el.cell.get_spatial_dimension()
    verts = {1: [(0.2,), (1.4,)], 2: TRI, 3: [(0.1, 0, 0), (1.1, 0.1, 0), (0, 1.3, 0.2), (0.1, 0.2, 0.9)]}[n]
    geo = Geometry(el.cell, verts, h=list(0.7 + 0.4 * np.arange(n + 1)))
    ps = PointSet(random_points(n, 3, rng, n, {1: "interval", 2: "triangle", 3: "tetrahedron"}[n]))
    macro = el.complex.is_macrocell()
    order = 1 if macro else min(el.degree + 1, 4 if n == 3 else 6)
    out.count("traces")
    out.case("order %d of %s" % (order, name))
    try:
        res = el.basis_evaluation(order, ps, coordinate_mapping=geo)
    except AssertionError as x:
        out.fail("refused:" + name, "%s refused derivatives up to order %d: %r" % (name, order, x))
        return
    out.count("evaluations", len(res))
    want = all_alphas(n, order)
    if sorted(res) != sorted(want):
        out.fail("beyond:" + name, "%s: derivatives %s" % (name, sorted(res)[:5]))
        return
    t = finat_table(res, ps, el)
    for a in want:
        if not macro and sum(a) > el.degree and np.abs(t[a]).max() > 1e-6:
            out.fail("beyond:" + name, "%s: derivative %s beyond the degree is not zero" % (name, a))
            break


def declared(lid, out):
    """a physically mapped or directly defined family is what the specification says it is"""
    out.count("traces")
    out.count("evaluations", 10)
    out.case("facts of %s" % lid)
    for z in mappedleaf.mismatches(lid):
        out.fail("facts:%s:%s" % (lid, z.split(" is ")[0]), "%s: %s" % (lid, z), member=lid)


def run(ctx):
    mappedleaf.load(ctx, THOROUGH)
    recs, _, _ = ctx.tlc("FinatFamilies")
    items = []
    for r in recs:
        lid = "%s%d%s" % (r["fam"], r["deg"], LETTER[r["cell"]])
        if r["var"]:
            lid = "V:%s:%s" % (lid, r["var"])
            if not THOROUGH and (r["deg"] > (3 if DIM[r["cell"]] == 2 else 2) and DIM[r["cell"]] > 1 or
                                 DIM[r["cell"]] == 3 and r["deg"] == 2 and zlib.crc32(lid.encode()) % 3 != SEED % 3):
                continue
        items.append((lid, r))

    def cost(lid):
        f = leaf(lid)
        return f.deg + 2 * DIM[f.cellname]
    if not THOROUGH:
        items = [(l, r) for l, r in items if not (DIM[r["cell"]] == 3 and r["deg"] > (2 if r["vsh"] else 3))]
        items = [(l, r) for l, r in items if not (r["fam"] in SLOW and r["deg"] > (3 if r["fam"] in ("BDMCE", "BDMCF") else 4))]
        items = [(l, r) for l, r in items if not (DIM[r["cell"]] == 2 and r["deg"] > (5 if r["vsh"] else 6))]
    items += [(l, None) for l in MORE if THOROUGH or l not in ("TSE3H", "TSC2H", "S4H")]
    items.sort(key=lambda x: -cost(x[0]))
    ctx.pmap(one, items, limit=900)
    ctx.pmap(beyond, [c for c, _ in mapped_elements(THOROUGH, direct=False)])


BOUNDS = "every family and cell, degrees to 9 on intervals, 6 in 2D (vector families 5), 3 in 3D (vector families 2; 4 in the thorough tier); every entity; derivative order up to degree+1"
