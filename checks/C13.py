"""Quadrature elements and collocated spectral elements are exact deltas."""
import itertools

import gem
import numpy as np
import finat
from FIAT.quadrature import GaussLegendreQuadratureLineRule, GaussLobattoLegendreQuadratureLineRule
from FIAT.reference_element import TensorProductCell
from finat.point_set import (GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, PointSingleton, TensorPointSet,
                             UnknownPointSet)
from finat.quadrature import QuadratureRule, TensorProductQuadratureRule, make_quadrature
from finat.quadrature_element import QuadratureElement, make_quadrature_element
from gem.node import traversal
from catalog import cell, embed
from duals import nodal_matrix
from harness import THOROUGH, brief
from replay import close, geval, maxdiff

CELL = {"I": "interval", "T": "triangle", "K": "tetrahedron", "Q": "quadrilateral"}
NAME = {"GL": "GaussLegendre", "GLL": "GaussLobattoLegendre", "CG": "Lagrange", "DG": "DiscontinuousLagrange", "LEG": "Legendre"}


def element(f):
    kw = {"variant": "equispaced"} if f["fam"] in ("CG", "DG") else {}
    return getattr(finat, NAME[f["fam"]])(cell(CELL[f["cell"]]), f["k"], **kw)


def coords(p):
    line, m = cell("interval"), p["m"]
    lab = p["label"]
    if lab in ("GL", "atGL"):
        return GaussLegendreQuadratureLineRule(line, m).get_points()
    if lab in ("GLL", "atGLL"):
        return GaussLobattoLegendreQuadratureLineRule(line, m).get_points()
    if lab == "point":
        return np.zeros((1, 0))
    return np.random.RandomState(m).rand(m, 1)


def pointset(p):
    return {"GL": GaussLegendrePointSet, "GLL": GaussLobattoLegendrePointSet}.get(p["label"], PointSet)(coords(p))


def factor_entity(f, e):
    if f["cell"] == "I":
        return (1, 0) if e == 0 else (0, (e - 1) % 2)
    return (1, e - 1)


def ndeltas(expr):
    return sum(isinstance(n, gem.Delta) for n in traversal([expr]))


def spectral(rec, out):
    els = [element(f) for f in rec["els"]]
    n = len(els)
    fents = [factor_entity(f, e) for f, e in zip(rec["els"], rec["ents"])]
    name = "%s on %s" % ("x".join("%s%d%s" % (f["fam"], f["k"], f["cell"]) for f in rec["els"]),
                         "x".join("%s%d" % (p["label"], p["m"]) for p in rec["pts"]))
    sig = "x".join("%s/%s" % (f["fam"], p["label"]) for f, p in zip(rec["els"], rec["pts"]))
    out.count("traces")
    out.case("%s, entity %s, derivative %s" % (name, rec["ents"], rec["order"]))
    tabs = []
    for el, p, (d, e), f, o in zip(els, rec["pts"], fents, rec["els"], rec["order"]):
        x = embed(el.cell, (d, e), coords(p))
        t = el.fiat_equivalent.tabulate(o, x)
        a = (o,) + (0,) * (el.cell.get_spatial_dimension() - 1)
        tabs.append(np.asarray(t[a], dtype=float).T)
    want = tabs[0]
    for t in tabs[1:]:
        want = np.einsum("ij,kl->ikjl", want, t).reshape(want.shape[0] * t.shape[0], -1)
    if n == 1:
        alpha = (rec["order"][0],) + (0,) * (els[0].cell.get_spatial_dimension() - 1)
    else:
        alpha = tuple(rec["order"])
    ps = [pointset(p) for p in rec["pts"]]
    variants = []
    inner = all(e == 0 for e in rec["ents"])
    if n == 1:
        variants.append(("plain", els[0], ps[0], fents[0], rec["deltas"]))
        if inner:
            variants.append(("no entity", els[0], ps[0], None, rec["deltas"]))
    else:
        num = [(2 if d == 0 else 1) for d, _ in fents]
        ent = (tuple(d for d, _ in fents), int(np.ravel_multi_index([e for _, e in fents], num)))
        tpe = finat.TensorProductElement(els)
        merged = PointSet(np.array([np.concatenate(x) for x in itertools.product(*[p.points for p in ps])]))
        variants.append(("product", tpe, TensorPointSet(ps), ent, rec["deltas"]))
        variants.append(("merged points", tpe, merged, ent, [False] * n))
        if inner:
            flat = finat.FlattenedDimensions(tpe)
            variants.append(("flattened", flat, TensorPointSet(ps), None, rec["deltas"]))
            variants.append(("flattened", flat, TensorPointSet(ps), (n, 0), rec["deltas"]))
    for kind, el, points, ent, deltas in variants:
        res = el.basis_evaluation(sum(alpha), points, entity=ent)
        out.count("evaluations")
        expr = res[alpha]
        got = geval(expr, points.indices).reshape(len(want), -1)
        if got.shape != want.shape or not close(got, want, 1e-9):
            out.fail("value:" + sig, "%s (%s, entity %s), derivative %s: %s" % (name, kind, ent, alpha, maxdiff(got, want)), rec=rec)
            return
        if ndeltas(expr) != sum(deltas):
            out.fail("delta:" + sig, "%s (%s, entity %s), derivative %s: %d factors collapse instead of %d" % (
                name, kind, ent, alpha, ndeltas(expr), sum(deltas)), rec=rec)
            return
        if deltas and all(deltas) and not np.array_equal(got, np.eye(len(want))):
            out.fail("exact:" + sig, "%s (%s): not exactly the identity" % (name, kind), rec=rec)
            return
    if not out.samples:
        out.samples.append(name)


# ------------------------------------------------------------ quadrature
RULES = {}


def rule_defs():
    I, T, K, Q = (cell(c) for c in ("interval", "triangle", "tetrahedron", "quadrilateral"))
    defs = [("I%d" % d, I, d) for d in (0, 1, 4)] + [("T%d" % d, T, d) for d in (0, 2, 5)] + [("K2", K, 2), ("Q3", Q, 3), ("Q24", Q, (2, 4)),
            ("prism", TensorProductCell(T, I), (2, 3)), ("square", TensorProductCell(I, I), (1, 4)),
            ("cube", TensorProductCell(I, I, I), (1, 2, 4)), ("QI", TensorProductCell(Q, I), (2, 5)), ("H2", cell("hexahedron"), 2)]
    for name, c, d in defs:
        RULES[name] = (c, lambda c=c, d=d: make_quadrature(c, d), d)
    rng = np.random.RandomState(5)
    pts = rng.dirichlet([1, 1, 1], 4)[:, 1:]
    RULES["custom"] = (T, lambda: QuadratureRule(PointSet(pts.copy()), np.arange(1.0, 5.0)), None)
    a, b = np.array([[0.1], [0.2], [0.7]]), np.array([[0.9], [0.3]])
    RULES["customQ"] = (Q, lambda: TensorProductQuadratureRule([QuadratureRule(PointSet(a.copy()), [1., 2., 3.]),
                                                                QuadratureRule(PointSet(b.copy()), [1., 5.])]), None)
    return {k: [int(i.extent) for i in v[1]().point_set.indices] for k, v in RULES.items()}


def remake(ps, f):
    """the same structure with coordinates changed; f(array, factor) -> array"""
    count = itertools.count()

    def go(p):
        if isinstance(p, TensorPointSet):
            return TensorPointSet([go(q) for q in p.factors])
        return type(p)(f(np.array(p.points, dtype=float), next(count)))
    return go(ps)


def queried(kind, rule, make, fac):
    ps = rule.point_set

    def change(f):
        return remake(ps, lambda x, k: f(x) if k == fac else x)

    def onemoved(x):
        x[-1, 0] += 1e-6
        return x
    if kind == "own":
        return ps
    if kind == "rebuilt":
        return make().point_set
    if kind == "rounding":
        return remake(ps, lambda x, k: x + 1e-15)
    if kind == "moved":
        return change(lambda x: x + 1e-3)
    if kind == "onemoved":
        return change(onemoved)
    if kind == "fewer":
        return change(lambda x: x[:-1])
    if kind == "reversed":
        return remake(ps, lambda x, k: x[::-1])
    if kind == "single":
        return PointSingleton(np.asarray(ps.points)[0])
    if kind == "unknown":
        return UnknownPointSet(gem.Variable("rt_X", np.asarray(ps.points).shape))
    if kind == "otherrule":
        return change(lambda x: np.concatenate([x, x[:1] * 0.5]))
    raise ValueError(kind)


def wrapped(wrap, qe):
    if wrap == "vector":
        return finat.TensorFiniteElement(qe, (2,))
    if wrap == "vectorT":
        return finat.TensorFiniteElement(qe, (2,), transpose=True)
    return qe


def quad(rec, out):
    c, make, deg = RULES[rec["rule"]]
    rule = make()
    qe = QuadratureElement(c, rule)
    el = wrapped(rec["wrap"], qe)
    nc = 1 if rec["wrap"] == "none" else 2
    N = int(np.prod(rec["dims"]))
    name = "quadrature element %s%s, %s points (factor %d), entity %s, order %d" % (
        rec["rule"], "" if nc == 1 else " " + rec["wrap"], rec["query"], rec["factor"], rec["entity"], rec["order"])
    out.count("traces")
    out.case(name)
    n = c.get_spatial_dimension()
    dim = c.get_dimension()
    top = c.get_topology()
    low, facet = sorted(top)[0], sorted(top)[-2]
    entity = {"none": None, "cell": (dim, 0), "vertex": (low, 0), "facet": (facet, 0)}[rec["entity"]]
    ps = queried(rec["query"], rule, make, rec["factor"] - 1)
    try:
        res = el.basis_evaluation(rec["order"], ps, entity=entity)
    except Exception as e:
        if rec["answer"] == "error":
            if not isinstance(e, ValueError):
                out.fail("refusal:%s" % rec["query"], "%s: %s" % (name, brief(e)), rec=rec)
            return
        raise
    out.count("evaluations")
    if rec["answer"] == "error":
        out.fail("accepted:%s:%s:%d" % (rec["query"], rec["entity"], rec["order"]), "%s: answered" % name, rec=rec)
        return
    if set(res) != {(0,) * n}:
        out.fail("alphas", "%s: derivatives %s" % (name, list(res)), rec=rec)
        return
    (expr,) = res.values()
    ish = tuple(rec["dims"])
    ish = ish if nc == 1 else ish + (2,) if rec["wrap"] == "vector" else (2,) + ish
    if tuple(expr.shape) != ish + el.value_shape or set(expr.free_indices) != set(ps.indices):
        out.fail("shape", "%s: shape %s, free indices %s" % (name, expr.shape, expr.free_indices), rec=rec)
        return
    got = geval(expr, ps.indices)
    if nc == 1:
        want = np.eye(N)
    else:
        want = np.einsum("qr,cd->qrcd" if rec["wrap"] == "vector" else "qr,cd->qcrd", np.eye(N), np.eye(2))
    if not np.array_equal(got.reshape(want.shape), want):
        out.fail("identity", "%s: not the identity (%s)" % (name, maxdiff(got.reshape(want.shape), want)), rec=rec)
    if not out.samples:
        out.samples.append(name)


def elements(item, out):
    """the element itself: layout, dual basis, FIAT equivalent"""
    rid, dims = item
    c, make, deg = RULES[rid]
    rule = make()
    out.count("traces")
    out.case("element " + rid)
    N = int(np.prod(dims))
    els = [QuadratureElement(c, rule)]
    if deg is not None:
        els += [make_quadrature_element(c, deg), make_quadrature_element(c, deg, scheme="default")]
        if rid in ("T2", "K2"):
            els.append(make_quadrature_element(c, deg, scheme="KMV"))
    for k, qe in enumerate(els):
        def bad(key, msg):
            out.fail("%s" % key, "quadrature element %s: %s" % (rid, msg), rule=rid)
        own = qe.dual_basis[1] if k else rule.point_set
        pts = np.asarray(own.points, dtype=float)
        if rid in ("T2", "K2") and k == 3:
            pts = np.asarray(make_quadrature(c, deg, "KMV").point_set.points)
            dims, N = [len(pts)], len(pts)
        elif k:
            pts = np.asarray(make().point_set.points, dtype=float)
        if tuple(qe.index_shape) != tuple(dims) or qe.space_dimension() != N or qe.value_shape != () or qe.formdegree is not None \
                or qe.mapping != "affine" or qe.cell is not c:
            bad("facts", "index shape %s, dimension %s, value shape %s" % (qe.index_shape, qe.space_dimension(), qe.value_shape))
        ed = qe.entity_dofs()
        top = c.get_topology()
        if {d: set(m) for d, m in ed.items()} != {d: set(m) for d, m in top.items()} or \
                any(list(v) != (list(range(N)) if d == c.get_dimension() else []) for d, m in ed.items() for v in m.values()):
            bad("layout", "DoFs %s" % ed)
        # the dual: values at the points, in order
        seen = []

        def fn(ps):
            seen.append(np.asarray(ps.points))
            x = ps.expression
            return gem.Sum(gem.Sum(gem.Indexed(x, (0,)), gem.Product(gem.Literal(10.0), gem.Indexed(x, (x.shape[0] - 1,)))),
                           gem.Product(gem.Indexed(x, (0,)), gem.Indexed(x, (x.shape[0] - 1,))))
        expr, idx = qe.dual_evaluation(fn)
        got = geval(expr, tuple(idx)).reshape(-1)
        want = pts[:, 0] + 10 * pts[:, -1] + pts[:, 0] * pts[:, -1]
        out.count("evaluations", 3)
        if tuple(i.extent for i in idx) != tuple(dims) or not close(got, want, 1e-12):
            bad("dual", "dual evaluation is not evaluation at the points in order")
        for wrap in ("none", "vector", "vectorT"):
            el = wrapped(wrap, qe)
            M, shape = nodal_matrix(el)
            if shape != tuple(el.index_shape) or not np.array_equal(M, np.eye(len(M))):
                bad("nodal:" + wrap, "the dual of the basis is not the identity")
        fe = qe.fiat_equivalent
        if k == 0:
            w = geval(rule.weight_expression, rule.point_set.indices).reshape(-1)
            fpts = np.array([list(p)[0] for p in (f.get_point_dict() for f in fe.dual_basis())])
            if not close(fpts, pts, 1e-13) or fe.space_dimension() != N or not close(np.asarray(fe._weights), w, 1e-13):
                bad("fiat", "the FIAT equivalent has other points or weights")
    # products of quadrature elements
    if rid in ("I1", "I4", "T2"):
        other = QuadratureElement(cell("interval"), RULES["I1"][1]())
        for facs in ([els[0], other], [other, els[0]]):
            tpe = finat.TensorProductElement(facs)
            ps = TensorPointSet([f.dual_basis[1] for f in facs])
            (expr,) = tpe.basis_evaluation(0, ps).values()
            n = int(np.prod(tpe.index_shape))
            out.count("evaluations")
            if not np.array_equal(geval(expr, ps.indices).reshape(n, n), np.eye(n)):
                out.fail("product", "product of quadrature elements on its own points is not the identity", rule=rid)


def F(fam, k, cellname="I"):
    from math import comb
    n = {"I": 1, "T": 2, "K": 3}[cellname]
    return dict(fam=fam, k=k, cell=cellname, nd=comb(k + n, n))


def Pt(label, m):
    return dict(label=label, m=m)


def run(ctx):
    gl = [Pt("GL", m) for m in range(1, 11)]
    gll = [Pt("GLL", m) for m in range(2, 11)]
    other = [Pt("atGL", 3), Pt("atGLL", 3), Pt("any", 3), Pt("any", 2), Pt("point", 1)]
    foci = [dict(els=[F("GL", k) for k in range(10)] + [F("GLL", k) for k in range(1, 10)] + [F("CG", 1), F("CG", 2), F("DG", 2), F("LEG", 1)],
                 pts=gl + gll + other, ents=[0, 1, 2], orders=[0, 1, 2], maxfactors=1),
            dict(els=[F("GL", 1), F("GL", 2), F("GLL", 1), F("GLL", 2), F("CG", 1)],
                 pts=[Pt("GL", 2), Pt("GL", 3), Pt("GLL", 2), Pt("GLL", 3), Pt("any", 2), Pt("point", 1)], ents=[0, 2], orders=[0, 1], maxfactors=2),
            dict(els=[F("GL", 1), F("GLL", 1), F("GL", 0)], pts=[Pt("GL", 2), Pt("GLL", 2), Pt("GL", 1)], ents=[0], orders=[0, 1], maxfactors=3),
            dict(els=[F(f, k, c) for c in "TK" for f in ("GL", "GLL") for k in (1, 2)], pts=[Pt(l, m) for l in ("GL", "GLL") for m in (2, 3, 4, 6, 10)],
                 ents=[1, 2, 3], orders=[0, 1], maxfactors=1)]
    todo = []
    for i, f in enumerate(foci):
        recs, _, _ = ctx.tlc("FinatSpectral", env={"FINAT_FOCUS": ctx.jsonfile("focus%d.json" % i, f)})
        full = [r for r in recs if len(r["els"]) == f["maxfactors"]]
        if not THOROUGH and len(full) > 900:
            hot = [r for r in full if r["all"]]
            cold = [r for r in full if not r["all"]]
            full = ctx.rng.sample(hot, min(len(hot), 250)) + ctx.rng.sample(cold, 650)
        todo += full
    ctx.pmap(spectral, todo)
    dims = rule_defs()
    recs, _, _ = ctx.tlc("FinatQuadElem", env={"FINAT_FOCUS": ctx.jsonfile("rules.json", dict(
        rules=[dict(id=k, dims=v) for k, v in dims.items()], wraps=["none", "vector", "vectorT"]))})
    recs.sort(key=lambda r: str(r))
    ctx.pmap(quad, recs)
    ctx.pmap(elements, sorted(dims.items()))


BOUNDS = "line elements of degree <= 9 on 1..10 labelled points, products of up to three; 16 quadrature rules on every cell"
