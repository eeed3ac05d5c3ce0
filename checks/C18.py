"""The FIAT equivalent of an element is the same element."""
import FIAT
import foci
import numpy as np
from C01 import LEAVES
from catalog import leaf
from harness import THOROUGH
from replay import (all_alphas, build, close, entity_points, expected, finat_table, generate_many, leaves_of, maxdiff, ops_of, plain, real_entity, show)
from tables import rng_for, sample


def fiat_tables(f, order, pts, entity, nd):
    tab = f.tabulate(order, pts, entity)
    out = {}
    for a, t in tab.items():
        if isinstance(t, Exception):
            out[a] = t
        else:
            out[a] = np.asarray(t, dtype=float).reshape(nd, -1, len(pts)).transpose(2, 0, 1)
    return out


def snapshot(el):
    s = {}
    for k in ("cell", "degree", "formdegree", "value_shape", "index_shape", "mapping"):
        try:
            v = getattr(el, k)
            s[k] = (type(v).__name__, id(v)) if k == "cell" else v
        except Exception as e:
            s[k] = type(e).__name__
    for k in ("entity_dofs", "entity_closure_dofs", "entity_support_dofs", "space_dimension"):
        try:
            s[k] = plain(getattr(el, k)())
        except Exception as e:
            s[k] = type(e).__name__
    return s


def beyond_fiat(t, err):
    """does FIAT (trusted) itself decline this construction?"""
    msg = str(err)
    if t["op"] == "enr":
        parts = [build(a) for a in t["args"]]
        if msg == "Elements must have same mapping" and len({p.mapping for p in parts}) > 1:
            return True
        if "could not broadcast" in msg and len(parts[0].value_shape) > 1:       # enriching tensor-valued elements
            return True
        if "too many values to unpack" in msg and any(p.mapping is None for p in parts):
            return True
        if "not supported between" in msg and len({isinstance(p.formdegree, tuple) for p in parts}) > 1:
            return True
    if t["op"] == "brk":
        part = build(t["args"][0])
        if "too many values to unpack" in msg and part.mapping is None:
            return True
        if "get_nodes" in msg and t["args"][0]["op"] == "leaf" and leaf(t["args"][0]["id"]).fiat.dual is None:
            return True
    return any(beyond_fiat(a, err) for a in t["args"])


def one(rec, out):
    t, val = rec["term"], rec["val"]
    name, sig = show(t), ".".join(ops_of(t)) or "leaf"
    el = build(t)
    out.count("traces")

    def bad(key, msg, **k):
        out.fail("%s:%s" % (key, sig), "%s: %s" % (name, msg), term=t, **k)
    before = snapshot(el)
    try:
        f = el.fiat_equivalent
    except Exception as e:
        if not val["feq"]:
            out.count("no equivalent")
        elif beyond_fiat(t, e):
            out.count("beyond FIAT: %s" % type(e).__name__)
        else:
            bad("raised", "%s: %s" % (type(e).__name__, e))
        return
    out.case(name)
    if not isinstance(f, FIAT.finite_element.FiniteElement):
        bad("type", "%r is not a FIAT element" % (f,))
        return
    if snapshot(el) != before:
        bad("changed", "asking for the equivalent changed the element")
    if f is not el.fiat_equivalent and snapshot(el) != before:
        bad("changed", "asking again changed the element")
    out.count("evaluations", 5)
    if f.space_dimension() != val["nd"]:
        bad("dim", "dimension %d instead of %d" % (f.space_dimension(), val["nd"]))
        return
    if tuple(f.value_shape()) != tuple(val["vsh"]):
        bad("vsh", "value shape %s instead of %s" % (f.value_shape(), val["vsh"]))
        return
    c = f.get_reference_element()
    if type(c) is not type(el.cell) or c.get_topology() != el.cell.get_topology() or c.get_vertices() != el.cell.get_vertices():
        bad("cell", "cell %r instead of %r" % (c, el.cell))
    fd = f.get_formdegree()
    if val["fd"] != -2 and not (fd is None and "mix" in ops_of(t)) and (-1 if fd is None else fd) != val["fd"]:
        bad("formdegree", "form degree %s instead of %s" % (fd, val["fd"]))
    ed = f.entity_dofs()
    try:
        got = [[int(x) for x in ed[d][e]] for d, e in (real_entity(val, i) for i in range(len(val["ents"])))]
    except KeyError as e:
        bad("entity_dofs", "no entry for %s" % e)
        return
    if got != val["ent"] or sum(map(len, ed.values())) != len(val["ents"]):
        bad("entity_dofs", "entity dofs %s instead of %s" % (got, val["ent"]))
    rng = rng_for(rec)
    ne = len(val["ents"])
    ents = list(range(ne)) if ne <= 9 or THOROUGH else sorted(set(rng.choice(ne, size=6, replace=False)) | {ne - 1})
    dim = val["cell"]["n"]
    for e in ents:
        pts = entity_points(val, e, 3, rng)
        order = 1 if e != ne - 1 else 2
        try:
            g = fiat_tables(f, order, pts, real_entity(val, e), val["nd"])
        except Exception as x:
            if beyond_fiat(t, x):
                out.count("beyond FIAT: tabulation, %s" % type(x).__name__)
                continue
            bad("tabulate", "on %s: %s: %s" % (real_entity(val, e), type(x).__name__, x))
            break
        w = expected(val, order, e, pts)
        out.count("evaluations", len(w))
        if set(g) != set(all_alphas(dim, order)):
            bad("alphas", "derivatives %s" % sorted(g)[:6])
            continue
        for a in w:
            if isinstance(g[a], Exception):
                continue
            if not close(g[a], w[a]):
                bad("value", "entity %s, derivative %s: %s" % (real_entity(val, e), a, maxdiff(g[a], w[a])),
                    entity=plain(real_entity(val, e)), alpha=a, points=plain(pts))
                break
    if len(out.samples) < 1:
        out.samples.append(name)


def others(_, out):
    """elements that are not made by the constructors of the machine: quadrature, restricted, nodally enriched"""
    import finat
    from finat.point_set import PointSet
    from finat.quadrature import make_quadrature
    from finat.quadrature_element import QuadratureElement
    from catalog import cell, random_points
    import gem
    from gem.interpreter import evaluate

    def bad(key, name, msg):
        out.fail("%s:%s" % (key, name.split("(")[0]), "%s: %s" % (name, msg))

    def common(name, el, f, nd=None):
        out.count("traces")
        out.count("evaluations", 4)
        out.case(name)
        if f.space_dimension() != el.space_dimension() or tuple(f.value_shape()) != tuple(el.value_shape):
            bad("dim", name, "%d functions of shape %s" % (f.space_dimension(), f.value_shape()))
        if f.get_formdegree() != el.formdegree:
            bad("formdegree", name, "form degree %s instead of %s" % (f.get_formdegree(), el.formdegree))
        if plain(f.entity_dofs()) != plain(el.entity_dofs()):
            bad("entity_dofs", name, "%s instead of %s" % (f.entity_dofs(), el.entity_dofs()))
        if type(f.get_reference_element()) is not type(el.cell):
            bad("cell", name, "cell %r" % f.get_reference_element())
    from FIAT.reference_element import TensorProductCell
    from finat.point_set import PointSet as PS
    from finat.quadrature import QuadratureRule, TensorProductQuadratureRule
    I, T, Q = cell("interval"), cell("triangle"), cell("quadrilateral")
    rules = []
    for cn in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"):
        for deg in (0, 1, 2, 5):
            for scheme in ("default", "KMV"):
                if scheme == "KMV" and (cn in ("quadrilateral", "hexahedron") or deg not in (1, 2)):
                    continue
                rules.append(("quadrature(%s,%d,%s)" % (cn, deg, scheme), cell(cn), make_quadrature(cell(cn), deg, scheme)))
    for nm, c, degs in (("square", TensorProductCell(I, I), (5, 2)), ("quad", Q, (1, 6)), ("prism", TensorProductCell(T, I), (3, 6)),
                        ("cube", TensorProductCell(I, I, I), (0, 5, 3))):
        rules.append(("quadrature(%s,%s)" % (nm, degs), c, make_quadrature(c, degs)))
    r3, r2 = np.random.RandomState(3).rand(3, 1), np.random.RandomState(4).rand(2, 1)
    rules.append(("quadrature(custom)", Q, TensorProductQuadratureRule([QuadratureRule(PS(r3), [1., 2., 3.]), QuadratureRule(PS(r2), [5., 7.])])))
    rules.append(("quadrature(plain)", Q, QuadratureRule(PS(np.hstack([r3, r3 ** 2])), [1., 2., 3.])))
    for name, c, rule in rules:
        pts0 = np.array(rule.point_set.points)
        idx = rule.point_set.indices
        w0 = np.array(evaluate([gem.ComponentTensor(rule.weight_expression, idx)])[0].arr).flatten()
        el = QuadratureElement(c, rule)
        f = el.fiat_equivalent
        common(name, el, f)
        if not np.array_equal(np.asarray(el.dual_basis[1].points), pts0) or not np.array_equal(np.asarray(rule.point_set.points), pts0):
            bad("changed", name, "the rule's points changed")
        if not np.array_equal(np.array(evaluate([gem.ComponentTensor(rule.weight_expression, idx)])[0].arr).flatten(), w0):
            bad("changed", name, "the rule's weights changed")
        got = [tuple(*n.get_point_dict().keys()) for n in f.dual_basis()]
        if len(got) != len(pts0) or not np.allclose(got, pts0):
            bad("points", name, "the functionals are at %s, the points are %s" % (got[:3], pts0[:3]))
        if not np.allclose(np.array([sum(w for w, _ in n.get_point_dict()[p]) for n, p in zip(f.dual_basis(), got)]), 1):
            bad("points", name, "the functionals are not point evaluations")
        if not np.allclose(np.asarray(f._weights).reshape(-1), w0):
            bad("weights", name, "weights %s instead of %s" % (f._weights, w0))
        (t,) = f.tabulate(0, pts0).values()
        if not np.allclose(t, np.eye(len(pts0))):
            bad("value", name, "not the identity at the points")
    # restricted and nodally enriched elements: values against the original element's own evaluation
    rng = np.random.RandomState(5)
    for cn, mk, doms in (("triangle", lambda c: finat.Lagrange(c, 3), ["interior", "facet", "vertex"]),
                         ("tetrahedron", lambda c: finat.Nedelec(c, 2), ["facet", "edge"]),
                         ("triangle", lambda c: finat.RaviartThomas(c, 2), ["facet", "interior"]),
                         ("interval", lambda c: finat.GaussLobattoLegendre(c, 3), ["vertex", "interior"]),
                         ("quadrilateral", lambda c: finat.FlattenedDimensions(finat.TensorProductElement([finat.Lagrange(cell("interval"), 2)] * 2)), ["interior"]),
                         ("triangle", lambda c: finat.NodalEnrichedElement([finat.Lagrange(c, 1), finat.Bubble(c, 3)]), [None]),
                         ("tetrahedron", lambda c: finat.NodalEnrichedElement([finat.Lagrange(c, 1), finat.FacetBubble(c, 3), finat.Bubble(c, 4)]), [None])):
        for dom in doms:
            base = mk(cell(cn))
            el = base if dom is None else finat.RestrictedElement(base, dom)
            f = el.fiat_equivalent
            name = "%s(%s,%s)" % (type(base).__name__, cn, dom)
            common(name, el, f)
            d = el.cell.get_spatial_dimension()
            for ent in ((d, 0), (d - 1, 0), (d - 1, 1)):
                pts = random_points(ent[0], 3, rng, d, cn)
                g = fiat_tables(f, 1, pts, ent, f.space_dimension())
                ps = PointSet(pts)
                w = finat_table(el.basis_evaluation(1, ps, entity=ent), ps, el)
                out.count("evaluations", len(w))
                for a in w:
                    if set(g) != set(w) or not close(g[a], w[a]):
                        bad("value", name, "entity %s derivative %s" % (ent, a))
                        break


def run(ctx):
    ctx.direct(others)
    fs = [f() for f in foci.ALL] + [dict(leaves=LEAVES, ops=["brk"], maxleaves=1, maxops=1, maxnd=200)]
    todo = []
    for recs in generate_many(ctx, fs):
        recs = [r for r in recs if "tfe" not in ops_of(r["term"])]
        todo += sample(recs, 10**6 if THOROUGH else 120, ctx.rng)
    todo = [r for r in todo if not any(l.startswith('TR') for l in leaves_of(r['term']))]
    ctx.pmap(one, todo)


BOUNDS = "programs of the foci in lib/foci.py (sampled per constructor pattern in the quick tier), every entity, derivative order 2 on the cell and 1 elsewhere; quadrature, restricted and nodally enriched elements"
