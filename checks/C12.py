"""Quadrature rules are exact, lie in the cell, and are consistently indexed."""
import itertools
from fractions import Fraction

import gem
import numpy as np
from FIAT.polynomial_set import ONPolynomialSet
from FIAT.macro import AlfeldSplit, IsoSplit
from FIAT.reference_element import (Point, TensorProductCell, UFCHexahedron, UFCInterval, UFCQuadrilateral, UFCTetrahedron,
                                    UFCTriangle)
from finat.point_set import GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, TensorPointSet
from finat.quadrature import AbstractQuadratureRule, QuadratureRule, TensorProductQuadratureRule, make_quadrature
from gem.interpreter import evaluate
from harness import THOROUGH, brief
from replay import close, geval, maxdiff, plain

SIMPLE = {"P": Point, "I": UFCInterval, "T": UFCTriangle, "K": UFCTetrahedron, "Q": UFCQuadrilateral, "H": UFCHexahedron}
SPLIT = {"alfeldI": lambda: AlfeldSplit(UFCInterval()), "isoI": lambda: IsoSplit(UFCInterval()), "iso3I": lambda: IsoSplit(UFCInterval(), degree=3),
         "alfeldT": lambda: AlfeldSplit(UFCTriangle()), "isoT": lambda: IsoSplit(UFCTriangle()), "alfeldK": lambda: AlfeldSplit(UFCTetrahedron())}
I, T, K, Q, H, P = ["I"], ["T"], ["K"], ["Q"], ["H"], ["P"]


def S(name, d):
    return ["S", name, d]


def X(*c):
    return ["X"] + list(c)


def make(c):
    if c[0] == "X":
        return TensorProductCell(*map(make, c[1:]))
    return SPLIT[c[1]]() if c[0] == "S" else SIMPLE[c[0]]()


def title(c):
    return "x".join(title(x) if x[0] != "X" else "(%s)" % title(x) for x in c[1:]) if c[0] == "X" else c[-2] if c[0] == "S" else c[0]


def frac(f):
    r = Fraction(1)
    for x in f["num"]:
        r *= x
    for x in f["den"]:
        r /= x
    return r


MOMENTS = {}


def moments(n, d):
    """[(exponents, exact value)] of total degree <= d"""
    key = n, d
    if key not in MOMENTS:
        sel = [(a, v) for a, v in MOMENTS[n] if sum(a) <= d]
        MOMENTS[key] = (np.array([a for a, _ in sel], dtype=int).reshape(len(sel), n), np.array([float(v) for _, v in sel]))
    return MOMENTS[key]


def nested(rec):
    """the degree argument: one number, or one per factor (a factor of several parts takes a tuple)"""
    d, shape = list(rec["deg"]), rec["shape"]
    if rec["uniform"]:
        return [d[0]]
    out, forms, pos = [], [], 0
    for n in shape:
        g = d[pos:pos + n]
        pos += n
        forms.append([g[0]] if n == 1 else [tuple(g)] + ([g[0]] if len(set(g)) == 1 else []))
    return [tuple(x) for x in itertools.product(*forms)] + [list(x) for x in itertools.islice(itertools.product(*forms), 1)]


def vander(x, A):
    """monomials A at points x: (npts, nmono)"""
    if A.shape[1] == 0:
        return np.ones((len(x), len(A)))
    return np.prod(x[:, None, :] ** A[None, :, :], axis=2)


ORTHO = {}


def orthonormal(d, k, x):
    """an orthogonal basis of the polynomials of degree k at x: (npts, n); all but the first have integral zero"""
    if d == 0:
        return np.ones((len(x), 1))
    if d == 1:
        return np.polynomial.legendre.legvander(2 * x[:, 0] - 1, k)
    if (d, k) not in ORTHO:
        ORTHO[d, k] = ONPolynomialSet((UFCTriangle if d == 2 else UFCTetrahedron)(), k)
    t = ORTHO[d, k].tabulate(x)[(0,) * d].T
    return t / t[0, 0]


def supported(rec):
    if rec["scheme"] != "KMV":
        return True
    return all(n == 1 or (n == 2 and 1 <= d <= 5) or (n == 3 and 1 <= d <= 3) for n, d in zip(rec["dims"], rec["deg"])) \
        and rec["cell"][0] != "H" and (rec["cell"][0] != "S")


def one(rec, out):
    cell = make(rec["cell"])
    kind = rec["cell"][0] if rec["cell"][0] != "S" else "S" + rec["cell"][1]
    if kind == "X":
        kind = "X" + title(rec["cell"])
    for arg in nested(rec):
        name = "%s, degree %s, %s" % (title(rec["cell"]), arg, rec["scheme"])
        out.case(name)
        out.count("traces")
        if rec["rejected"]:
            try:
                make_quadrature(cell, arg, rec["scheme"])
            except ValueError:
                out.count("rejections")
                continue
            except Exception as e:
                out.fail("negative:" + kind, "%s: %s rather than ValueError" % (name, brief(e)), rec=rec)
                continue
            out.fail("negative:" + kind, "%s: accepted" % name, rec=rec)
            continue
        try:
            rule = make_quadrature(cell, arg, rec["scheme"]) if rec["scheme"] != "default" or sum(rec["deg"]) % 2 else make_quadrature(cell, arg)
        except Exception:
            if supported(rec):
                raise
            out.count("unsupported")
            continue
        judge(rec, rule, name, kind, out)
    if not out.samples and not rec["rejected"]:
        out.samples.append(name)


def judge(rec, rule, name, kind, out):
    def bad(key, msg):
        out.fail("%s:%s" % (key, kind), "%s: %s" % (name, msg), rec=rec)
    ps, w = rule.point_set, rule.weight_expression
    pts = np.asarray(ps.points, dtype=float)
    idx = tuple(ps.indices)
    n = sum(rec["dims"])
    if len(idx) != rec["nidx"] or len(set(idx)) != len(idx):
        bad("indices", "the points have %d free indices instead of %d" % (len(idx), rec["nidx"]))
        return
    if w.shape != () or set(w.free_indices) != set(idx):
        bad("weights", "weights of shape %s have free indices %s, the points %s" % (w.shape, w.free_indices, idx))
        return
    if tuple(ps.indices) != idx or tuple(rule.point_set.indices) != idx:
        bad("indices", "asking again gives other indices")
    npts = int(np.prod([i.extent for i in idx], dtype=int))
    if pts.shape != (npts, n) or ps.dimension != n:
        bad("points", "points of shape %s, %s indexed in %d dimensions" % (pts.shape, npts, n))
        return
    e = ps.expression
    if e.shape != (n,) or set(e.free_indices) - set(idx):
        bad("expression", "expression of shape %s with free indices %s" % (e.shape, e.free_indices))
        return
    if n:
        view = geval(e, idx).reshape(npts, n)
        if not close(view, pts, 1e-13):
            bad("views", "flat and factored views differ (%s)" % maxdiff(view, pts))
            return
    W = geval(w, idx).reshape(npts)
    # inside the cell
    pos = 0
    for d in rec["dims"]:
        x = pts[:, pos:pos + d]
        pos += d
        simplexlike = np.concatenate([x, 1 - x.sum(axis=1, keepdims=True)], axis=1) if d else np.zeros((1, 1))
        if simplexlike.min() < -1e-12:
            bad("outside", "a point lies outside the cell by %g" % -simplexlike.min())
            return
    # exact: every product of monomials
    want, mono, pos = np.ones(1), np.ones((npts, 1)), 0
    for d, k in zip(rec["dims"], rec["deg"]):
        A, m = moments(d, k)
        v = vander(pts[:, pos:pos + d], A)
        pos += d
        want = np.outer(want, m).ravel()
        mono = (mono[:, :, None] * v[:, None, :]).reshape(npts, -1)
    got = W @ mono
    out.count("evaluations", len(want))
    err = np.abs(got - want)
    if err.max() > 1e-11:
        bad("inexact", "%d of %d monomials, worst error %g" % ((err > 1e-11).sum(), len(want), err.max()))
    ortho, pos = np.ones((npts, 1)), 0
    for d, k in zip(rec["dims"], rec["deg"]):
        v = orthonormal(d, k, pts[:, pos:pos + d])
        pos += d
        ortho = (ortho[:, :, None] * v[:, None, :]).reshape(npts, -1)
    got = W @ ortho
    err = np.abs(got[1:]).max() if len(got) > 1 else 0
    if err > 1e-10:
        bad("orthogonal", "an orthogonal polynomial of the space has integral %g" % err)
    # structure
    leaves = flat_factors(ps)
    labels = [isinstance(p, GaussLegendrePointSet) for p in leaves]
    if len(leaves) == rec["nidx"]:
        for i, (p, lab) in enumerate(zip(leaves, rec["labels"])):
            x = np.asarray(p.points, dtype=float)
            if lab and not isinstance(p, GaussLegendrePointSet):
                bad("label", "line factor %d is not labelled Gauss-Legendre" % i)
            if isinstance(p, GaussLegendrePointSet):
                g = (1 + np.polynomial.legendre.leggauss(len(x))[0]) / 2
                if not close(np.sort(x[:, 0]), np.sort(g), 1e-12):
                    bad("mislabel", "factor %d is labelled Gauss-Legendre and is not" % i)
            if isinstance(p, GaussLobattoLegendrePointSet):
                bad("mislabel", "factor %d is labelled Gauss-Lobatto-Legendre" % i)
    elif any(labels) or rec["cell"][0] != "H":
        bad("factors", "%d point factors instead of %d" % (len(leaves), rec["nidx"]))
    # orientation
    if rec["oriented"]:
        maps = rule.intrinsic_orientation_permutation_map_tuple
        if len(maps) != rec["axes"]:
            bad("axes", "%d orientation maps for %d axes" % (len(maps), rec["axes"]))
            return
        for a, m in enumerate(maps):
            x = np.asarray(leaves[a].points)[:, 0]
            wa = np.asarray(weights_of(rule, a))
            m = np.asarray(m)
            out.count("evaluations", 2)
            if m.shape != (2, len(x)) or list(m[0]) != list(range(len(x))) or sorted(m[1]) != list(range(len(x))):
                bad("orientation", "axis %d: %s" % (a, m.tolist()))
            elif not close(x[m[1]], 1 - x, 1e-12) or not close(wa[m[1]], wa, 1e-12):
                bad("orientation", "axis %d: reflecting sends points %s to %s" % (a, x.tolist(), x[m[1]].tolist()))
        if len(rec["dims"]) == rec["axes"] and (rec["cell"][0] != "X" or all(c == I for c in rec["cell"][1:])):
            E = np.asarray(rule.extrinsic_orientation_permutation_map)
            d = rec["axes"]
            if E.shape[1:] != (d, d) or not np.array_equal(E[0], np.eye(d)) or len({e.tobytes() for e in E}) != len(E) \
                    or not all(np.array_equal(e @ e.T, np.eye(d)) for e in E):
                bad("extrinsic", "extrinsic orientations %s" % E.tolist())


def flat_factors(ps):
    if isinstance(ps, TensorPointSet):
        return [q for p in ps.factors for q in flat_factors(p)]
    return [ps]


def weights_of(rule, axis):
    """weights of one axis of a rule on lines: the others summed out"""
    idx = rule.point_set.indices
    W = geval(rule.weight_expression, idx)
    return W.sum(axis=tuple(i for i in range(len(idx)) if i != axis))


def views(_, out):
    """hand-made rules and point sets: same order of points, weights and indices in every view"""
    rng = np.random.RandomState(7)
    for k, shape in enumerate([(3,), (2, 3), (3, 1, 2), (2, 4), (1, 1), (2, 2, 2)]):
        for dims in itertools.product((1, 2), repeat=len(shape)):
            sets = [PointSet(rng.rand(n, d)) for n, d in zip(shape, dims)]
            ws = [rng.rand(n) for n in shape]
            rules = [QuadratureRule(p, w) for p, w in zip(sets, ws)]
            for nest in (False, True) if len(shape) == 3 else (False,):
                if nest:
                    rule = TensorProductQuadratureRule([rules[0], TensorProductQuadratureRule(rules[1:])])
                else:
                    rule = TensorProductQuadratureRule(rules)
                out.case("views %s %s %s" % (shape, dims, nest))
                out.count("evaluations", 3)
                out.count("traces")
                ps = rule.point_set
                want = np.array([np.concatenate(p) for p in itertools.product(*[s.points for s in sets])])
                ww = np.array([np.prod(p) for p in itertools.product(*ws)])
                if not close(np.asarray(ps.points), want, 1e-14):
                    out.fail("views:flat", "tensor points %s are not row-major over the factors" % (shape,))
                elif ps.indices != sum((s.indices for s in sets), ()):
                    out.fail("views:indices", "tensor point set %s: indices are not those of its factors" % (shape,))
                elif not close(geval(ps.expression, ps.indices).reshape(want.shape), want, 1e-14):
                    out.fail("views:expression", "tensor point set %s: the expression lists other points" % (shape,))
                elif not close(geval(rule.weight_expression, ps.indices).reshape(-1), ww, 1e-14):
                    out.fail("views:weights", "tensor rule %s: weights do not belong to the points" % (shape,))
    from finat.point_set import PointSingleton, UnknownPointSet
    s = PointSingleton(np.array([0.25, 0.5]))
    out.count("evaluations", 2)
    if s.points.shape != (1, 2) or s.indices != () or s.dimension != 2 or not close(geval(s.expression, ()), [0.25, 0.5]):
        out.fail("views:singleton", "a single point is not one point without indices")
    v = gem.Variable("rt_X", (4, 2))
    u = UnknownPointSet(v)
    arr = rng.rand(4, 2)
    if u.points.shape != (4, 2) or len(u.points) != 4 or u.dimension != 2 or tuple(i.extent for i in u.indices) != (4,) \
            or not close(geval(u.expression, u.indices, {v: arr}), arr):
        out.fail("views:unknown", "points known at run time are not listed in the order of the array")
    # equality of point sets: same kind, shape and coordinates up to a tolerance
    a = rng.rand(3, 1)
    cases = [(PointSet(a), PointSet(a + 1e-14), True), (PointSet(a), PointSet(a + 1e-6), False), (PointSet(a), PointSet(a[:2]), False),
             (PointSet(a), PointSet(a[::-1]), False), (PointSet(a), GaussLegendrePointSet(a), False),
             (GaussLegendrePointSet(a), GaussLobattoLegendrePointSet(a), False), (GaussLegendrePointSet(a), GaussLegendrePointSet(a), True),
             (TensorPointSet([PointSet(a), PointSet(a)]), TensorPointSet([PointSet(a), PointSet(a + 1e-14)]), True),
             (TensorPointSet([PointSet(a), PointSet(a)]), TensorPointSet([PointSet(a), PointSet(a + 1e-6)]), False),
             (TensorPointSet([PointSet(a), PointSet(a)]), TensorPointSet([PointSet(a)]), False),
             (TensorPointSet([PointSet(a)]), PointSet(a), False), (PointSet(a), TensorPointSet([PointSet(a)]), False)]
    for i, (x, y, eq) in enumerate(cases):
        out.count("evaluations")
        if bool(x.almost_equal(y)) != eq or bool(y.almost_equal(x)) != eq:
            out.fail("views:almost", "point sets %d: almost_equal is %s" % (i, not eq))
    if not PointSet(a).almost_equal(PointSet(a + 1e-6), tolerance=1e-4) or PointSet(a).almost_equal(PointSet(a + 1e-6), tolerance=1e-7):
        out.fail("views:tolerance", "almost_equal does not use the tolerance it is given")


def refused(_, out):
    """rules that make no sense"""
    from finat.quadrature_element import QuadratureElement
    out.count("evaluations", 3)
    for name, f in (("weights", lambda: QuadratureRule(PointSet(np.zeros((3, 1))), [1.0, 2.0])),
                    ("scheme", lambda: make_quadrature(UFCTriangle(), 2, "nonsense")),
                    ("count", lambda: make_quadrature(TensorProductCell(UFCInterval(), UFCInterval()), (1, 2, 3)))):
        try:
            f()
        except Exception:
            continue
        out.fail("accepted:" + name, "a rule with wrong %s was accepted" % name)


def run(ctx):
    I1 = dict(schemes=["default"], negative=True)
    deep = THOROUGH
    foci = [dict(I1, cells=[I, P], maxdeg=[2, 120 if deep else 64, 0, 0]),
            dict(schemes=["default", "canonical", "KMV"], negative=True, cells=[T, K], maxdeg=[0, 0, 40 if deep else 26, 20 if deep else 12]),
            dict(I1, cells=[Q, X(I, I), X(T, I), X(I, T), H], maxdeg=[0, 6, 6, 0]),
            dict(I1, cells=[X(I, I, I), X(Q, I), X(X(I, I), I), X(I, Q)], maxdeg=[0, 4 if deep else 3, 0, 0]),
            dict(I1, cells=[S("alfeldI", 1), S("isoI", 1), S("iso3I", 1), S("alfeldT", 2), S("isoT", 2), S("alfeldK", 3), X(S("isoI", 1), I)],
                 maxdeg=[0, 5, 6, 4]),
            dict(schemes=["canonical", "KMV"], negative=False, cells=[I, Q, X(T, I), X(I, T), X(I, I)], maxdeg=[0, 4, 5, 0])]
    todo = []
    for i, f in enumerate(foci):
        recs, _, _ = ctx.tlc("FinatQuadrature", env={"FINAT_FOCUS": ctx.jsonfile("focus%d.json" % i, f)})
        for r in recs:
            if r["kind"] == "moments":
                tab = [(tuple(x["a"]), frac(x["f"])) for x in r["tab"]]
                if len(tab) > len(MOMENTS.get(r["n"], [])):
                    MOMENTS[r["n"]] = tab
            else:
                todo.append(r)
    ctx.pmap(one, todo)
    ctx.direct(views)
    ctx.direct(refused)


BOUNDS = "every cell kind to products of three lines; degrees to 64 (line), 26 (triangle), 12 (tetrahedron), 6 per factor in 2D products, 3 in 3D"
