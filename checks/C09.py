"""The dual basis is dual to the basis and dual evaluation applies it."""
import gem
import numpy as np
import foci
from catalog import cell, leaf
from duals import apply_oracle, check_nodal
from harness import THOROUGH
from replay import L, O, TF, build, close, generate_many, geval, leaves_of, maxdiff, ops_of, show
from tables import rng_for, sample


class Family:
    """vector-valued functions f_c(x; k), polynomial and not, numerically and as gem expressions"""

    def __init__(self, dim, nc, nk, rng):
        self.a, self.b = rng.randn(nc, nk), rng.randn(dim, nc, nk)
        self.q, self.w = rng.randn(dim, dim, nc, nk), rng.rand(dim) + 0.5
        self.dim, self.nc, self.nk = dim, nc, nk

    def num(self, x):
        return (self.a + np.einsum("pi,ick->pck", x, self.b) + np.einsum("pi,pj,ijck->pck", x, x, self.q)
                + np.log(2 + x @ self.w)[:, None, None])

    def symbolic(self, X, vshape, k=None):
        """gem expression of shape vshape at the point expression X (shape (dim,)); k: free index or None (first)"""
        i, j, kk = gem.Index(extent=self.dim), gem.Index(extent=self.dim), 0 if k is None else k
        nu = tuple(gem.Index(extent=d) for d in vshape)

        def coef(arr):
            return gem.Literal(arr.reshape(arr.shape[:-2] + tuple(vshape) + (self.nk,)))
        xi, xj = gem.Indexed(X, (i,)), gem.Indexed(X, (j,))
        e = gem.Indexed(coef(self.a), nu + (kk,))
        e = gem.Sum(e, gem.IndexSum(gem.Product(xi, gem.Indexed(coef(self.b), (i,) + nu + (kk,))), (i,)))
        e = gem.Sum(e, gem.IndexSum(gem.Product(gem.Product(xi, xj), gem.Indexed(coef(self.q), (i, j) + nu + (kk,))), (i, j)))
        m = gem.Index(extent=self.dim)
        e = gem.Sum(e, gem.MathFunction("log", gem.Sum(
            gem.Literal(2.0), gem.IndexSum(gem.Product(gem.Indexed(X, (m,)), gem.Indexed(gem.Literal(self.w), (m,))), (m,)))))
        return gem.ComponentTensor(e, nu) if nu else e


def compare(out, kind, sig, name, got, want, t):
    out.count("evaluations")
    out.case("%s %s" % (kind, name))
    if not close(got, want, 1e-7):
        out.fail("%s:%s" % (kind, sig), "%s: %s is not the sum of weight times value over the dual points (%s)" % (
            name, kind, maxdiff(got, want)), term=t)


def one(rec, out):
    t, val = rec["term"], rec["val"]
    el = build(t)
    sig = ".".join(ops_of(t)) or "leaf"
    name = show(t)
    out.count("traces")
    check_nodal(el, out, name, sig, t)
    rng = rng_for(rec)
    nc = int(np.prod(val["vsh"], dtype=int))
    fam = Family(val["cell"]["n"], nc, 3, rng)
    want = apply_oracle(val, fam.num)
    vshape = tuple(val["vsh"])
    ish = tuple(val["ish"])
    # one function, given symbolically
    expr, idx = el.dual_evaluation(lambda ps: fam.symbolic(ps.expression, vshape))
    if tuple(i.extent for i in idx) != ish:
        out.fail("dualshape:" + sig, "%s: dual evaluation over %s instead of %s" % (name, [i.extent for i in idx], ish), term=t)
        return
    compare(out, "dual_evaluation", sig, name, geval(expr, idx).reshape(-1), want[:, 0], t)
    # a family of functions with its own free index
    k = gem.Index(extent=3)
    expr, idx = el.dual_evaluation(lambda ps: fam.symbolic(ps.expression, vshape, k))
    compare(out, "dual_evaluation of a family", sig, name, geval(expr, idx + (k,)).reshape(-1, 3), want, t)
    # the values supplied as a plain table
    def table(ps):
        ext = tuple(i.extent for i in ps.indices)
        pts = np.asarray(ps.points, dtype=float).reshape(int(np.prod(ext)), -1)
        lit = gem.Literal(fam.num(pts)[:, :, 0].reshape(ext + vshape))
        return gem.partial_indexed(lit, ps.indices) if ps.indices else lit
    expr, idx = el.dual_evaluation(table)
    compare(out, "dual_evaluation of a table", sig, name, geval(expr, idx).reshape(-1), want[:, 0], t)
    # the weights themselves, contracted by hand; asking twice gives usable, independent answers
    (Q, x), (Q2, x2) = el.dual_basis, el.dual_basis
    for Q, x in ((Q, x), (Q2, x2)):
        if tuple(Q.shape) != ish + vshape or set(Q.free_indices) - set(x.indices):
            out.fail("weights:" + sig, "%s: dual weights of shape %s with free indices %s over points %s" % (
                name, Q.shape, Q.free_indices, x.indices), term=t)
            return
        q = geval(Q, tuple(x.indices))
        npts = int(np.prod([i.extent for i in x.indices], dtype=int))
        q = q.reshape(npts, val["nd"], nc)
        f = fam.num(np.asarray(x.points, dtype=float).reshape(npts, -1))
        compare(out, "dual_basis", sig, name, np.einsum("pdc,pck->dk", q, f), want, t)
    if len(out.samples) < 1:
        out.samples.append({"program": name, "functional": "first dof on a random family", "value": float(want[0, 0])})


def refused(rec, out):
    """no dual basis: says so instead of answering"""
    t = rec["term"]
    el = build(t)
    out.count("evaluations")
    out.case("refused " + show(t))
    try:
        el.dual_basis
    except Exception:
        return
    try:        # if the implementation now offers one it has to be right
        check_nodal(el, out, show(t), "offered." + ".".join(ops_of(t)), t)
    except Exception:
        return


def quadrature(_, out):
    import finat
    from finat.quadrature import make_quadrature
    from finat.quadrature_element import QuadratureElement, make_quadrature_element
    from FIAT.reference_element import TensorProductCell
    I, T, K, Qd, H = (cell(c) for c in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"))
    W = TensorProductCell(T, I)
    II = TensorProductCell(I, I)
    for cname, c, deg in (("I", I, 3), ("T", T, 2), ("T", T, 4), ("K", K, 2), ("Q", Qd, 2), ("Q", Qd, (1, 3)), ("H", H, 1),
                          ("W", W, (2, 1)), ("II", II, (3, 1)), ("I", I, 0)):
        rule = make_quadrature(c, deg)
        for el, lab in ((QuadratureElement(c, rule), "Quadrature(%s,%s)" % (cname, deg)),
                        (finat.TensorFiniteElement(QuadratureElement(c, rule), (2,)), "tensor(Quadrature(%s,%s))" % (cname, deg)),
                        (finat.TensorFiniteElement(QuadratureElement(c, rule), (2,), transpose=True), "tensor^T(Quadrature(%s,%s))" % (cname, deg))):
            check_nodal(el, out, lab, "quadrature:" + lab, None)
            rng = np.random.RandomState(5)
            nc = int(np.prod(el.value_shape, dtype=int))
            dim = c.get_spatial_dimension()
            fam = Family(dim, nc, 3, rng)
            pts = np.asarray(rule.point_set.points, dtype=float).reshape(-1, dim)
            f = fam.num(pts)
            want = f[:, :, 0].reshape(-1) if "^T" not in lab else f[:, :, 0].T.reshape(-1)
            expr, idx = el.dual_evaluation(lambda ps: fam.symbolic(ps.expression, tuple(el.value_shape)))
            compare(out, "dual_evaluation", "quadrature:" + lab, lab, geval(expr, tuple(idx)).reshape(-1), want, None)


LEAVES = ["CG1T", "CG3T", "DG2T", "DG0T", "RT1T", "RT2T", "N1C2T", "N2C1T", "BDM2T", "BDM1K", "CR1T", "BUB3T", "CGe3T", "DGe2T",
          "CG1I", "CG3I", "DG1I", "DG0I", "GLL3I", "GL2I", "ILEG3I", "LEG2I", "FDML3I", "CG2K", "RT1K", "N1C2K", "N2C1K",
          "REG1T", "HHJ1T", "KMV3T", "BERN2T", "RTp2T", "N1Cp2T", "BDMp1T", "CG3K", "REG0K", "DTAY2T", "HHJ0T", "BDFM2T",
          "GLSA1T", "GLSB1T", "FDMDL2I", "FDMQ2I", "FDMBH2I", "FDMBL2I", "FDMH3I", "N2Cp1T", "RTp1K", "FBUB3K", "REG0T",
          "CG5T", "CG6T", "CG7I", "GLL7I", "GL7I", "DG5T", "RT4T", "N1C4T", "N2C4T", "BDM4T", "CG4K", "RT2K", "N1C3T", "DG3K", "HHJ3T", "REG3T"]


def run(ctx):
    fs = [dict(leaves=LEAVES, ops=["brk", "tfe"], shapes=[[2]], maxleaves=1, maxops=2, maxnd=60),
          dict(leaves=["CG1T", "RT1T", "REG0T", "DG0T"], ops=["tfe"], shapes=[[2], [3], [2, 2], [2, 1, 2], [1]], maxleaves=1, maxops=2, maxnd=60),
          dict(leaves=["CG1I", "CG2I", "DG0I", "DG1I", "GLL2I"], ops=["tpe", "flat", "brk", "tfe"], maxleaves=2, maxops=3, maxnd=40, shapes=[[2]]),
          dict(leaves=["CG1I", "CG2I", "DG1I"], ops=["tpe", "flat"], tpek=[3], maxleaves=3, maxops=2, maxnd=40),
          foci.square(ops=("hdiv", "hcurl", "flat", "brk", "tfe"), maxops=3),
          foci.wedge(ops=("hdiv", "hcurl", "brk", "tfe"), maxops=2), foci.hexes(ops=("hdiv", "hcurl", "flat"), maxops=2),
          dict(terms=[TF("CG1I", [2]), TF("DG0T", [2]), TF("DG1I", [2], True), TF("RT1T", [2]), L("CG1I"), L("DG1I"), L("CG1T"), O("brk", "CG2I")],
               ops=["tpe", "flat", "brk", "tfe"], maxleaves=2, maxops=3, maxstack=2, shapes=[[2]], maxnd=48),
          dict(terms=[O("enr", "CG1T", "BUB3T"), O("mix", "CG1T", "RT1T"), foci.RTCF1], ops=["tfe", "brk"], shapes=[[2]], maxleaves=8,
               maxops=1, maxstack=1)]
    todo, no = [], []
    for f, recs in zip(fs, generate_many(ctx, fs)):
        yes = [r for r in recs if r["val"]["du"]]
        todo += sample(yes, 10**6 if THOROUGH else 120, ctx.rng,
                       key=lambda r: (tuple(ops_of(r["term"])), r["term"]["tr"], str(r["val"]["vsh"]), tuple(leaves_of(r["term"])[:1])))
        no += sample([r for r in recs if not r["val"]["du"]], 200 if THOROUGH else 20, ctx.rng)
    ctx.pmap(one, todo)
    ctx.pmap(refused, no)
    ctx.direct(quadrature)


BOUNDS = "programs of the foci whose leaves have point-evaluation duals; functions given symbolically, with extra free indices and as tables"
