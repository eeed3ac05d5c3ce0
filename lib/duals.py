"""Dual bases: nodality and dual evaluation."""
import numpy as np
import gem
from replay import close, geval, maxdiff, plain


def nodal_matrix(el):
    """dual_evaluation applied to the element's own basis, as (dual dof, basis dof)"""
    beta = el.get_indices()
    nv = el.get_value_indices()

    def fn(ps):
        (tab,) = el.basis_evaluation(0, ps).values()
        return gem.ComponentTensor(gem.Indexed(tab, beta + nv), nv) if nv else gem.Indexed(tab, beta)
    expr, idx = el.dual_evaluation(fn)
    M = geval(expr, tuple(idx) + tuple(beta))
    n = int(np.prod(el.index_shape, dtype=int))
    shape = tuple(i.extent for i in idx)
    return M.reshape(-1, n), shape


def check_nodal(el, out, name, sig, term, scale=1e-7):
    M, shape = nodal_matrix(el)
    out.count("evaluations")
    out.case("nodal " + name)
    n = int(np.prod(el.index_shape, dtype=int))
    if shape != tuple(el.index_shape):
        out.fail("dualshape:" + sig, "%s: dual evaluation indices %s instead of %s" % (name, shape, el.index_shape),
                 term=term)
        return
    if not close(M, np.eye(n), 1e-7):
        out.fail("nodal:" + sig, "%s: dual basis applied to the basis is not the identity (%s)" % (
            name, maxdiff(M, np.eye(n))), term=term)


def oracle(val):
    """the dual basis the specification gives: per layout (points, weights by slot), as
    functional(d, f) = sum over components of sign * product of leaf weights * f at the product points"""
    from catalog import leaf
    import itertools
    res = []
    for lay in val["lay"]:
        per = [leaf(s["l"]).dual for s in lay["slots"]]
        pts = np.array([np.concatenate(p) for p in itertools.product(*[p for p, _ in per])])
        res.append((pts, [W for _, W in per]))
    return res


def apply_oracle(val, f):
    """f(points) -> (npoints, ncomp, ...) ; returns (nd, ...)"""
    res = None
    for q, (pts, Ws) in enumerate(oracle(val)):
        F = f(pts)
        F = F.reshape(tuple(W.shape[1] for W in Ws) + F.shape[1:])
        if res is None:
            res = np.zeros((val["nd"],) + F.shape[len(Ws) + 1:])
        for d, row in enumerate(val["bas"]):
            for c, x in enumerate(row):
                if not x or x[0] - 1 != q:
                    continue
                v = F[(slice(None),) * len(Ws) + (c,)]
                for s, W in enumerate(Ws):
                    v = np.tensordot(W[x[2 + 2 * s], :, x[3 + 2 * s]], v, axes=(0, 0))
                res[d] += x[1] * v
    return res
