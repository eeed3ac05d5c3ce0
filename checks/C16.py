"""Direct serendipity is a complete nodal basis on any convex quadrilateral."""
import numpy as np
import finat
import gem
from catalog import cell, embed
from finat.point_set import PointSet
from gem.interpreter import evaluate
from harness import SEED, THOROUGH, MachineryError
from zoo import QuadGeometry

STEP = 1e-20


class Placed(QuadGeometry):
    """A quadrilateral whose physical points are given directly"""

    def __init__(self, verts, X):
        super().__init__(verts)
        self.X = X

    def physical_points(self, ps, entity=None):
        return gem.Literal(self.X)


def table(el, order, verts, X, entity=None, dim=2):
    ps = PointSet(np.linspace(0.1, 0.9, max(1, len(X) * dim)).reshape(len(X), dim) if dim else np.zeros((1, 0)))
    res = el.basis_evaluation(order, ps, entity, coordinate_mapping=Placed(verts, X))
    out = {}
    for a, e in res.items():
        if tuple(e.shape) != tuple(el.index_shape):
            raise AssertionError("shape %s instead of %s" % (e.shape, el.index_shape))
        r, = evaluate([e])
        arr = np.asarray(r.arr)
        if not r.fids:
            arr = np.broadcast_to(arr, (len(X),) + arr.shape)
        out[tuple(int(i) for i in a)] = arr
    return out


def mono(p, alpha, X):
    """derivative alpha of x^p0 y^p1 at X"""
    out = np.ones(len(X))
    for d in range(2):
        c = 1.0
        for i in range(alpha[d]):
            c *= p[d] - i
        out = out * (c * X[:, d] ** (p[d] - alpha[d]) if p[d] >= alpha[d] else 0.0)
    return out


def lagrange(nodes, s):
    """values of the Lagrange polynomials of the given nodes at s: (points, nodes)"""
    out = np.ones((len(s), len(nodes)))
    for i, a in enumerate(nodes):
        for j, b in enumerate(nodes):
            if i != j:
                out[:, i] *= (s - b) / (a - b)
    return out


def one(item, out):
    rec, lay, edges = item
    quads = [np.array(q) / 4.0 for q in rec["quads"]]
    quads[1] = quads[1] * 3 - 1          # not of unit size
    degs = {q["el"]: q["r"] for q in rec["hist"]}
    els = {i: finat.DirectSerendipity(cell("quadrilateral"), r) for i, r in degs.items()}
    out.count("traces")
    rng = np.random.RandomState(sum(map(sum, rec["quads"][0])) * 131 + len(rec["hist"]) + 7919 * rec["n"])
    where = dict(quads=[q.tolist() for q in quads], history=rec["hist"])

    def nodes(r, verts):
        return np.array([np.array(n["w"]) @ verts / n["den"] for n in lay[r - 1]["nodes"]])
    # layout
    for i, el in els.items():
        r = degs[i]
        ed = el.entity_dofs()
        att = [list(ed[d][e]) for d in sorted(ed) for e in sorted(ed[d])]
        if att != [list(a) for a in lay[r - 1]["att"]] or el.space_dimension() != len(lay[r - 1]["nodes"]) or \
                tuple(el.index_shape) != (len(lay[r - 1]["nodes"]),) or tuple(el.value_shape) != () or el.degree != r:
            out.fail("layout:%d" % min(r, 3), "degree %d: layout %s, dimension %s, instead of %s" % (
                r, att, el.space_dimension(), lay[r - 1]["att"]), **where)
            return
    asked = []
    for step, q in enumerate(rec["hist"]):
        r, verts, el = q["r"], quads[q["quad"] - 1], els[q["el"]]
        name = "degree %d, query %d (%s)" % (r, step + 1, q)
        Z = nodes(r, verts)
        own = np.zeros((1, 0)) if q["d"] == 0 else rng.rand(3, q["d"]) * 0.8 + 0.1
        geo = QuadGeometry(verts)
        X = geo.map(embed(cell("quadrilateral"), (q["d"], q["e"]), own))
        ent = (q["d"], q["e"])
        ask = ent if q["d"] < 2 or step % 2 else None
        got = table(el, q["order"], verts, X, ask, q["d"])
        asked.append((el, q["order"], verts, X, ask, q["d"], got))
        out.count("evaluations", len(got))
        out.case([r, ent, q["order"], q["quad"], rec["n"]])
        want_alphas = {(i, k - i) for k in range(q["order"] + 1) for i in range(k + 1)}
        if set(got) != want_alphas:
            out.fail("alphas", "%s: derivatives %s" % (name, sorted(got)), **where)
            return
        mags = {}
        for a, t in got.items():
            mags[a] = max(1.0, np.abs(t).max())
            # completeness: polynomials up to the degree, and their derivatives, are reproduced
            for p in lay[r - 1]["mono"]:
                # centred and scaled, so that high powers stay of moderate size
                c, s = verts.mean(axis=0), np.abs(verts - verts.mean(axis=0)).max()
                have = t @ mono(p, (0, 0), (Z - c) / s)
                want = mono(p, a, (X - c) / s) / s ** sum(a)
                if not np.all(np.abs(have - want) < 1e-7 * mags[a]):
                    out.fail("reproduce:%d" % min(r, 5), "%s: derivative %s of the interpolant of the polynomial %s is off by %.3g" % (
                        name, a, p, np.abs(have - want).max()), monomial=p, alpha=a, point=X.tolist(), **where)
                    return
            # the reported derivative is the derivative of the reported one before (complex step)
            if sum(a):
                d = 0 if a[0] else 1
                low = (a[0] - 1, a[1]) if a[0] else (a[0], a[1] - 1)
                Xc = X.astype(complex)
                Xc[:, d] += STEP * 1j
                t0 = table(el, sum(low), verts, Xc, ask, q["d"])[low].imag / STEP
                if not np.all(np.abs(t0 - t) < 1e-7 * mags[a]):
                    out.fail("derivative:%d" % min(r, 5), "%s: what is reported as derivative %s is not the derivative of %s (%.3g)" % (
                        name, a, low, np.abs(t0 - t).max()), alpha=a, point=X.tolist(), **where)
                    return
        # traces on edges
        z = got[(0, 0)]
        if q["d"] < 2:
            es = [q["e"]] if q["d"] == 1 else [e for e in range(4) if q["e"] in edges[e]]
            for e in es:
                v0, v1 = edges[e]
                a, b = verts[v0], verts[v1]
                s = (X - a) @ (b - a) / ((b - a) @ (b - a))
                lag = lagrange([i / r for i in range(r + 1)], s)
                want = np.zeros_like(z)
                idx = [v0] + list(lay[r - 1]["att"][4 + e]) + [v1]
                want[:, idx] = lag
                if not np.all(np.abs(want - z) < 1e-8 * mags[(0, 0)]):
                    i = int(np.argmax(np.abs(want - z).max(axis=0)))
                    out.fail("trace:%d" % min(r, 5), "%s: the trace of function %d on edge %d is not the Lagrange polynomial of the edge's nodes (%.3g)" % (
                        name, i, e, np.abs(want - z).max()), function=i, edge=e, **where)
                    return
        # nodal
        K = table(el, 0, verts, Z)[(0, 0)]
        if not np.all(np.abs(K - np.eye(len(Z))) < 1e-7):
            i, j = np.unravel_index(int(np.argmax(np.abs(K - np.eye(len(Z))))), K.shape)
            out.fail("nodal:%d" % min(r, 5), "%s: function %d is %.9g at node %d" % (name, j, K[i, j], i), **where)
            return
    # the history does not matter: the same questions again, and to new elements, in the opposite order
    for el, order, verts, X, ask, dim, got in reversed(asked):
        for who, e2 in (("again", el), ("to a new element", finat.DirectSerendipity(cell("quadrilateral"), el.degree))):
            t = table(e2, order, verts, X, ask, dim)
            for a in got:
                if t[a].shape != got[a].shape or not np.allclose(t[a], got[a], rtol=1e-9, atol=1e-9 * max(1, np.abs(got[a]).max())):
                    out.fail("history", "degree %d: the same question asked %s has a different answer" % (el.degree, who), alpha=a, **where)
                    return
    if len(out.samples) < 1:
        out.samples.append("%s on %s" % (sorted(degs.values()), where["quads"]))


def run(ctx):
    foci = [dict(plain=0, degrees=[1, 2, 3], depth=4, order=3, cost=12), dict(plain=0, degrees=[2, 1, 2], depth=5, order=3, cost=12),
            dict(plain=0, degrees=[4, 3, 4], depth=4, order=2, cost=15), dict(plain=1, degrees=[1, 2, 3, 4], depth=5, order=2, cost=12),
            dict(plain=0, degrees=[5], depth=2, order=2, cost=15), dict(plain=0, degrees=[6], depth=2, order=1, cost=12)]
    nums = [14, 10, 10, 8, 5, 3]
    if THOROUGH:
        nums = [150, 80, 80, 60, 40, 30]
        foci += [dict(plain=0, degrees=[7], depth=2, order=1, cost=14)]
        nums += [3]
    todo, lay, edges = [], None, None
    for k, (f, n) in enumerate(zip(foci, nums)):
        recs, _, ok = ctx.tlc("FinatDirect", env={"FINAT_FOCUS": ctx.jsonfile("direct%d.json" % k, f)}, simulate=n, depth=20, workers=1,
                              seed=SEED * 31 + k)
        for r in recs:
            if r["layout"]:
                lay, edges = r["degs"], r["edges"]
        got = [r for r in recs if not r["layout"]]
        if not got:
            raise MachineryError("no history was generated for %s" % f)
        todo += got
    for n, r in enumerate(todo):
        r["n"] = n
    # a square and a trapezium with a right angle are always among them, and the degrees they carry
    plain = [[[0, 0], [0, 4], [4, 0], [4, 4]], [[0, 0], [4, 0], [0, 4], [4, 6]]]
    top = 6 if THOROUGH else 4
    for r in range(1, top + 1):
        todo.append(dict(quads=plain, n=1000 + r, hist=[dict(el=1, r=r, quad=1, order=1, d=2, e=0), dict(el=1, r=r, quad=2, order=1, d=1, e=r % 4),
                                                        dict(el=1, r=r, quad=1, order=1, d=0, e=r % 4)]))
    items = [(r, lay, edges) for r in todo]
    items.sort(key=lambda t: -max(q["r"] for q in t[0]["hist"]))
    ctx.pmap(one, items, limit=900 if THOROUGH else 300)


BOUNDS = "degrees 1 to %d; pseudo-random convex quadrilaterals (squares and trapezia among them, mirrored ones too); derivative order <= 3; " \
    "histories of up to five evaluations of up to four elements" % (7 if THOROUGH else 6)
