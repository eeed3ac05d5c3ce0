"""Physically mapped elements: configurations, physical oracles and functionals."""
import contextlib
import FIAT
import gem
import numpy as np
import finat
from FIAT import jacobi as fjacobi
from FIAT.quadrature import GaussLegendreQuadratureLineRule
from catalog import cell as fcell, embed
from finat.point_set import PointSet
from replay import finat_table
from zoo import Geometry

T, K, I = "triangle", "tetrahedron", "interval"
SPLIT = {"HsiehCloughTocher", "ReducedHsiehCloughTocher", "QuadraticPowellSabin6", "QuadraticPowellSabin12", "AlfeldSorokina", "ArnoldQin",
         "ReducedArnoldQin", "ChristiansenHu", "JohnsonMercier", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1",
         "GuzmanNeilanBubble", "GuzmanNeilanH1div"}
SCALAR = {"Morley", "Hermite", "Bell", "Argyris", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "QuadraticPowellSabin6", "QuadraticPowellSabin12"}


def C(n, c, d=0, v="", q=-1, avg=False, order=1, twin=True):
    return dict(n=n, c=c, d=d, v=v, q=q, avg=avg, order=order, twin=twin, split=n in SPLIT)


def scalar_cfgs(full):
    z = [C("Morley", T, order=2), C("Hermite", I, order=3), C("Hermite", T, order=3), C("Hermite", K, order=2), C("Bell", T, order=3),
         C("Argyris", T, 5, "point", order=2), C("ReducedHsiehCloughTocher", T), C("QuadraticPowellSabin6", T)]
    for avg in (False, True):
        for d in (5, 6, 7, 8, 9, 10) if full else (5, 6, 7, 8, 9):
            z.append(C("Argyris", T, d, avg=avg, order=3 if d < 7 else 2))
        for d in (3, 4, 5, 6, 7, 8) if full else (3, 4, 5, 6, 7):
            z.append(C("HsiehCloughTocher", T, d, avg=avg, order=2 if d == 3 else 1))
        z.append(C("QuadraticPowellSabin12", T, avg=avg))
        z.append(C("Argyris", T, 6, "integral", avg=avg))
        z.append(C("Argyris", T, 5, "integral", 2, avg=avg))
        if full:
            z.append(C("Argyris", T, 6, "integral", 1, avg=avg))
    return z


def piola_cfgs(full):
    z = [C("MardalTaiWinther", T, order=2), C("ArnoldWinther", T, order=2), C("ArnoldWintherNC", T, order=2), C("ReducedArnoldQin", T),
         C("JohnsonMercier", T, 1), C("JohnsonMercier", K, 1)]
    for d in (3, 4, 5, 6, 7) if full else (3, 4, 5, 6):
        for v, q in (("", -1), ("integral", -1), ("point", -1), ("integral", 2)):
            if d >= 6 and q > 0:
                continue
            z.append(C("HuZhang", T, d, v, q, order=2 if d < 5 else 1))
    for c in (T, K):
        z += [C("BernardiRaugel", c, 1, order=2), C("BernardiRaugelBubble", c, 0, order=2), C("AlfeldSorokina", c), C("ChristiansenHu", c),
              C("GuzmanNeilanFirstKindH1", c, 1), C("GuzmanNeilanSecondKindH1", c, 1), C("GuzmanNeilanBubble", c, 0),
              C("GuzmanNeilanH1div", c)]
    z.append(C("BernardiRaugel", K, 2, order=2))
    if full:
        z += [C("GuzmanNeilanFirstKindH1", K, 2), C("GuzmanNeilanSecondKindH1", K, 2)]
    return z


def label(x):
    v = x["v"] + ("(%d)" % x["q"] if x["q"] >= 0 else "")
    return "%s(%s%s%s%s)" % (x["n"], x["c"], ",%d" % x["d"] if x["d"] else "", "," + v if v else "", ",avg" if x["avg"] else "")


def variant(x):
    return None if not x["v"] else x["v"] + ("(%d)" % x["q"] if x["q"] >= 0 else "")


def element(x, cell=None):
    """the element of /repo"""
    c = cell or fcell(x["c"])
    n, d = x["n"], x["d"]
    cls = getattr(finat, n)
    if n in ("Argyris",):
        return cls(c, d, variant=variant(x), avg=x["avg"])
    if n == "HsiehCloughTocher":
        return cls(c, d, avg=x["avg"])
    if n == "QuadraticPowellSabin12":
        return cls(c, avg=x["avg"])
    if n == "HuZhang":
        return cls(c, d, variant(x))
    if n in ("BernardiRaugel", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1"):
        return cls(c, d)
    return cls(c)


def fiat_family(x, c):
    """FIAT's element of the family on a given (physical) cell, chosen here and not by /repo"""
    n, d = x["n"], x["d"]
    if n == "Argyris":
        return FIAT.Argyris(c, d, variant=variant(x) or "integral")
    if n == "HsiehCloughTocher":
        return FIAT.HsiehCloughTocher(c, d)
    if n == "ReducedHsiehCloughTocher":
        return FIAT.HsiehCloughTocher(c, reduced=True)
    if n == "HuZhang":
        return FIAT.HuZhang(c, d, variant=variant(x))
    if n in ("BernardiRaugel", "BernardiRaugelBubble"):
        return FIAT.BernardiRaugel(c, order=d)
    if n in ("GuzmanNeilanFirstKindH1", "GuzmanNeilanBubble"):
        return FIAT.GuzmanNeilanFirstKindH1(c, order=d)
    if n == "GuzmanNeilanSecondKindH1":
        return FIAT.GuzmanNeilanSecondKindH1(c, order=d)
    if n == "ArnoldQin":
        return FIAT.ArnoldQin(c, 2)
    if n == "ReducedArnoldQin":
        return FIAT.ArnoldQin(c, 2, reduced=True)
    if n == "Hermite":
        return FIAT.CubicHermite(c)
    fixed = {"MardalTaiWinther": 3, "ArnoldWinther": 3, "ArnoldWintherNC": 2, "AlfeldSorokina": 2, "ChristiansenHu": 1, "JohnsonMercier": 1,
             "GuzmanNeilanH1div": None}
    cls = getattr(FIAT, n)
    return cls(c, fixed[n]) if n in fixed else cls(c)


def physical_cell(verts):
    c = type(fcell({2: I, 3: T, 4: K}[len(verts)]))()
    c.vertices = tuple(tuple(float(z) for z in v) for v in verts)
    return c


@contextlib.contextmanager
def plain():
    """gem's unrolling rewrites an expression into an equal one, at great cost: leave it out"""
    keep = gem.optimise.aggressive_unroll
    gem.optimise.aggressive_unroll = lambda expression: keep(expression) if isinstance(expression, gem.Zero) else expression
    try:
        yield
    finally:
        gem.optimise.aggressive_unroll = keep


def alphas(order, d):
    return [a for k in range(order + 1) for a in sorted(FIAT.polynomial_set.mis(d, k), reverse=True)]


def from_alpha(alpha):
    return tuple(i for i, k in enumerate(alpha) for _ in range(k))


def chain(tab, order, B, d):
    """Given derivatives D^alpha in x, those in y where x = B y + b: tab alpha -> (npts, nd, nc)."""
    out = {}
    for a in alphas(order, d):
        dirs = from_alpha(a)
        acc = 0
        for combo in np.ndindex((d,) * len(dirs)):
            beta = tuple(combo.count(i) for i in range(d))
            acc = acc + np.prod([B[c, i] for c, i in zip(combo, dirs)]) * tab[beta]
        out[a] = acc
    return out


def entity_points(x, d, e, npts, rng):
    """generic points of an entity, in its own coordinates and in those of the cell"""
    if d == 0:
        own = np.zeros((1, 0))
    else:
        own = rng.dirichlet(np.ones(d + 1) * 2, size=npts)[:, 1:]
    return own, embed(fcell(x["c"]), (d, e), own)


def real_table(x, el, order, own, ent, geo, fast=True):
    """the real element's functions pulled back to the reference cell: alpha -> (npts, nd, nc), reference derivatives"""
    ps = PointSet(own)
    if hasattr(el, "basis_transformation"):
        with plain() if fast else contextlib.nullcontext():
            res = el.basis_evaluation(order, ps, ent, coordinate_mapping=geo)
    else:
        res = el.basis_evaluation(order, ps, ent)
    return finat_table(res, ps, el)


def push(x, el, tab, geo):
    """components of the physical function from those of the reference one (same for every derivative)"""
    J, det = geo.A, np.linalg.det(geo.A)
    m = el.mapping
    n = J.shape[0]
    out = {}
    for a, t in tab.items():
        if m == "contravariant piola":
            t = np.einsum("ij,pbj->pbi", J / det, t)
        elif m == "double contravariant piola":
            s = t.reshape(t.shape[:2] + (n, n))
            t = np.einsum("ij,pbjk,lk->pbil", J / det, s, J / det).reshape(t.shape)
        elif m != "affine":
            raise AssertionError("unexpected mapping %s" % m)
        out[a] = t
    return out


def physical_table(x, el, order, own, ent, geo, fast=True):
    """physical values and physical Cartesian derivatives of the real element's functions"""
    tab = push(x, el, real_table(x, el, order, own, ent, geo, fast), geo)
    return chain(tab, order, np.linalg.inv(geo.A), geo.A.shape[0])


def oracle_table(x, order, cellpts, geo):
    """FIAT's family built on the physical cell, physical derivatives: alpha -> (npts, numbf, nc)"""
    fe = fiat_family(x, physical_cell(geo.verts))
    X = cellpts @ geo.A.T + geo.b
    res = fe.tabulate(order, X)
    out = {}
    for a, t in res.items():
        t = np.asarray(t, dtype=float)
        out[tuple(a)] = np.moveaxis(t.reshape(t.shape[0], -1, len(X)), 2, 0)
    return out


def scales(x, layout, h, verts):
    """what every function of the physical family is multiplied by: the sizes and the averaging"""
    s = []
    top = fcell(x["c"]).get_topology()
    ents = [(d, e) for d in sorted(top) for e in sorted(top[d])]
    for (d, e), dofs in zip(ents, layout):
        for f in dofs:
            z = 1.0
            if f["hp"]:
                z = float(np.mean([h[v] for v in f["hv"]])) ** -f["hp"]
            if f["k"] == "normal" and not f["avg"]:
                a, b = top[1][e]
                z /= np.linalg.norm(np.subtract(verts[b], verts[a]))
            s.append(z)
    return np.array(s)


# ------------------------------------------------------------------ functionals
def jacobi(k, w, s):
    return fjacobi.eval_jacobi(w, w, k, s)


def djacobi(k, w, s):
    return fjacobi.eval_jacobi_deriv(w, w, k, s)


def edge_rule(npts=12):
    """composite rule on [0, 1], split at the middle (Powell-Sabin edges bend there)"""
    q = GaussLegendreQuadratureLineRule(fcell(I), npts)
    p, w = np.asarray(q.get_points()).reshape(-1), np.asarray(q.get_weights())
    return np.concatenate([p / 2, (1 + p) / 2]), np.concatenate([w, w]) / 2


def functional_matrix(x, el, layout, geo):
    """every functional of the layout applied to every physical function of the real (scalar) element; NaN where not specified"""
    top = fcell(x["c"]).get_topology()
    n = geo.A.shape[0]
    rows = []
    ents = [(d, e) for d in sorted(top) for e in sorted(top[d])]
    for (d, e), dofs in zip(ents, layout):
        if not dofs:
            continue
        kinds = {f["k"] for f in dofs}
        if d == 0:
            order = 2 if "d2" in kinds else 1 if "d1" in kinds else 0
            t = physical_table(x, el, order, np.zeros((1, 0)), (0, e), geo)
            seq = [a for k in range(order + 1) for a in sorted(FIAT.polynomial_set.mis(n, k), reverse=True)]
            here = [t[a][0, :, 0] for a in seq]
        elif kinds == {"value"}:
            c = np.full((1, d), 1.0 / (d + 1))
            here = [physical_table(x, el, 0, c, (d, e), geo)[(0,) * n][0, :, 0]]
        elif kinds == {"inner"}:
            here = [None] * len(dofs)
        else:
            s, w = edge_rule()
            t = physical_table(x, el, 1, s[:, None], (1, e), geo)
            p0, p1 = (geo.verts[v] for v in top[1][e])
            L = np.linalg.norm(p1 - p0)
            tan = (p1 - p0) / L
            nor = np.array([tan[1], -tan[0]])
            dn = nor[0] * t[(1, 0)][:, :, 0] + nor[1] * t[(0, 1)][:, :, 0]
            val = t[(0, 0)][:, :, 0]
            here = []
            for f in dofs:
                if f["k"] == "normal":
                    r = (w * jacobi(f["i"], f["w"], 2 * s - 1)) @ dn
                    here.append(r if f["avg"] else r * L)
                elif f["k"] == "trace":
                    here.append((w * 2 * djacobi(f["i"], f["w"], 2 * s - 1)) @ val)
                elif f["k"] == "mean-normal":
                    here.append(w @ dn)
                elif f["k"] == "point-normal":
                    m = physical_table(x, el, 1, np.array([[0.5]]), (1, e), geo)
                    here.append(nor[0] * m[(1, 0)][0, :, 0] + nor[1] * m[(0, 1)][0, :, 0])
        for f, r in zip(dofs, here):
            if r is None:
                rows.append(np.full(el.space_dimension(), np.nan))
                continue
            z = float(np.mean([geo.h[v] for v in f["hv"]])) ** f["hp"] if f["hp"] else 1.0
            rows.append(r * z)
    return np.array(rows)


# ------------------------------------------------------------------ cases
def cases(ctx, cfgs, cells, twins):
    """Cases of the specification: (cfg, layout, joins, record)"""
    import os
    from concurrent.futures import ThreadPoolExecutor
    from harness import SEED, MachineryError
    k = 6
    groups = [g for g in (list(range(i, len(cfgs), k)) for i in range(k)) if g]

    def run(gi):
        g = groups[gi]
        f = dict(seed=SEED + 17 * gi, cells=cells, twins=twins, cfgs=[cfgs[i] for i in g])
        recs, _, ok = ctx.tlc("FinatMapped", env={"FINAT_FOCUS": ctx.jsonfile("mapped%d.json" % gi, f)}, workers=1)
        lay = {r["cfg"]: (r["layout"], r["joins"]) for r in recs if r["ph"] == "layout"}
        return [(cfgs[g[r["cfg"] - 1]],) + lay[r["cfg"]] + (r,) for r in recs if r["ph"] != "layout"]
    with ThreadPoolExecutor(k) as ex:
        out = [c for part in ex.map(run, range(len(groups))) for c in part]
    missing = {label(x) for x in cfgs} - {label(c[0]) for c in out}
    if missing:
        raise MachineryError("no case was placed for %s" % sorted(missing))
    return out


def check_case(item, out):
    """one physical cell: layout, both oracles"""
    x, layout, joins, r = item
    g = r["geo"]
    rng = np.random.RandomState((r["k"] * 7919 + abs(g["det"]) * 31) % 2**31)
    geo = Geometry(fcell(x["c"]), np.array(g["verts"]) / 3.0, np.array(g["h"]) / 2.0)
    name = label(x)
    where = dict(config=x, vertices=(np.array(g["verts"]) / 3.0).tolist(), sizes=(np.array(g["h"]) / 2.0).tolist())
    el = element(x)
    nd = el.space_dimension()
    out.count("traces")
    ed = el.entity_dofs()
    cnt = [len(ed[d][e]) for d in sorted(ed) for e in sorted(ed[d])]
    if cnt != [len(l) for l in layout]:
        out.fail("layout:" + x["n"], "%s attaches %s functions to its entities instead of %s" % (name, cnt, [len(l) for l in layout]), **where)
        return
    if tuple(el.index_shape) != (sum(cnt),) or nd != sum(cnt):
        out.fail("dimension:" + x["n"], "%s has index shape %s, dimension %d instead of %d" % (name, el.index_shape, nd, sum(cnt)), **where)
        return
    # the positions follow the entities except where constraints are dropped from the middle: read them from the element
    pos = [i for d in sorted(ed) for e in sorted(ed[d]) for i in ed[d][e]]
    s = np.empty(nd)
    s[pos] = scales(x, layout, geo.h, geo.verts)
    n = geo.A.shape[0]
    for a in r["ask"]:
        ent = (a["d"][0] if isinstance(a["d"], list) else a["d"], a["e"])
        own, cp = entity_points(x, ent[0], ent[1], 4, rng)
        got = physical_table(x, el, a["order"], own, ent, geo, fast=r["k"] > 1 or nd > 30 or a["order"] > 1)
        want = oracle_table(x, a["order"], cp, geo)
        ref = want if ent[0] == n else oracle_table(x, a["order"], rng.dirichlet(np.ones(n + 1), size=6)[:, 1:], geo)
        out.count("evaluations", len(got))
        out.case([name, ent, a["order"], r["k"]])
        for al in want:
            if al not in got:
                out.fail("alphas:" + x["n"], "%s on %s: derivative %s missing" % (name, ent, al), **where)
                return
            w = want[al][:, :nd] * s[None, :, None]
            if got[al].shape != w.shape:
                out.fail("shape:" + x["n"], "%s on %s: %s instead of %s" % (name, ent, got[al].shape, w.shape), **where)
                return
            m = np.abs(ref[al][:, :nd] * s[None, :, None]).max(axis=(0, 2)) + np.abs(w).max(axis=(0, 2))
            # derivatives of a function the reference basis mixes with others are only as exact as the largest of them
            m = np.maximum(m, 1e-3 * m.max()) + 1e-12
            bad = np.abs(got[al] - w).max(axis=(0, 2)) / m
            if not np.all(bad < 1e-6):
                i = int(np.argmax(np.where(np.isnan(bad), np.inf, bad)))
                out.fail("family:%s" % x["n"], "%s on entity %s: physical derivative %s of function %d (and %d others) is not that of the family on "
                         "the physical cell (relative difference %.3g)" % (name, ent, al, i, int(np.sum(~(bad < 1e-6))) - 1, bad[i]), function=i,
                         alpha=al, got=got[al][0, i].tolist(), want=w[0, i].tolist(), **where)
                return
    if x["n"] in SCALAR:
        F = functional_matrix(x, el, layout, geo)[:, pos]
        out.count("evaluations", F.size)
        want = np.eye(nd)
        known = ~np.isnan(F[:, :1])
        size = np.maximum(1.0, np.abs(F).max(axis=1, keepdims=True)) if known.any() else 1
        bad = np.where(known, np.abs(F - want), 0)
        if not np.all(bad < 1e-6):
            i, j = np.unravel_index(int(np.argmax(bad)), bad.shape)
            flat = [f for l in layout for f in l]
            out.fail("dual:%s" % x["n"], "%s: functional %d (%s) of function %d is %.9g instead of %g" % (
                name, i, flat[i]["k"], j, F[i, j], want[i, j]), functional=flat[i], **where)
    if len(out.samples) < 1:
        out.samples.append("%s on %s" % (name, where["vertices"]))


class Curved(Geometry):
    """A curved cell: every point has its own Jacobian."""

    def __init__(self, ref, verts, h, rng):
        super().__init__(ref, verts, h)
        n = self.A.shape[0]
        self.bend = 0.3 * rng.uniform(-1, 1, size=(n, n, n)) * np.abs(self.A).mean()

    def at(self, point):
        return self.A + np.tensordot(self.bend, np.asarray(point, dtype=float) - 0.4, axes=1)

    def jacobian_at(self, point):
        return gem.Literal(self.at(point))

    def detJ_at(self, point):
        return gem.Literal(np.linalg.det(self.at(point)))


def check_curved(item, out):
    """vertex degrees of freedom only ask for the Jacobian at their own vertex"""
    x, layout, joins, r = item
    g = r["geo"]
    rng = np.random.RandomState(r["k"] * 31 + 5)
    ref = fcell(x["c"])
    geo = Curved(ref, np.array(g["verts"]) / 3.0, np.array(g["h"]) / 2.0, rng)
    el = element(x)
    nd = el.space_dimension()
    n = geo.A.shape[0]
    name = label(x)
    out.count("traces")
    out.case([name, "curved", r["k"]])
    rows, want = [], []
    top = ref.get_topology()
    base = 0
    ents = [(d, e) for d in sorted(top) for e in sorted(top[d])]
    for (d, e), dofs in zip(ents, layout):
        if not dofs:
            continue
        if d == 0:
            Jv = geo.at(ref.get_vertices()[e])
            if abs(np.linalg.det(Jv)) < 1e-2 * np.linalg.norm(Jv) ** n:
                base += len(dofs)
                continue
            t = chain(real_table(x, el, 1, np.zeros((1, 0)), (0, e), geo), 1, np.linalg.inv(Jv), n)
            for k, f in enumerate(dofs):
                a = (0,) * n if f["k"] == "value" else tuple(int(i == k - 1) for i in range(n))
                z = float(np.mean([geo.h[v] for v in f["hv"]])) ** f["hp"] if f["hp"] else 1.0
                rows.append(z * t[a][0, :, 0])
                want.append(np.eye(nd)[base + k])
        else:
            t = real_table(x, el, 0, np.full((1, d), 1.0 / (d + 1)), (d, e), geo)
            rows.append(t[(0,) * n][0, :, 0])
            want.append(np.eye(nd)[base])
        base += len(dofs)
    out.count("evaluations", len(rows))
    bad = np.abs(np.array(rows) - np.array(want))
    if not bad.max() < 1e-7:
        i, j = np.unravel_index(int(np.argmax(bad)), bad.shape)
        out.fail("curved:%s" % x["n"], "%s on a curved cell: functional %d of function %d is %.9g instead of %g" % (
            name, i, j, rows[i][j], want[i][j]), config=x, vertices=(np.array(g["verts"]) / 3.0).tolist(), bend=geo.bend.tolist())


# ------------------------------------------------------------------ two cells
def facet_rule(n):
    from FIAT.quadrature_schemes import create_quadrature
    c = fcell(I if n == 2 else T)
    q = create_quadrature(c, 8)
    return np.asarray(q.get_points(), dtype=float), np.asarray(q.get_weights(), dtype=float) * (1 if n == 2 else 2)


def check_twin(item, out):
    x, layout, joins, r = item
    t = r["twin"]
    name = label(x)
    P = np.array(t["points"]) / 3.0
    h = np.array(t["h"]) / 2.0
    out.count("traces")
    ref = fcell(x["c"])
    n = ref.get_spatial_dimension()
    where = dict(config=x, points=P.tolist(), sizes=h.tolist(), A=t["A"], B=t["B"])
    el = element(x)
    ed = el.entity_dofs()
    pos = [i for d in sorted(ed) for e in sorted(ed[d]) for i in ed[d][e]]
    if n == 1:
        own = np.zeros((1, 0))
    else:
        own = np.random.RandomState(r["k"]).dirichlet(np.ones(n) * 2, size=5)[:, 1:]
    order = 1 if set(joins) & {"gradient", "divergence", "mean normal derivative"} else 0
    side = {}
    for s, f, K in (("A", t["fa"], t["A"]), ("B", t["fb"], t["B"])):
        geo = Geometry(ref, P[K], h[K])
        ent = (n - 1, f)
        side[s] = geo, ent, {}
    # the facet is the same set of points, in the same order, from both sides
    X = [embed(ref, ent, own) @ geo.A.T + geo.b for geo, ent, _ in side.values()]
    if not np.allclose(X[0], X[1]):
        from harness import MachineryError
        raise MachineryError("facets do not match")
    geoA = side["A"][0]
    fv = [geoA.verts[v] for v in ref.get_topology()[n - 1][t["fa"]]]
    if n == 1:
        nor, tans = np.array([1.0]), []
    elif n == 2:
        d = fv[1] - fv[0]
        nor = np.array([d[1], -d[0]]) / np.linalg.norm(d)
    else:
        c = np.cross(fv[1] - fv[0], fv[2] - fv[0])
        nor = c / np.linalg.norm(c)
    qp, qw = facet_rule(n) if n > 1 else (own, np.ones(1))

    def grads(tab):
        return np.stack([tab[tuple(int(i == j) for j in range(n))] for i in range(n)], axis=-1)    # pts, nd, nc, dir

    def quantity(s, what):
        geo, ent, memo = side[s]

        def table(order, pts):
            key = (order, pts is own)
            if key not in memo:
                memo[key] = physical_table(x, el, order, pts, ent, geo)
            return memo[key]
        z = (0,) * n
        if what == "value":
            return table(order, own)[z]
        if what == "gradient":
            g = grads(table(1, own))
            return g.reshape(g.shape[:2] + (-1,))
        if what == "divergence":
            return np.einsum("pdii->pd", grads(table(1, own)))[:, :, None]
        if what == "normal":
            return (table(order, own)[z] @ nor)[:, :, None]
        if what == "traction":
            v = table(order, own)[z]
            return v.reshape(v.shape[:2] + (n, n)) @ nor
        if what == "traction moments":
            v = table(order, qp)[z]
            v = v.reshape(v.shape[:2] + (n, n)) @ nor
            return np.stack([np.einsum("p,pdc->dc", qw * m, v) for m in [np.ones(len(qw))] + list(qp.T)])
        if what == "mean":
            return np.einsum("p,pdc->dc", qw, table(order, qp)[z])[None]
        if what == "mean normal derivative":
            return np.einsum("p,pdci,i->dc", qw, grads(table(1, qp)), nor)[None]
        if what == "vertex gradients":
            vs = ref.get_topology()[ent[0]][ent[1]]
            g = np.concatenate([grads(physical_table(x, el, 1, np.zeros((1, 0)), (0, v), geo)) for v in vs])
            return g.reshape(g.shape[:2] + (-1,))
        if what == "vertices":
            vs = ref.get_topology()[ent[0]][ent[1]]
            return np.concatenate([physical_table(x, el, 0, np.zeros((1, 0)), (0, v), geo)[z] for v in vs])
        raise AssertionError(what)
    shared = np.array(t["shared"]).reshape(-1, 2)
    for what in joins:
        a, b = (np.asarray(quantity(s, what))[:, pos] for s in "AB")
        out.count("evaluations", 2)
        out.case([name, what, t["fa"], t["fb"], r["k"]])
        scale = max(np.abs(a).max(), np.abs(b).max(), 1e-12)
        if len(shared):
            jump = np.abs(a[:, shared[:, 0]] - b[:, shared[:, 1]]).max(axis=(0, 2)) / scale
            if not np.all(jump < 1e-7):
                i = int(np.argmax(np.where(np.isnan(jump), np.inf, jump)))
                out.fail("jump:%s:%s" % (x["n"], what), "%s: the global function made of local functions %s jumps in %s across the shared facet (%.3g)" % (
                    name, shared[i].tolist(), what, jump[i]), quantity=what, **where)
                return
        for s, v, col in (("A", a, 0), ("B", b, 1)):
            rest = np.setdiff1d(np.arange(v.shape[1]), shared[:, col])
            if len(rest) and not np.abs(v[:, rest]).max() < 1e-7 * scale:
                i = int(rest[np.argmax(np.abs(v[:, rest]).max(axis=(0, 2)))])
                out.fail("trace:%s:%s" % (x["n"], what), "%s: function %d of an entity away from facet %d has %s %.3g on it" % (
                    name, i, side[s][1][1], what, np.abs(v[:, i]).max()), quantity=what, **where)
                return
    if len(out.samples) < 1:
        out.samples.append("%s joined over facets %d and %d: %s" % (name, t["fa"], t["fb"], ", ".join(joins)))
