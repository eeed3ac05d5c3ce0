"""Answers do not depend on the history of calls."""
import contextlib
import functools
from concurrent.futures import ThreadPoolExecutor
import FIAT
import finat
import gem
import numpy as np
from catalog import cell, embed
from finat.point_set import GaussLobattoLegendrePointSet, PointSet, TensorPointSet
from finat.quadrature import make_quadrature
from gem.interpreter import evaluate
from harness import SEED, THOROUGH, Hang, MachineryError
from mapped import plain
from zoo import Geometry, QuadGeometry

ALL = ["eval", "maps", "perms", "dual", "interp", "equiv", "point"]
NOPOINT = [k for k in ALL if k != "point"]
MAPPED = ["eval", "maps"]


class Made(dict):
    """the elements of a pool, built from one another, and everything that is handed to them"""


def P(*entries):
    return list(entries)


def E(name, cellname, make, parts=(), kinds=ALL, geo=False, order=1):
    return dict(name=name, cell=cellname, make=make, parts=list(parts), kinds=list(kinds), geo=geo, order=order)


TRI, LINE, QUAD, TET = "triangle", "interval", "quadrilateral", "tetrahedron"

POOLS = {
    "simplex": P(
        E("P2", TRI, lambda e: finat.Lagrange(cell(TRI), 2), order=2),
        E("B3", TRI, lambda e: finat.Bubble(cell(TRI), 3), order=2),
        E("DG1", TRI, lambda e: finat.DiscontinuousLagrange(cell(TRI), 1), order=2),
        E("RT2", TRI, lambda e: finat.RaviartThomas(cell(TRI), 2)),
        E("P2+B3", TRI, lambda e: finat.EnrichedElement([e["P2"], e["B3"]]), ["P2", "B3"], order=2),
        E("P2+DG1", TRI, lambda e: finat.EnrichedElement([e["P2"], e["DG1"]]), ["P2", "DG1"], order=2),
        E("P2+(P2+DG1)", TRI, lambda e: finat.EnrichedElement([e["P2"], e["P2+DG1"]]), ["P2", "P2+DG1"]),
        E("V(P2+B3)", TRI, lambda e: finat.TensorFiniteElement(e["P2+B3"], (2,)), ["P2+B3"]),
        E("T(P2)t", TRI, lambda e: finat.TensorFiniteElement(e["P2"], (2, 3), transpose=True), ["P2"]),
        E("broken P2", TRI, lambda e: finat.DiscontinuousElement(e["P2"]), ["P2"]),
        E("mixed", TRI, lambda e: finat.MixedElement([e["RT2"], e["P2"]]), ["RT2", "P2"]),
        E("nodal", TRI, lambda e: finat.NodalEnrichedElement([e["P2"], e["B3"]]), ["P2", "B3"])),
    "lines": P(
        E("Q1", LINE, lambda e: finat.Lagrange(cell(LINE), 1), order=2),
        E("D0", LINE, lambda e: finat.DiscontinuousLagrange(cell(LINE), 0), order=2),
        E("Q2", LINE, lambda e: finat.Lagrange(cell(LINE), 2), order=2),
        E("Q1xD0", "square", lambda e: finat.TensorProductElement([e["Q1"], e["D0"]]), ["Q1", "D0"], order=2),
        E("D0xQ1", "square", lambda e: finat.TensorProductElement([e["D0"], e["Q1"]]), ["D0", "Q1"], order=2),
        E("Q2xQ1", "square", lambda e: finat.TensorProductElement([e["Q2"], e["Q1"]]), ["Q2", "Q1"], order=2),
        E("hdiv", "square", lambda e: finat.EnrichedElement([finat.HDivElement(e["Q1xD0"]), finat.HDivElement(e["D0xQ1"])]), ["Q1xD0", "D0xQ1"]),
        E("hcurl", "square", lambda e: finat.EnrichedElement([finat.HCurlElement(e["Q1xD0"]), finat.HCurlElement(e["D0xQ1"])]), ["Q1xD0", "D0xQ1"]),
        E("flat Q2xQ1", QUAD, lambda e: finat.FlattenedDimensions(e["Q2xQ1"]), ["Q2xQ1"], order=2),
        E("flat hdiv", QUAD, lambda e: finat.FlattenedDimensions(e["hdiv"]), ["hdiv"]),
        E("V flat", QUAD, lambda e: finat.TensorFiniteElement(e["flat Q2xQ1"], (2,)), ["flat Q2xQ1"])),
    "spectral": P(
        E("GLL3", LINE, lambda e: finat.GaussLobattoLegendre(cell(LINE), 3), order=2),
        E("GL2", LINE, lambda e: finat.GaussLegendre(cell(LINE), 2), order=2),
        E("FDM3", LINE, lambda e: finat.FDMLagrange(cell(LINE), 3), order=2),
        E("GLL3xGLL3", "square", lambda e: finat.TensorProductElement([e["GLL3"], e["GLL3"]]), ["GLL3"]),
        E("GLL3xGL2", "square", lambda e: finat.TensorProductElement([e["GLL3"], e["GL2"]]), ["GLL3", "GL2"]),
        E("FDM3xGL2", "square", lambda e: finat.TensorProductElement([e["FDM3"], e["GL2"]]), ["FDM3", "GL2"]),
        E("flat GLL3", QUAD, lambda e: finat.FlattenedDimensions(e["GLL3xGLL3"]), ["GLL3xGLL3"]),
        E("broken GLL3", LINE, lambda e: finat.DiscontinuousElement(e["GLL3"]), ["GLL3"]),
        E("quadrature", LINE, lambda e: finat.QuadratureElement(cell(LINE), e["line rule"]), kinds=["maps", "dual", "interp", "equiv"], order=0),
        E("quad quadrature", QUAD, lambda e: finat.QuadratureElement(cell(QUAD), e["quad rule"]), kinds=["maps", "dual", "interp", "equiv"], order=0)),
    "wedge": P(
        E("T1", TRI, lambda e: finat.Lagrange(cell(TRI), 1), order=2),
        E("N1", TRI, lambda e: finat.Nedelec(cell(TRI), 1)),
        E("I1", LINE, lambda e: finat.Lagrange(cell(LINE), 1), order=2),
        E("I0", LINE, lambda e: finat.DiscontinuousLagrange(cell(LINE), 0)),
        E("T1xI0", "wedge", lambda e: finat.TensorProductElement([e["T1"], e["I0"]]), ["T1", "I0"], kinds=NOPOINT),
        E("T1xI1", "wedge", lambda e: finat.TensorProductElement([e["T1"], e["I1"]]), ["T1", "I1"]),
        E("N1xI1", "wedge", lambda e: finat.TensorProductElement([e["N1"], e["I1"]]), ["N1", "I1"], kinds=NOPOINT),
        E("curl", "wedge", lambda e: finat.EnrichedElement([finat.HCurlElement(e["T1xI0"]), finat.HCurlElement(e["N1xI1"])]), ["T1xI0", "N1xI1"], kinds=NOPOINT),
        E("V(T1xI1)", "wedge", lambda e: finat.TensorFiniteElement(e["T1xI1"], (2,)), ["T1xI1"], kinds=NOPOINT)),
    "mapped": P(
        E("Hermite", TRI, lambda e: finat.Hermite(cell(TRI)), kinds=MAPPED, geo=True, order=2),
        E("Morley", TRI, lambda e: finat.Morley(cell(TRI)), kinds=MAPPED, geo=True),
        E("Bell", TRI, lambda e: finat.Bell(cell(TRI)), kinds=MAPPED, geo=True),
        E("HCT", TRI, lambda e: finat.ReducedHsiehCloughTocher(cell(TRI)), kinds=MAPPED, geo=True),
        E("MTW", TRI, lambda e: finat.MardalTaiWinther(cell(TRI)), kinds=MAPPED, geo=True),
        E("AWNC", TRI, lambda e: finat.ArnoldWintherNC(cell(TRI)), kinds=MAPPED, geo=True),
        E("BR", TRI, lambda e: finat.BernardiRaugel(cell(TRI)), kinds=MAPPED, geo=True),
        E("P1", TRI, lambda e: finat.Lagrange(cell(TRI), 1), kinds=MAPPED, geo=True),
        E("Hermite+B", TRI, lambda e: finat.EnrichedElement([e["Hermite"], e["Morley"]]), ["Hermite", "Morley"], kinds=MAPPED, geo=True, order=2),
        E("mixed mapped", TRI, lambda e: finat.MixedElement([e["MTW"], e["P1"], e["Bell"]]), ["MTW", "P1", "Bell"], kinds=MAPPED, geo=True),
        E("V(HCT)", TRI, lambda e: finat.TensorFiniteElement(e["HCT"], (2,)), ["HCT"], kinds=MAPPED, geo=True),
        E("mixed BR", TRI, lambda e: finat.MixedElement([e["BR"], e["AWNC"], e["Hermite+B"]]), ["BR", "AWNC", "Hermite+B"], kinds=MAPPED, geo=True)),
    "runtime": P(
        E("run1", LINE, lambda e: finat.RuntimeTabulated(cell(LINE), 2, variant="v"), kinds=["maps"]),
        E("run2", LINE, lambda e: finat.RuntimeTabulated(cell(LINE), 3, variant="w", continuous=False), kinds=["maps"]),
        E("run1xrun2", "square", lambda e: finat.TensorProductElement([e["run1"], e["run2"]]), ["run1", "run2"], kinds=["maps"]),
        E("run1xrun1", "square", lambda e: finat.TensorProductElement([e["run1"], e["run1"]]), ["run1"], kinds=["maps"])),
}


def make(pool):
    e = Made()
    e["line rule"] = make_quadrature(cell(LINE), 4)
    e["quad rule"] = make_quadrature(cell(QUAD), 3)
    for d in POOLS[pool]:
        e[d["name"]] = d["make"](e)
    return e


class World:
    """what is handed to the elements: shared by every question of a history"""

    def __init__(self, keep=True):
        self.keep = keep            # or else point sets are handed over and forgotten
        self.ps = {}
        self.geo = {}
        self.snap = {}

    def points(self, cellname, dims, k):
        key = (cellname, tuple(dims), k)
        if not self.keep:
            self.ps.clear()
        if key not in self.ps:
            rng = np.random.RandomState(1000 * k + 17 * len(dims) + sum(3**i * d for i, d in enumerate(dims)))

            def simplex(d, n):
                return PointSet(rng.dirichlet(np.ones(d + 1), size=n)[:, 1:] if d else np.zeros((1, 0)))
            if k == 3 and tuple(dims) == (1,):
                ps = GaussLobattoLegendrePointSet(np.asarray(FIAT.quadrature.GaussLobattoLegendreQuadratureLineRule(cell(LINE), 4).get_points()))
            elif cellname == QUAD and tuple(dims) == (2,) and k == 1:
                ps = TensorPointSet([simplex(1, 2), simplex(1, 3)])
            elif cellname == QUAD:
                ps = PointSet(rng.rand(3, sum(dims)) if sum(dims) else np.zeros((1, 0)))
            elif len(dims) == 1:
                ps = simplex(dims[0], 2 + k)
            elif k == 1:
                ps = TensorPointSet([simplex(d, 2 + i) for i, d in enumerate(dims)])
            elif k == 2:
                ps = PointSet(np.hstack([rng.dirichlet(np.ones(d + 1), size=3)[:, 1:] for d in dims]))
            else:
                q = np.asarray(FIAT.quadrature.GaussLobattoLegendreQuadratureLineRule(cell(LINE), 4).get_points())
                ps = TensorPointSet([GaussLobattoLegendrePointSet(q) if d == 1 else simplex(d, 2) for d in dims])
            self.ps[key] = ps
            self.snap[key] = snapshot(ps)
        return self.ps[key]

    def geometry(self, k):
        if k not in self.geo:
            v = {1: [(0.1, 0.0), (1.3, 0.2), (0.2, 0.9)], 2: [(1.0, 1.0), (0.0, 0.3), (0.9, -0.4)]}[k]
            self.geo[k] = Geometry(cell(TRI), v, h=[0.5 * k, 1.0, 2.0])
        return self.geo[k]

    def changed(self):
        for key, ps in self.ps.items():
            if snapshot(ps) != self.snap[key]:
                return "the point set %s" % (key,)
        for k, g in self.geo.items():
            f = World().geometry(k)
            if not (np.array_equal(g.verts, f.verts) and np.array_equal(g.h, f.h)):
                return "the geometry"
        return None


def snapshot(ps):
    pts = np.asarray(ps.points)
    return (type(ps).__name__, pts.shape, pts.tobytes(), tuple(i.extent for i in ps.indices),
            tuple(snapshot(f) for f in getattr(ps, "factors", ())))


def numbers(obj):
    """nested answers as comparable values: arrays at the leaves"""
    if isinstance(obj, dict):
        return {str(k): numbers(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [numbers(v) for v in obj]
    if isinstance(obj, np.ndarray):
        return obj
    if isinstance(obj, (int, float, np.integer, np.floating)):
        return float(obj)
    return str(obj)


def value(expr, free, bindings=None):
    r, = evaluate([expr], bindings=bindings)
    fids = list(r.fids)
    arr = np.asarray(r.arr, dtype=float)
    order = [fids.index(i) for i in free if i in fids]
    if len(order) != len(fids):
        raise AssertionError("free indices %s beyond those asked for" % (fids,))
    return arr.transpose(order + list(range(len(fids), arr.ndim))).copy()


def ask(pool, el, q, world):
    """The answer as numbers, and a way to read the returned expressions again later."""
    d = next(x for x in POOLS[pool] if x["name"] == q["name"])
    kind = q["kind"]
    held = None
    if kind == "eval":
        ps = world.points(d["cell"], q["d"], q["ps"])
        ent = (tuple(q["d"]) if len(q["d"]) > 1 else q["d"][0], q["e"])
        kw = dict(coordinate_mapping=world.geometry(q["geo"])) if d["geo"] and (q["name"] != "P1") else {}
        with plain() if kw else contextlib.nullcontext():
            res = el.basis_evaluation(q["order"], ps, ent, **kw)
        held = [(str(a), e, tuple(ps.indices), None) for a, e in sorted(res.items(), key=lambda t: str(t[0]))]
    elif kind == "point":
        n = sum(q["d"])
        if not n:
            X = gem.Literal(np.zeros(0))
            b = None
        else:
            X = gem.Variable("X", (n,))
            b = {X: np.linspace(0.15, 0.35, n)}
        ent = (tuple(q["d"]) if len(q["d"]) > 1 else q["d"][0], q["e"])
        res = el.point_evaluation(q["order"], X, ent)
        held = [(str(a), e, (), b) for a, e in sorted(res.items(), key=lambda t: str(t[0]))]
    elif kind == "maps":
        return numbers([el.entity_dofs(), el.entity_closure_dofs(), safe(lambda: el.entity_support_dofs()), el.index_shape, el.value_shape,
                        el.space_dimension(), safe(lambda: el.degree), safe(lambda: el.formdegree), safe(lambda: el.mapping)]), None
    elif kind == "perms":
        return numbers(el.entity_permutations), None
    elif kind == "dual":
        Q, ps = el.dual_basis
        held = [("Q", Q, tuple(ps.indices), None)]
        ans = value(*held[0][1:])
        return [np.asarray(ps.points, dtype=float).copy(), ans], held
    elif kind == "interp":
        nv = el.get_value_indices()

        def fn(ps):
            x = ps.expression
            i = gem.Index(extent=x.shape[0])
            s = gem.IndexSum(gem.Product(gem.Indexed(x, (i,)), gem.Indexed(x, (i,))), (i,))
            lit = gem.Literal(np.arange(1, 1 + int(np.prod(el.value_shape, dtype=int)), dtype=float).reshape(el.value_shape))
            return gem.ComponentTensor(gem.Product(s, gem.Indexed(lit, nv)), nv) if nv else gem.Sum(s, gem.Literal(2.0))
        expr, idx = el.dual_evaluation(fn)
        held = [("interp", expr, tuple(idx), None)]
    elif kind == "equiv":
        f = el.fiat_equivalent
        n = f.get_reference_element().get_spatial_dimension()
        rng = np.random.RandomState(5)
        if "quadrature" in q["name"]:
            pts = None
            return [float(f.space_dimension()), numbers(f.entity_dofs()), np.array([list(x.get_point_dict())[0] for x in f.dual_basis()])], None
        pts = rng.dirichlet(np.ones(n + 2), size=4)[:, 1:n + 1]
        t = f.tabulate(1, pts)
        return [float(f.space_dimension()), numbers(f.entity_dofs()), {str(a): np.array(v, dtype=float) for a, v in t.items()}], None
    return [(a, value(e, free, b)) for a, e, free, b in held], held


def safe(f):
    try:
        return f()
    except Hang:
        raise
    except Exception as x:
        return "raises " + type(x).__name__


def answer(pool, el, q, world):
    try:
        return ask(pool, el, q, world)
    except Hang:
        raise
    except Exception as x:
        return "raises %s" % type(x).__name__, None


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b if isinstance(a, str) and isinstance(b, str) else False
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b, rtol=1e-10, atol=1e-10 * max(1.0, np.abs(a).max() if a.size else 1),
                                                                                 equal_nan=True)
    return a == b


@functools.lru_cache(None)
def reference(pool, key):
    """the answer of elements built for this one question"""
    q = dict(zip(QKEYS, key))
    return answer(pool, make(pool)[q["name"]], q, World())[0]


QKEYS = ("name", "kind", "order", "d", "e", "ps", "geo")


def keyof(q):
    return tuple(tuple(q[k]) if k == "d" else q[k] for k in QKEYS)


def one(item, out):
    pool, hist, keep = item
    elems = make(pool)
    world = World(keep)
    out.count("traces")
    names = [d["name"] for d in POOLS[pool]]
    rules = {k: (np.array(elems[k].weights if not hasattr(elems[k], "factors") else [0]), np.array(elems[k].point_set.points)) for k in ("line rule", "quad rule")}
    held = []
    asked = []
    for q in hist:
        q = dict(q, name=names[q["el"] - 1])
        if not keep and q["kind"] == "eval" and pool != "mapped":
            for p in (1, 2, 3, 1, 2):         # other points, gone before the question that counts
                answer(pool, elems[q["name"]], dict(q, ps=p), world)
        got, h = answer(pool, elems[q["name"]], q, world)
        want = reference(pool, keyof(q))
        asked.append(keyof(q))
        out.count("evaluations")
        out.case([pool, q["name"], q["kind"], q["order"], q["d"], q["ps"]])
        if not same(got, want):
            out.fail("answer:%s:%s" % (pool, q["kind"]), "%s: %s of %s after %s is not what a new element answers" % (
                pool, asked[-1][1:], q["name"], asked[:-1]), history=asked, got=str(got)[:400], want=str(want)[:400])
            return
        if h is not None and not isinstance(got, str):
            held.append((q["name"], asked[-1], h, got))
    what = world.changed()
    if what:
        out.fail("argument:" + pool, "%s was changed by one of the questions %s" % (what, asked), history=asked)
    for k, (w, p) in rules.items():
        if not np.array_equal(p, np.array(elems[k].point_set.points)) or not hasattr(elems[k], "factors") and not np.array_equal(w, elems[k].weights):
            out.fail("rule:" + pool, "the %s was changed by one of the questions %s" % (k, asked), history=asked)
    for name, key, h, got in held:
        now = [value(e, free, b) for _, e, free, b in h]
        then = [v for _, v in got] if isinstance(got[0], tuple) else [got[1]]
        if not same(now, then):
            out.fail("held:" + pool, "the result of %s to %s changed its value after %s" % (name, key[1:], asked), history=asked)
    if len(out.samples) < 1:
        out.samples.append("%s: %s" % (pool, [a[:3] for a in asked]))


def run(ctx):
    todo = []

    def generate(k, pool, ds):
        idx = {d["name"]: i + 1 for i, d in enumerate(ds)}
        f = dict(depth={"mapped": 7, "runtime": 4}.get(pool, 9),
                 pool=[dict(cell=d["cell"], parts=[idx[p] for p in d["parts"]], kinds=d["kinds"], geo=d["geo"], order=d["order"]) for d in ds])
        n = {"runtime": 20, "mapped": 80}.get(pool, 160) * (15 if THOROUGH else 1)
        recs, _, ok = ctx.tlc("FinatHistory", env={"FINAT_FOCUS": ctx.jsonfile("history-%s.json" % pool, f)}, simulate=n, depth=6 * f["depth"],
                              workers=1, seed=SEED * 37 + k)
        if not recs:
            raise MachineryError("no history for pool %s" % pool)
        return [(pool, r, i % 3 != 2) for i, r in enumerate(recs)]
    with ThreadPoolExecutor(6) as ex:
        for part in ex.map(lambda t: generate(t[0], *t[1]), enumerate(sorted(POOLS.items()))):
            todo += part
    todo.sort(key=lambda t: t[0] != "mapped")
    ctx.pmap(one, todo, limit=300)


BOUNDS = "six pools of elements sharing parts, point sets, rules and geometries; histories of nine questions (seven for mapped elements), the first repeated last"
