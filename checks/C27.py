"""Run-time tabulated elements name each table uniquely with the right shape."""
import itertools

import gem
import numpy as np
from catalog import cell
from gem.node import traversal
from harness import THOROUGH
from replay import all_alphas, close, geval

SIDE = {"": None, "+": "+", "-": "-"}


def make(cf):
    import finat
    return finat.RuntimeTabulated(cell("interval"), cf["d"], variant=cf["v"], shift_axes=cf["s"], restriction=SIDE[cf["r"]], continuous=cf["c"])


def variables(expr):
    return {n.name: n for n in traversal([expr]) if isinstance(n, gem.Variable)}


NAMES = {}


def history(recs, out):
    from finat.point_set import PointSet, PointSingleton, TensorPointSet
    for rec in recs:
        out.count("traces")
        names, of = {}, {}       # slot -> name, name -> slot in this behaviour
        label = [(r["cf"]["v"], r["cf"]["d"], r["cf"]["s"], r["cf"]["c"], r["cf"]["r"], r["o"]) for r in rec]
        out.case(label)
        for r in rec:
            cf = r["cf"]
            el = make(cf)
            if r["n"] == 0:
                ps = PointSingleton(np.array([0.25]))
            else:
                ps = PointSet(np.linspace(0.1, 0.9, r["n"]).reshape(-1, 1))
                if cf["d"] % 2:
                    ps = TensorPointSet([ps])
            if el.space_dimension() != r["nd"] or tuple(el.index_shape) != (r["nd"],) or el.value_shape != () or el.degree != cf["d"]:
                out.fail("dim", "%s: dimension %s" % (cf, el.space_dimension()), config=cf)
            if el.formdegree != r["fd"]:
                out.fail("formdegree", "%s: form degree %s" % (cf, el.formdegree), config=cf)
            for ent in (None, (1, 0)):
                res = el.basis_evaluation(r["o"], ps, entity=ent)
                if sorted(res) != [(k,) for k in range(r["o"] + 1)]:
                    out.fail("derivatives", "%s: %s for order %d" % (cf, sorted(res), r["o"]), config=cf)
                    return
                for k, slot in enumerate(r["use"]):
                    out.count("evaluations")
                    e = res[(k,)]
                    vs = variables(e)
                    if len(vs) != 1:
                        out.fail("variables", "%s: derivative %d uses %s" % (cf, k, sorted(vs)), config=cf)
                        return
                    (name, v), = vs.items()
                    if tuple(v.shape) != tuple(r["shape"]):
                        out.fail("shape", "%s: table of shape %s for %d points" % (cf, v.shape, r["n"]), config=cf)
                    if tuple(e.shape) != (r["nd"],) or set(e.free_indices) != set(ps.indices):
                        out.fail("shape", "%s: evaluation of shape %s over %s" % (cf, e.shape, e.free_indices), config=cf)
                    t = np.arange(np.prod(r["shape"]), dtype=float).reshape(r["shape"])
                    if not close(geval(e, ps.indices, bindings={v: t}), t):
                        out.fail("layout", "%s: not the table, point by function" % cf, config=cf)
                    if names.setdefault(slot, name) != name:
                        out.fail("unstable", "%s derivative %d is called %s and %s" % (cf, k, names[slot], name), history=label)
                        return
                    if of.setdefault(name, slot) != slot:
                        out.fail("collision", "%s names two different tables: %s" % (name, label), history=label)
                        return


def globally(cfs, out):
    """all configurations side by side"""
    from finat.point_set import PointSet
    ps = PointSet([[0.25], [0.5]])
    seen = {}
    for cf in cfs:
        for a, e in make(cf).basis_evaluation(11, ps).items():
            (name,) = variables(e)
            key = (cf["v"], cf["d"], a, cf["s"], cf["c"], cf["r"])
            out.count("evaluations")
            if seen.setdefault(name, key) != key:
                out.fail("collision", "%s names both %s and %s" % (name, seen[name], key))
                return
    out.case("all configurations: %d names" % len(seen))
    out.samples.append(sorted(seen)[:3])


def products(_, out):
    """a product with run-time tabulated factors is the product of the supplied tables"""
    import finat
    from finat.point_set import PointSet, TensorPointSet
    I = cell("interval")
    rng = np.random.RandomState(3)
    rt = lambda d, s, c=True, v="default", r=None: finat.RuntimeTabulated(I, d, variant=v, shift_axes=s, continuous=c, restriction=r)
    for facs, flat in itertools.product((
            [rt(1, 0), rt(2, 1)], [rt(2, 0, False), finat.Lagrange(I, 1)], [finat.DiscontinuousLagrange(I, 0), rt(1, 1, False, r="+")],
            [rt(1, 0), rt(1, 1), rt(2, 2, False)], [rt(2, 1), finat.RaviartThomas(cell("triangle"), 1)]), (False, True)):
        n = len(facs)
        if flat and any(f.cell.get_spatial_dimension() > 1 for f in facs):
            continue
        el = finat.TensorProductElement(facs)
        name = "x".join(type(f).__name__ for f in facs) + (" flattened" if flat else "")
        if flat:
            el = finat.FlattenedDimensions(el)
        out.count("traces")
        out.case(name)
        if el.formdegree != sum(f.formdegree for f in facs) or el.space_dimension() != np.prod([f.space_dimension() for f in facs]):
            out.fail("product", "%s: form degree %s, dimension %s" % (name, el.formdegree, el.space_dimension()))
        dims = [f.cell.get_spatial_dimension() for f in facs]
        sets = [PointSet(rng.rand(k + 2, d) / (d + 1)) for k, d in enumerate(dims)]
        ps = TensorPointSet(sets)
        res = el.basis_evaluation(2, ps)
        sub = [f.basis_evaluation(2, s) for f, s in zip(facs, sets)]
        bind = {v: rng.rand(*v.shape) for t in sub for e in t.values() for v in variables(e).values()}
        if set(res) != set(all_alphas(sum(dims), 2)):
            out.fail("product", "%s: derivatives %s" % (name, sorted(res)))
            continue
        for a, e in res.items():
            got = geval(e, ps.indices, bindings=bind)
            w, pos = None, 0
            for f, s, t, d in zip(facs, sets, sub, dims):
                x = geval(t[tuple(a[pos:pos + d])], s.indices, bindings=bind)      # points, function(, value)
                pos += d
                w = x if w is None else np.multiply.outer(w, x)
            # points first, then functions, then the value
            order, axis, pt, fn, vs = [], 0, [], [], []
            for f in facs:
                pt.append(axis)
                fn.append(axis + 1)
                vs += list(range(axis + 2, axis + 2 + len(f.value_shape)))
                axis += 2 + len(f.value_shape)
            w = w.transpose(pt + fn + vs)
            out.count("evaluations")
            if not close(got, w):
                out.fail("product", "%s: derivative %s is not the product of the factor tables" % (name, a))
                break
        unfactored(el, facs, dims, name, rng, out)


def unfactored(el, facs, dims, name, rng, out):
    """points without structure, and a lone point: every factor's table is over the common point index"""
    from finat.point_set import PointSet, PointSingleton
    x = rng.rand(4, sum(dims)) / (max(dims) + 1)
    for what, ps in (("unstructured points", PointSet(x)), ("a lone point", PointSingleton(x[0]))):
        res = el.basis_evaluation(1, ps)
        bind = {v: rng.rand(*v.shape) for e in res.values() for v in variables(e).values()}
        named = {v.name: t for v, t in bind.items()}
        n = () if what == "a lone point" else (4,)
        for a, e in res.items():
            out.count("evaluations")
            w, pos, fn, vs = np.ones(n + (1,) * 0), 0, [], []
            for f, d in zip(facs, dims):
                sub = PointSet(x[:, pos:pos + d]) if n else PointSingleton(x[0, pos:pos + d])
                t = f.basis_evaluation(1, sub)[tuple(a[pos:pos + d])]
                pos += d
                try:
                    t = geval(t, sub.indices, bindings={v: named[k] for k, v in variables(t).items()})
                except KeyError:
                    out.fail("product", "%s at %s does not use the tables of its factors" % (name, what))
                    return
                if t.shape[:len(n)] != n:
                    t = np.broadcast_to(t, n + t.shape)
                nf = len(f.index_shape)
                base = w.ndim
                if n:
                    w = np.array([np.multiply.outer(w[q], t[q]) for q in range(n[0])])
                else:
                    w = np.multiply.outer(w, t)
                fn += list(range(base, base + nf))
                vs += list(range(base + nf, base + nf + len(f.value_shape)))
            w = w.transpose(list(range(len(n))) + fn + vs)
            if not close(geval(e, ps.indices, bindings=bind), w):
                out.fail("product", "%s at %s: derivative %s is not the product of the factor tables" % (name, what, a))
                return


def refusals(_, out):
    import finat
    for cn in ("triangle", "tetrahedron", "quadrilateral", "hexahedron"):
        out.count("evaluations")
        out.case("refuses " + cn)
        try:
            finat.RuntimeTabulated(cell(cn), 1, variant="default")
        except Exception:
            continue
        out.fail("refuse", "a run-time tabulated element was made on a %s" % cn)
    from FIAT.reference_element import TensorProductCell
    I = cell("interval")
    good = dict(variant="default", shift_axes=0, restriction=None, continuous=True)
    for k, v in (("variant", None), ("variant", 3), ("shift_axes", -1), ("shift_axes", 0.5), ("restriction", "p"), ("restriction", "*"), ("continuous", "yes"), ("continuous", 1)):
        out.count("evaluations")
        try:
            finat.RuntimeTabulated(I, 1, **dict(good, **{k: v}))
        except Exception:
            continue
        out.fail("refuse", "%s=%r was accepted" % (k, v))
    try:
        finat.RuntimeTabulated(TensorProductCell(I, I), 1, **good)
        out.fail("refuse", "a run-time tabulated element was made on a product cell")
    except Exception:
        pass
    el = finat.RuntimeTabulated(I, 2, **good)
    for what, f in (("point evaluation", lambda: el.point_evaluation(0, gem.Variable("x", (1,)))), ("entity dofs", el.entity_dofs)):
        try:
            r = f()
        except Exception:
            continue
        out.fail("refuse", "%s answered %r" % (what, r))


def run(ctx):
    f = dict(variants=["a", "a_1", "default"], degrees=[1, 2, 11], shifts=[0, 1], npts=[0, 3], orders=[1], steps=2, cells=["interval"])
    big = dict(f, variants=["", "a", "a_1", "a_1_1", "1", "default", "rt", "c"], degrees=[0, 1, 2, 10, 11], shifts=[0, 1, 10, 11], npts=[0, 1, 3],
               orders=[0, 1, 2, 11], steps=5)
    recs, _, _ = ctx.tlc("FinatRuntime", env={"FINAT_FOCUS": ctx.jsonfile("f.json", f)})
    sim, _, _ = ctx.tlc("FinatRuntime", env={"FINAT_FOCUS": ctx.jsonfile("b.json", big)}, simulate=1000 if THOROUGH else 60, depth=8, workers=1)
    recs += sim
    ctx.pmap(history, [recs[i::64] for i in range(64)])
    cfs = [dict(v=v, d=d, s=s, c=c, r=r) for v in big["variants"] for d in big["degrees"] for s in big["shifts"] for c in (True, False) for r in SIDE]
    ctx.direct(globally, cfs)
    ctx.direct(products)
    ctx.direct(refusals)


BOUNDS = "all pairs of near configurations (3 variants, 3 degrees, 2 shifts, continuity, side), simulated histories of five requests, 960 configurations side by side"
