"""Ill-formed constructions and queries are rejected, never silently answered."""
import foci
import gem
import numpy as np
from catalog import cell
from gem.interpreter import evaluate
from harness import THOROUGH
from replay import O, build, generate_many, ops_of, show
from tables import sample
from zoo import TRI, Geometry, QuadGeometry

PROD = {"square": ("interval", "interval"), "wedge": ("triangle", "interval"), "cube": ("interval",) * 3}


def acell(name):
    from FIAT.reference_element import TensorProductCell
    if name in PROD:
        return TensorProductCell(*[cell(c) for c in PROD[name]])
    return cell(name)


def elements():
    import finat
    from finat.quadrature import make_quadrature
    from finat.quadrature_element import QuadratureElement
    I, T, K, Q = map(cell, ("interval", "triangle", "tetrahedron", "quadrilateral"))
    cg, tp = finat.Lagrange, finat.TensorProductElement
    sq = lambda: tp([cg(I, 1), cg(I, 2)])
    quadcell = lambda: finat.FlattenedDimensions(tp([cg(I, 1), cg(I, 1)]))
    E = [("Lagrange", "triangle", lambda: cg(T, 2)), ("RaviartThomas", "triangle", lambda: finat.RaviartThomas(T, 1)),
         ("Lagrange", "tetrahedron", lambda: cg(K, 1)), ("Nedelec", "tetrahedron", lambda: finat.Nedelec(K, 1)),
         ("Lagrange", "interval", lambda: cg(I, 2)), ("GLL", "interval", lambda: finat.GaussLobattoLegendre(I, 2)),
         ("GL", "interval", lambda: finat.GaussLegendre(I, 1)), ("Regge", "triangle", lambda: finat.Regge(T, 1)),
         ("Serendipity", "quadrilateral", lambda: finat.Serendipity(Q, 2)), ("DPC", "quadrilateral", lambda: finat.DPC(Q, 1)),
         ("TSE", "quadrilateral", lambda: finat.TrimmedSerendipityEdge(Q, 1)), ("BDMCF", "quadrilateral", lambda: finat.BrezziDouglasMariniCubeFace(Q, 1)),
         ("tpe", "square", sq), ("flat", "quadrilateral", lambda: finat.FlattenedDimensions(sq())),
         ("wedge", "wedge", lambda: tp([cg(T, 1), cg(I, 1)])), ("wedgeRT", "wedge", lambda: finat.HDivElement(tp([finat.RaviartThomas(T, 1), finat.DiscontinuousLagrange(I, 0)]))),
         ("hdiv", "square", lambda: finat.HDivElement(tp([cg(I, 1), finat.DiscontinuousLagrange(I, 0)]))),
         ("hcurl", "square", lambda: finat.HCurlElement(tp([cg(I, 1), finat.DiscontinuousLagrange(I, 0)]))),
         ("RTCF", "quadrilateral", lambda: build(foci.RTCF1)),
         ("enr", "triangle", lambda: finat.EnrichedElement([cg(T, 1), finat.Bubble(T, 3)])),
         ("mix", "triangle", lambda: finat.MixedElement([cg(T, 1), finat.RaviartThomas(T, 1)])),
         ("tfe", "triangle", lambda: finat.TensorFiniteElement(cg(T, 1), (2, 2))),
         ("tfetp", "square", lambda: finat.TensorFiniteElement(sq(), (2,), transpose=True)),
         ("brk", "triangle", lambda: finat.DiscontinuousElement(cg(T, 1))),
         ("restr", "triangle", lambda: finat.RestrictedElement(cg(T, 3), "interior")),
         ("cube", "cube", lambda: tp([cg(I, 1), cg(I, 2), cg(I, 1)])),
         ("hex", "hexahedron", lambda: finat.FlattenedDimensions(tp([cg(I, 1)] * 3))),
         ("hex2", "hexahedron", lambda: finat.FlattenedDimensions(tp([quadcell(), cg(I, 1)]))),
         ("trace", "triangle", lambda: finat.HDivTrace(T, 1)),
         ("Hermite", "triangle", lambda: finat.Hermite(T)), ("Morley", "triangle", lambda: finat.Morley(T)), ("HCT", "triangle", lambda: finat.HsiehCloughTocher(T, 3)),
         ("MTW", "triangle", lambda: finat.MardalTaiWinther(T)), ("JM", "triangle", lambda: finat.JohnsonMercier(T)), ("HZ", "triangle", lambda: finat.HuZhang(T, 3)),
         ("BR", "triangle", lambda: finat.BernardiRaugel(T)), ("enrmapped", "triangle", lambda: finat.EnrichedElement([finat.Hermite(T), finat.Bubble(T, 3)])),
         ("mixmapped", "triangle", lambda: finat.MixedElement([cg(T, 1), finat.Morley(T)])),
         ("tfemapped", "triangle", lambda: finat.TensorFiniteElement(finat.Morley(T), (2,))),
         ("brkmapped", "triangle", lambda: finat.DiscontinuousElement(finat.Bell(T))),
         ("DS", "quadrilateral", lambda: finat.DirectSerendipity(Q, 2))]
    return E


MAPPED = {"Hermite", "Morley", "HCT", "MTW", "JM", "HZ", "BR", "enrmapped", "mixmapped", "tfemapped", "brkmapped", "DS"}
SYMBOLIC = {"TSE", "BDMCF"}     # FIAT does not tabulate these symbolically on entities
MACRO = {"HCT", "JM"}


def refused(f):
    """did the call raise, or answer with a failure or nothing but NaN?"""
    try:
        r = f()
        if isinstance(r, dict):
            vals = []
            for e in r.values():
                if any(isinstance(n, gem.Failure) for n in gem.node.traversal([e])):
                    return True, "failure"
                if any(isinstance(n, gem.Variable) for n in gem.node.traversal([e])):
                    vals.append(np.ones(1))
                    continue
                v, = evaluate([e])
                vals.append(np.asarray(v.arr, dtype=float))
            if vals and all(np.isnan(v).all() for v in vals if v.size):
                return True, "nan"
        return False, r
    except Exception as x:
        return True, x


ELEMENTS, CACHE = [], {}


def geometry(name, c):
    if name == "DS":
        return QuadGeometry([(0, 0), (0.1, 1.1), (1, 0), (1.2, 1.3)])
    return Geometry(cell(c), TRI, h=[1, 2, 3])


def one(req, out):
    import finat
    from finat.point_set import PointSet, PointSingleton, TensorPointSet
    k = req["kind"]
    out.count("traces")
    out.count("evaluations")
    want_ok = req["ok"]
    if k == "make":
        name = "%s(%s,%d)" % (req["f"], req["c"], req["d"])

        def call():
            el = getattr(finat, req["f"])(acell(req["c"]), req["d"])
            el.space_dimension(), el.index_shape, el.value_shape
            if req["f"] == "DirectSerendipity" and req["d"] < 5:
                from finat.point_set import PointSet
                el.basis_evaluation(0, PointSet([[0.2, 0.3]]), coordinate_mapping=geometry("DS", "quadrilateral"))
            return el
        key = "make:%s:%s" % (req["f"], req["c"])
    elif k == "quad":
        from finat.quadrature import make_quadrature
        from finat.quadrature_element import QuadratureElement
        name = "quadrature element on %s with a rule for %s" % (req["c"], req["rule"])
        rule = {"none": None, "points": PointSet([[0.5]]), "element": finat.Lagrange(cell("interval"), 1)}.get(req["rule"])
        if rule is None and req["rule"] != "none":
            rule = make_quadrature(acell(req["rule"]), 2)

        def call():
            el = QuadratureElement(acell(req["c"]), rule)
            return el.basis_evaluation(0, el.dual_basis[1])
        key = "quad:%s:%s" % (req["c"], req["rule"])
    else:
        ename, cname, mk = ELEMENTS[req["el"]]
        if req["el"] not in CACHE:
            CACHE[req["el"]] = mk()
        el = CACHE[req["el"]]
        c = acell(cname)
        ent = None
        if not req["none"]:
            d = tuple(req["d"])
            ent = (d if cname in PROD or len(d) > 1 else d[0], req["e"])
        pd = req["pd"]
        pts = (0.07 + 0.05 * np.arange(3 * pd).reshape(3, pd)) / max(1, pd)
        if k == "eval":
            if req["shape"] == "set":
                ps = PointSet(pts)
            elif req["shape"] == "single":
                ps = PointSingleton(pts[0])
            else:
                if cname == "wedge" and pd == 3:
                    ps = TensorPointSet([PointSet(pts[:, :2]), PointSet(pts[:2, 2:])])
                else:
                    ps = TensorPointSet([PointSet(pts[:2, i:i + 1]) for i in range(pd)])
            if req["shape"] == "tensor" and want_ok and (ent is not None and (cname in PROD or ename == "hex2")
                                                         or cname == "wedge" and pd != 3):
                return      # whether the factors of the points match the element's is C02's subject
            kw = {}
            if ename in MAPPED and req["geo"]:
                kw["coordinate_mapping"] = geometry(ename, cname)
                if ename == "DS" and not want_ok:
                    return      # the geometry, not the element, sees these points
            call = lambda: el.basis_evaluation(0 if ename == "trace" or ename in MACRO else 1, ps, entity=ent, **kw)
        else:
            X = {"vector": gem.Variable("X", (pd,)), "scalar": gem.Variable("X", ()), "matrix": gem.Variable("X", (pd, 1)),
                 "number": np.full(pd, 0.25)}[req["shape"]]
            call = lambda: el.point_evaluation(0, X, entity=ent)
        name = "%s on %s: %s on entity %s with %s of %d coordinates%s" % (
            ename, cname, k, ent, req["shape"], pd, "" if req["geo"] else ", without geometry")
        if want_ok and k == "eval" and ename in MACRO | {"brkmapped", "tfemapped", "mixmapped", "enrmapped"} and ent is not None and ent[0] != 2:
            return
        if want_ok and k == "point" and ename in SYMBOLIC:
            return
        key = "%s:%s:%s%s" % (k, ename, req["shape"], ":nogeo" if not req["geo"] else "")
    out.case(name)
    no, why = refused(call)
    if want_ok and no:
        out.fail("refused:" + key, "%s was refused: %r" % (name, why), request=req)
    if not want_ok and not no:
        out.fail("answered:" + key, "%s was answered: %.200r" % (name, why), request=req)


def point_ok(name):
    """elements offering symbolic point evaluation"""
    return name not in MAPPED | {"trace"}


def program(rec, out):
    t = rec["term"]
    name = show(t)
    out.count("traces")
    out.count("evaluations")
    out.case(name)

    def call():
        from finat.point_set import PointSet
        el = build(t)
        el.index_shape, el.value_shape
        return el.basis_evaluation(1, PointSet(np.full((2, el.cell.get_spatial_dimension()), 0.3)))
    no, why = refused(call)
    if rec["rej"] and not no:
        out.fail("program:%s:%s" % (rec["last"], rec["rej"]), "%s (%s) was accepted" % (name, rec["rej"]), term=t)
    if not rec["rej"] and no:
        out.fail("program:refused:" + ".".join(ops_of(t)), "%s is well formed but raised %r" % (name, why), term=t)


def histories(_, out):
    """a refused request leaves elements answering as before"""
    import finat
    from finat.point_set import PointSet, TensorPointSet
    for ename, cname, mk in elements():
        if ename == "trace":
            continue
        c = acell(cname)
        n = c.get_spatial_dimension()
        kw = dict(coordinate_mapping=geometry(ename, cname)) if ename in MAPPED else {}
        ps = PointSet(np.full((2, n), 0.21))
        el, other = mk(), mk()
        for bad in (lambda: el.basis_evaluation(1, PointSet(np.full((2, n + 1), 0.2)), **kw), lambda: el.basis_evaluation(1, ps, entity=(n, 7), **kw),
                    lambda: el.basis_evaluation(1, ps), lambda: el.point_evaluation(0, gem.Variable("X", ()))):
            try:
                bad()
            except Exception:
                pass
        a, b = el.basis_evaluation(1, ps, **kw), other.basis_evaluation(1, ps, **kw)
        out.count("evaluations")
        for k in b:
            va, vb = evaluate([a[k]])[0].arr, evaluate([b[k]])[0].arr
            if not np.array_equal(va, vb):
                out.fail("history:" + ename, "%s answers differently after a refused request" % ename)
                break


def run(ctx):
    ELEMENTS[:] = elements()
    els = [dict(name=n, cell=c, geo=n in MAPPED, point=point_ok(n), only="facet" if n == "trace" else "cell" if n == "DSx" else "any")
           for n, c, _ in elements()]
    recs, _, _ = ctx.tlc("FinatRequests", env={"FINAT_FOCUS": ctx.jsonfile("focus.json", dict(elements=els))}, workers=6)
    for r in recs:
        if "el" in r:
            r["el"] -= 1
    recs.sort(key=lambda r: str(sorted(r.items())))
    make = [r for r in recs if r["kind"] in ("make", "quad")]
    # runs of the same element and shape, one of each class first
    rest = [r for r in recs if r["kind"] in ("eval", "point")]
    if not THOROUGH:
        groups = {}
        for r in rest:
            groups.setdefault((r["kind"], r["el"], r["shape"], r["geo"], r["ok"], r["none"], len(r["d"]), r["pd"]), []).append(r)
        rest = []
        for g in groups.values():
            ctx.rng.shuffle(g)
            rest += g[:3]
    ctx.pmap(one, make + rest)
    fs = [foci.simplex(rejects=True, ops=["enr", "mix", "tpe", "hdiv", "hcurl"]),
          foci.lines(rejects=True, ops=("tpe", "flat", "enr", "hdiv", "hcurl", "mix")), foci.square(rejects=True, maxstack=2, maxleaves=4, ops=("hdiv", "hcurl", "flat", "enr")),
          foci.wedge(rejects=True, ops=("hdiv", "hcurl", "tpe")), foci.hexes(rejects=True, ops=("hdiv", "hcurl")),
          dict(leaves=["CG1I", "CG1T", "RT1T", "DG0I", "CG1K", "DPC1Q", "REG0T", "RT1K"], ops=["tpe", "enr", "mix", "hdiv", "hcurl"], maxleaves=3, maxops=2,
               sumk=[2, 3], tpek=[2, 3], rejects=True)]
    progs = []
    for rs in generate_many(ctx, fs):
        # flattening states no contract on what it is given
        bad = [r for r in rs if r["rej"] and r["last"] != "flat" and r["rej"] != "bad part"]
        progs += sample(bad, 10**6 if THOROUGH else 250, ctx.rng, key=lambda r: (r["last"], r["rej"]))
        progs += sample([r for r in rs if not r["rej"]], 300 if THOROUGH else 30, ctx.rng)
    ctx.pmap(program, progs)
    ctx.direct(histories)


BOUNDS = "every request over 42 elements with entity dimensions -1..4, numbers -1..40 and 0 to 4 coordinates (grouped and sampled in the quick tier); mapped families x cells x degrees -1..7; rejected programs of up to three constructors"
