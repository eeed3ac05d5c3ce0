"""H(div)/H(curl) wrappers place product functions in the right component and sign."""
import numpy as np
import foci
from attrs import check_attributes
from catalog import cell as fcell
from harness import THOROUGH
from replay import L, O, build, entity_points, expected, generate_many, geval, ops_of, plain, show
from tables import check_deep, check_tables, rng_for, sample


def facet_vectors(val, eidx):
    """(normal or None, tangents) of entity eidx in the coordinates of the product cell"""
    L0 = val["lay"][0]
    n = sum(s["d"] for s in L0["slots"])
    tang, norm = [], None
    from catalog import leaf
    normals = []
    for s, slot in enumerate(L0["slots"]):
        le = leaf(slot["l"])
        d, e = le.entities[L0["ent"][eidx][s]]
        verts = np.array(fcell(le.cellname).get_vertices_of_subcomplex(fcell(le.cellname).get_topology()[d][e]))
        T = verts[1:] - verts[0]
        if le.cellname in ("quadrilateral", "hexahedron"):
            T = np.array([t for t in T if np.count_nonzero(t) == 1])
        for t in T:
            v = np.zeros(n)
            v[slot["off"]:slot["off"] + slot["d"]] = t
            tang.append(v)
    if len(tang) == n - 1:
        u, s, vh = np.linalg.svd(np.array(tang).reshape(n - 1, n))
        norm = vh[-1]
    return norm, tang


def one(rec, out):
    t, val = rec["term"], rec["val"]
    if rec["rej"]:
        out.count("traces")
        out.case("reject " + show(t))
        out.count("evaluations")
        parts = [build(a) for a in t["args"]]
        import finat
        ctor = {"hdiv": finat.HDivElement, "hcurl": finat.HCurlElement}[t["op"]]
        try:
            ctor(*parts)
        except Exception as e:
            if "form degree" in rec["rej"] or "form" in rec["rej"]:
                if not isinstance(e, (ValueError, AssertionError)):
                    out.fail("reject-type", "%s: %s raised for '%s'" % (show(t), type(e).__name__, rec["rej"]), term=t)
            return
        out.fail("accepted:%s:%s" % (t["op"], rec["rej"]), "%s was accepted although: %s" % (show(t), rec["rej"]), term=t)
        return
    el = build(t)
    sig = ".".join(ops_of(t))
    out.count("traces")
    check_attributes(rec, el, out, sig)
    ne = len(val["ents"])
    rng = rng_for(rec)
    ents = range(ne) if ne <= 9 else sorted(set(rng.choice(ne, size=7, replace=False)) | {ne - 1})
    check_tables(rec, el, out, order=2 if val["cell"]["n"] < 3 else 1, kinds=("set", "tensor"), entities=ents)
    check_deep(rec, el, out)
    # traces: evaluated by the real code, judged against its own support query
    if t["op"] in ("hdiv", "hcurl"):
        from finat.point_set import PointSet
        sup = el.entity_support_dofs()
        from replay import real_entity
        for e in range(ne - 1):
            norm, tang = facet_vectors(val, e)
            dirs = ([norm] if norm is not None else []) if t["op"] == "hdiv" else tang
            if not len(dirs):
                continue
            ent = real_entity(val, e)
            pts = entity_points(val, e, 3, rng)
            ps = PointSet(pts)
            (tab,) = el.basis_evaluation(0, ps, entity=ent).values()
            arr = geval(tab, ps.indices).reshape(3, val["nd"], -1)
            out.count("evaluations")
            for v in dirs:
                tr = np.abs(arr @ v).max(axis=0)
                stray = [i for i in range(val["nd"]) if tr[i] > 1e-8 and i not in sup[ent[0]][ent[1]]]
                if stray:
                    out.fail("trace:" + sig, "%s: functions %s have a trace on %s without being supported there" % (
                        show(t), stray, ent), term=t)
    # dual basis: same placement
    if val["du"]:
        from duals import check_nodal
        check_nodal(el, out, show(t), sig, t)
    if len(out.samples) < 1:
        out.samples.append(show(t))


def run(ctx):
    fs = [foci.square(emit=["hdiv", "hcurl", "flat"], rejects=False),
          foci.wedge(ops=("hdiv", "hcurl")), foci.hexes(), foci.squaresums(emit=["flat"]),
          dict(leaves=["CG1I", "CG2I", "DG0I", "DG1I", "GLL2I", "GL2I"], ops=["tpe", "hdiv", "hcurl"], maxleaves=2,
               maxops=2, rejects=True, emit=["hdiv", "hcurl"]),
          dict(leaves=["CG1I", "DG1I", "CG1T", "DG1T", "RT1T", "N1C1T", "N2C1T", "BDM1T"], ops=["tpe", "hdiv", "hcurl"],
               maxleaves=2, maxops=2, rejects=True, emit=["hdiv", "hcurl"])]
    todo = []
    for f, recs in zip(fs, generate_many(ctx, fs)):
        recs = [r for r in recs if {"hdiv", "hcurl"} & set(ops_of(r["term"]))]
        todo += sample(recs, 10**6 if THOROUGH else 70, ctx.rng,
                       key=lambda r: (tuple(ops_of(r["term"])), r["rej"], str(r["val"].get("map")), str(r["val"].get("lay", [{}])[0].get("slots"))))
    ctx.pmap(one, todo)


BOUNDS = "every admissible and inadmissible factor pair of the foci; derivative order <= 3 (2 in three dimensions)"
