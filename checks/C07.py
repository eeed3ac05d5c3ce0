"""Restriction keeps exactly the basis functions of the selected entities."""
import traceback

import numpy as np
import foci
from catalog import leaf
from harness import THOROUGH
from replay import (L, O, TF, build, by_entity, close, entity_points, expected, finat_table, generate_many, leaves_of,
                    ops_of, plain, real_entity, show)
from tables import rng_for, sample

DOMS = {1: ["interior", "vertex", "edge", "facet"], 2: ["interior", "vertex", "edge", "face", "facet"],
        3: ["interior", "vertex", "edge", "face", "facet"]}


def supported(t):
    return all(leaf(l).restrictable for l in leaves_of(t))


def one(item, out):
    from finat.point_set import PointSet
    import finat
    rec, nested = item
    t, val = rec["term"], rec["val"]
    el = build(t)
    sig = ".".join(ops_of(t)) or "leaf"
    n = val["cell"]["n"]
    out.count("traces")
    rng = rng_for(rec)
    ne = len(val["ents"])
    ents = list(range(ne)) if ne <= 9 else sorted(set(rng.choice(ne, size=5, replace=False)) | {ne - 1})
    order = 2 if n < 3 else 1
    pts = {e: entity_points(val, e, 2, rng) for e in ents}
    want = {e: expected(val, order, e, pts[e]) for e in ents}
    for k in val["kept"]:
        doms = k["doms"]
        if any(d not in DOMS[n] for d in doms) or (len(doms) > 1) != nested:
            continue
        name = "%s restricted to %s" % (show(t), "/".join(doms))
        key = "%s:%s" % (sig, "/".join(doms))
        out.case(name)
        out.count("evaluations")
        empty = not any(k["ent"])
        r = el
        try:
            for d in doms:
                r = finat.RestrictedElement(r, d)
        except RecursionError as e:
            # FIAT (trusted) cannot restrict its own restricted elements
            if nested and traceback.extract_tb(e.__traceback__)[-1].filename.find("/FIAT/") >= 0:
                out.count("fiat_unsupported")
                continue
            raise
        except ValueError as e:
            if not empty:
                out.fail("empty:" + key, "%s raised ValueError(%s) but functions remain" % (name, e), term=t, doms=doms)
            continue
        if empty:
            out.fail("notempty:" + key, "%s returned %r instead of raising ValueError" % (name, type(r).__name__),
                     term=t, doms=doms)
            continue
        if not hasattr(r, "basis_evaluation"):
            out.fail("notelement:" + key, "%s returned %r" % (name, r), term=t, doms=doms)
            continue
        if tuple(r.value_shape) != tuple(val["vsh"]):
            out.fail("valueshape:" + key, "%s has value shape %s instead of %s" % (name, r.value_shape, val["vsh"]),
                     term=t, doms=doms)
            continue
        ed = r.entity_dofs()
        try:
            got_ent = [[int(x) for x in v] for v in by_entity(val, ed)]
        except KeyError as e:
            out.fail("entities:" + key, "%s has no entity %s" % (name, e), term=t, doms=doms)
            continue
        if [len(x) for x in got_ent] != [len(x) for x in k["ent"]]:
            out.fail("count:" + key, "%s keeps %s functions per entity instead of %s" % (
                name, [len(x) for x in got_ent], [len(x) for x in k["ent"]]), term=t, doms=doms)
            continue
        total = sum(len(x) for x in k["ent"])
        if int(r.space_dimension()) != total or sorted(sum(got_ent, [])) != list(range(total)):
            out.fail("dim:" + key, "%s has dimension %d, numbering %s" % (name, r.space_dimension(), got_ent), term=t)
            continue
        tens = t["op"] == "tfe"
        if tens:
            # a restricted tensor-valued element keeps its layout
            shp, ish = tuple(t["shape"]), tuple(r.index_shape)
            if len(ish) <= len(shp) or (ish[:len(shp)] if t["tr"] else ish[len(ish) - len(shp):]) != shp:
                out.fail("layout:" + key, "%s has index shape %s, which does not keep the components %s %s" % (
                    name, ish, shp, "first" if t["tr"] else "last"), term=t, doms=doms)
                continue
            nc = int(np.prod(shp))

            def component(d, nd):
                return d // (nd // nc) if t["tr"] else d % nc
        # what is attached to each entity is the same functions
        gots = []
        for e in ents:
            ps = PointSet(pts[e])
            gots.append(finat_table(r.basis_evaluation(order, ps, entity=real_entity(val, e)), ps, r))
            out.count("evaluations", len(gots[-1]))
        alphas = sorted(want[ents[-1]])
        if any(sorted(g) != alphas for g in gots):
            out.fail("alphas:" + key, "%s: wrong derivative set" % name, term=t, doms=doms)
            continue
        G = np.concatenate([g[a].transpose(1, 0, 2).reshape(total, -1)
                            for g in gots for a in alphas], axis=1)
        W = np.concatenate([want[e][a].transpose(1, 0, 2).reshape(val["nd"], -1) for e in ents for a in alphas], axis=1)
        scale = max(1.0, np.abs(W).max())
        for i in range(ne):
            free = list(k["ent"][i])
            for d in got_ent[i]:
                m = [w for w in free if np.all(np.abs(W[w] - G[d]) <= 1e-7 * scale)]
                if m and tens and component(m[0], val["nd"]) != component(d, total):
                    out.fail("component:" + key, "%s: function %d is component %d, numbered as component %d" % (
                        name, d, component(m[0], val["nd"]), component(d, total)), term=t, doms=doms)
                    break
                if not m:
                    out.fail("changed:" + key, "%s: function %d on entity %s is none of the original functions %s there" % (
                        name, d, val["ents"][i], k["ent"][i]), term=t, doms=doms)
                    break
                free.remove(m[0])
            else:
                continue
            break
    if len(out.samples) < 1:
        out.samples.append({"program": show(t), "kept": val["kept"][:1]})


def unsupported(_, out):
    """Elements that cannot be restricted say so."""
    import finat
    import gem
    from catalog import cell
    from finat.quadrature_element import make_quadrature_element
    T, Q, I = cell("triangle"), cell("quadrilateral"), cell("interval")
    cases = {"Hermite": finat.Hermite(T), "Morley": finat.Morley(T), "Argyris": finat.Argyris(T, 5),
             "MardalTaiWinther": finat.MardalTaiWinther(T), "BernardiRaugel": finat.BernardiRaugel(T),
             "DirectSerendipity": finat.DirectSerendipity(Q, 2),
             "QuadratureElement": make_quadrature_element(T, 2),
             "RuntimeTabulated": finat.RuntimeTabulated(I, 2, variant="x"),
             "enriched(Hermite,Bubble)": finat.EnrichedElement([finat.Hermite(T), finat.Bubble(T, 3)]),
             "tensor(Hermite)": finat.TensorFiniteElement(finat.Hermite(T), (2,)),
             "tensor(Quadrature)": finat.TensorFiniteElement(make_quadrature_element(T, 2), (2,)),
             "mixed(DirectSerendipity)": finat.MixedElement([finat.DirectSerendipity(Q, 2), finat.DirectSerendipity(Q, 1)])}
    for name, el in cases.items():
        for dom in ("interior", "facet", "vertex"):
            out.count("evaluations")
            out.case("unsupported %s %s" % (name, dom))
            try:
                r = finat.RestrictedElement(el, dom)
            except NotImplementedError:
                continue
            except Exception as e:
                continue
            out.fail("unsupported:" + name, "restricting %s to %s returned %r instead of raising an error" % (name, dom, r))
            break
    for bad in ("bogus", None):
        out.count("evaluations")
        for name, el in (("CG2T", finat.Lagrange(T, 2)), ("Q2", build(foci.Q2))):
            try:
                r = finat.RestrictedElement(el, bad)
            except Exception:
                continue
            out.fail("baddomain:%s" % bad, "restricting %s to %r returned %r" % (name, bad, r))


LEAVES = ["CG1T", "CG2T", "CG3T", "CG4T", "DG1T", "DG0T", "RT1T", "RT2T", "N1C2T", "N2C1T", "BDM2T", "CR1T", "BUB3T",
          "BERN3T", "CG1I", "CG3I", "DG1I", "GLL3I", "GL2I", "ILEG3I", "LEG2I", "FDML3I", "CG3K", "CG4K", "DG1K", "RT2K",
          "N1C2K", "CGe3T", "REG1T", "HHJ1T", "KMV3T"]


def run(ctx):
    doms = [[d] for d in ("interior", "vertex", "edge", "face", "facet")]
    two = [["facet", "vertex"], ["facet", "interior"], ["edge", "vertex"], ["facet", "edge"], ["facet", "facet"],
           ["interior", "interior"]]
    fs = [dict(leaves=LEAVES, ops=["brk", "tfe"], shapes=[[2]], maxleaves=1, maxops=1, maxnd=80),
          foci.simplex(leaves=["CG1T", "CG2T", "DG1T", "RT1T", "N1C2T", "BUB3T", "CG3T"]), foci.tets(),
          foci.lines(), foci.square(ops=("hdiv", "hcurl", "flat", "brk", "tfe")), foci.squaresums(), foci.flatsums(),
          foci.wedge(), foci.wedgesums(), foci.hexes(), foci.hexsums(), foci.shapes(),
          dict(terms=[O("tpe", "CG3I", "CG2I"), O("tpe", "CG3I", "CG3I"), O("tpe", "CG3T", "CG2I"), O("tpe", "CG2I", "CG2I", "CG2I"),
                      O("tpe", foci.Q2, "CG2I"), O("tpe", "CG2T", "CG3I"), O("tpe", "CG3I", "GL2I"), O("tpe", "N1C2T", "CG2I")],
               ops=["flat", "tfe", "hcurl", "hdiv"], shapes=[[2]], maxleaves=3, maxops=2, maxstack=1, maxnd=80)]
    todo = []
    recs_all = generate_many(ctx, [dict(f, doms=doms + two) for f in fs])
    for f, recs in zip(fs, recs_all):
        recs = [r for r in recs if supported(r["term"])]
        s = sample(recs, 10**6 if THOROUGH else 45, ctx.rng)
        todo += [(r, False) for r in s] + [(r, True) for r in (s if THOROUGH else s[::4])]
    ctx.pmap(one, todo)
    ctx.direct(unsupported)


BOUNDS = "every domain and every pair of successive domains over the programs of the foci; derivative order <= 2"
