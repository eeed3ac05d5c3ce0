"""The UFL registry resolves names, checks cells and degrees, reports spaces."""
import warnings

import numpy as np

PRODUCTS = {"interval*interval": ("interval", "interval"), "triangle*interval": ("triangle", "interval"),
            "quadrilateral*interval": ("quadrilateral", "interval")}
CELLS = [dict(n="none", d=0)] + [dict(n=n, d=d) for n, d in (
    ("vertex", 0), ("interval", 1), ("triangle", 2), ("tetrahedron", 3), ("pentatope", 4), ("quadrilateral", 2),
    ("hexahedron", 3), ("tesseract", 4), ("prism", 3), ("pyramid", 3))]


def ask(req, out):
    import ufl
    from finat.ufl import FiniteElement
    from finat.ufl.elementlist import canonical_element_description
    warnings.simplefilter("ignore")
    cn, want = req["cell"]["n"], req["want"]
    k = None if req["k"] == -99 else req["k"]
    order = tuple(req["o"]) if req["tuple"] else req["o"]
    if req["tuple"] and req["ok"]:
        want["deg"] = tuple(want["deg"])
    name = "FiniteElement(%r, %s, %s%s)" % (req["name"], cn, order, "" if k is None else ", form_degree=%d" % k)
    out.count("traces")
    out.count("evaluations")
    out.case(name)
    key = "%s:%s:%s" % (req["name"], cn, "form" if k is not None else "directions" if req["tuple"] else "")
    if cn == "product":
        # the registry's answer; composites built from it are C22's subject
        c = ufl.TensorProductCell(*[ufl.Cell(x) for x in PRODUCTS[req["cell"]["p"]]])
    else:
        c = None if cn == "none" else ufl.Cell(cn)
    try:
        d = canonical_element_description(req["name"], c, order, k)
        e = None
        if cn != "product":
            e = FiniteElement(req["name"], c, order, form_degree=k)
    except Exception as x:
        if req["ok"]:
            out.fail("refused:" + key, "%s raised %r, should be %s" % (name, x, want), request=req)
        return
    if not req["ok"]:
        out.fail("accepted:" + key, "%s is not offered (%s) but gave %s" % (name, want["why"], d if e is None else e), request=req)
        return
    fam, short, deg, rvs, sob, mapping, emb = d
    tests = [("family", fam, want["fam"]), ("degree", deg, want["deg"]), ("reference value shape", tuple(rvs), tuple(want["rvs"])),
             ("Sobolev space", sob.name, want["sob"]), ("mapping", mapping, want["map"])]
    if e is not None:
        tests += [("family of the element", e.family(), want["fam"]), ("degree of the element", e.degree(), want["deg"]),
                  ("shape of the element", e.reference_value_shape, tuple(want["rvs"])), ("size of the element", e.reference_value_size, int(np.prod(want["rvs"], dtype=int))),
                  ("space of the element", e.sobolev_space.name, want["sob"]), ("mapping of the element", e.mapping(), want["map"]),
                  ("cell of the element", e.cell, c), ("superdegree", e.embedded_superdegree, want["sup"]), ("subdegree", e.embedded_subdegree, want["sub"]),
                  ("quadrature scheme", e.quadrature_scheme(), None), ("variant", e.variant(), None)]
        if short_of(want) and not req["tuple"] and (short_of(want) + str(want["deg"])) not in e.shortstr():
            out.fail("short:" + key, "%s prints as %s" % (name, e.shortstr()))
    for what, got, exp in tests:
        if got != exp:
            out.fail("%s:%s" % (what.split()[0], key), "%s: %s is %r, should be %r" % (name, what, got, exp), request=req)
            return


def short_of(want):
    return want["short"]


def users(_, out):
    """families registered later resolve, and cannot hide a known one"""
    from finat.ufl import FiniteElement, elementlist as el
    import ufl
    keep, keepa = dict(el.ufl_elements), dict(el.aliases)
    try:
        el.register_element("Verif Family", "VF", 1, ufl.HDiv, "contravariant Piola", (2, 4), ("triangle",))
        el.register_alias("Verif Alias", lambda family, dim, order, degree: ("Verif Family", order + 1))
        out.count("traces")
        out.case("registration")
        T = ufl.Cell("triangle")
        for n, o, want in (("Verif Family", 2, 2), ("VF", 4, 4), ("Verif Alias", 1, 2), ("Verif Alias", 3, 4)):
            e = FiniteElement(n, T, o)
            if (e.family(), e.degree(), e.reference_value_shape, e.mapping()) != ("Verif Family", want, (2,), "contravariant Piola"):
                out.fail("register", "registered family %s of order %d became %r" % (n, o, e))
        for n, c, o in (("VF", "triangle", 1), ("VF", "triangle", 5), ("VF", "tetrahedron", 2), ("Verif Alias", "triangle", 4)):
            try:
                out.fail("register", "registered family accepted %r" % FiniteElement(n, ufl.Cell(c), o))
            except ValueError:
                pass
        for n in ("Lagrange", "Verif Family"):
            try:
                el.register_element(n, "X", 0, ufl.H1, "identity", (1, None), ("interval",))
                out.fail("register", "%s was registered twice" % n)
            except ValueError:
                pass
    finally:
        el.ufl_elements.clear(), el.ufl_elements.update(keep)
        el.aliases.clear(), el.aliases.update(keepa)


WRAPPED = {"HDivElement": "hdiv", "HCurlElement": "hcurl"}


def parts(e):
    """the elements an element holds, whatever it calls them"""
    from finat.ufl.finiteelementbase import FiniteElementBase
    slots = [getattr(c, "__slots__", ()) for c in type(e).__mro__]
    names = [n for s in slots for n in ([s] if isinstance(s, str) else s)] + list(getattr(e, "__dict__", {}))
    held = [getattr(e, n, None) for n in dict.fromkeys(names)]
    for h in held:
        if isinstance(h, FiniteElementBase):
            return [h]
        if isinstance(h, (tuple, list)) and h and all(isinstance(x, FiniteElementBase) for x in h):
            return list(h)
    return []


def same(e, t, path=""):
    """where the real element departs from the expansion the description denotes, or None"""
    import uflterms as ut
    what = type(e).__name__
    if t["op"] == "fe":
        got = (what, e.family(), e.cell, e.degree(), e.variant(), e.quadrature_scheme())
        want = ("FiniteElement", t["fam"], ut.ucell(t["cell"]), t["deg"], t["var"] or None, t["qs"] or None)
        return None if got == want else (path, got, want)
    cls = {"tpe": "TensorProductElement", "enr": "EnrichedElement", "hdiv": "HDivElement", "hcurl": "HCurlElement"}[t["op"]]
    if what != cls or e.cell != ut.ucell(t["cell"] if t["op"] == "tpe" else top_cell(t)):
        return path, what, cls
    subs = parts(e) if t["op"] in ("hdiv", "hcurl", "enr") else e.sub_elements
    if len(subs) != len(t["args"]):
        return path, len(subs), len(t["args"])
    for i, (x, y) in enumerate(zip(subs, t["args"])):
        d = same(x, y, path + "/%s%d" % (t["op"], i))
        if d:
            return d


def top_cell(t):
    return t["cell"] if t["op"] in ("tpe", "fe") else top_cell(t["args"][0])


def expansion(rec, out):
    """a family on a product cell is the product or sum of products it denotes, with the variant in every factor"""
    import uflterms as ut
    t = rec["term"]
    if t["op"] != "fe":
        return
    name = ut.show(t)
    out.count("traces")
    out.count("evaluations")
    out.case("expansion " + name)
    try:
        e = ut.build(t)
    except Exception as x:
        if rec["a"]["ok"]:
            out.fail("refused:" + t["fam"], "%s raised %r" % (name, x), term=t)
        return
    if not rec["a"]["ok"]:
        out.fail("accepted:" + t["fam"], "%s is not offered but gave %r" % (name, e), term=t)
        return
    d = same(e, rec["norm"])
    if d:
        out.fail("expansion:%s" % t["fam"], "%s is %r: at %s it has %s where %s is denoted" % (name, e, d[0] or "the top", d[1], d[2]), term=t)


def run(ctx):
    import uflterms as ut
    ctx.pmap(expansion, [r for r in ut.generate(ctx, names=["onproducts", "quads", "labels", "cells"]) if not r["term"]["args"]])
    cells = CELLS + [dict(n="product", d=sum(dict(interval=1).get(c, 2) for c in v), p=k) for k, v in PRODUCTS.items()]
    for c in cells:
        c.setdefault("p", "")
    from harness import THOROUGH
    orders = list(range(-2, 12)) if THOROUGH else [-1, 0, 1, 2, 3, 4, 5, 9]
    recs, _, _ = ctx.tlc("FinatUflNames", env={"FINAT_FOCUS": ctx.jsonfile("focus.json", dict(
        cells=cells, orders=orders, tuples=[[1, 1], [3, 2], [0, 1], [1, 0], [3, 4], [1, 2, 6]], unknown=["Lagrang", "lagrange", "N3curl", "CG ", "P+", "Lambda", "RTN", "DQ L3"]))}, workers=6)
    recs = [r for r in recs if r["name"]]
    ctx.pmap(ask, recs)
    ctx.direct(users)


BOUNDS = "all registered names, short names, aliases and exterior-calculus names x 11 named cells and 3 products x orders -1..9 and six anisotropic degrees x form degrees -1..4"
