"""UFL composites derive degree, shape, space and mapping from their parts."""
import zlib

import numpy as np

import uflterms as ut


def deg(d):
    return d["v"] if not d["t"] else tuple(deg(x) for x in d["t"])


def space(s):
    n = s.name
    if n == "DirectionalH":
        return dspace(n, [99 if o == float("inf") else int(o) for o in s._orders])
    return (n, ())


def dspace(n, orders):
    """UFL identifies a directional space of equal orders with the isotropic one"""
    if n == "DirectionalH" and len(set(orders)) == 1:
        return ({0: "L2", 1: "H1", 2: "H2", 99: "HInf"}[orders[0]], ())
    return (n, tuple(orders))


def ask(rec, out):
    t, want = rec["term"], rec["a"]
    name = ut.show(t)
    out.count("traces")
    out.case(name)
    shape = ".".join(ut.ops_of(t)[:3])
    if not want["ok"] and want["why"] == "scope":
        return
    spelling = zlib.crc32(name.encode()) % 6
    try:
        e = ut.build(t, spelling)
    except Exception as x:
        out.count("evaluations")
        if want["ok"]:
            out.fail("refused:" + shape, "%s raised %r" % (name, x), term=t)
        return
    if not want["ok"]:
        out.count("evaluations")
        out.fail("accepted:%s:%s" % (want["why"], shape), "%s should be refused (%s) but gave %r" % (name, want["why"], e), term=t)
        return
    cell = ut.ucell(want["cell"])
    tests = [("family", lambda: e.family(), want["fam"]), ("cell", lambda: e.cell, cell), ("degree", lambda: e.degree(), deg(want["deg"])),
             ("quadrature scheme", lambda: e.quadrature_scheme(), want["qs"] or None), ("shape", lambda: e.reference_value_shape, tuple(want["rvs"])),
             ("size", lambda: e.reference_value_size, int(np.prod(want["rvs"], dtype=int))), ("mapping", lambda: e.mapping(), want["map"]),
             ("subdegree", lambda: e.embedded_subdegree, want["sub"]), ("superdegree", lambda: e.embedded_superdegree, want["sup"]),
             ("sub-elements", lambda: e.num_sub_elements, want["nsub"])]
    if t["op"] != "brk":
        tests.append(("variant", lambda: e.variant(), want["var"] or None))
    for what, get, exp in tests:
        out.count("evaluations")
        try:
            got = get()
        except Exception as x:
            got = x
        if got != exp or type(got) is float:
            out.fail("%s:%s" % (what.split()[0], shape), "%s: %s is %r, should be %r" % (name, what, got, exp), term=t, spelling=spelling)
    if want["sob"]:
        out.count("evaluations")
        try:
            got = space(e.sobolev_space)
        except Exception as x:
            got = x
        if got not in [dspace(s["n"], s["o"]) for s in want["sob"]]:
            out.fail("space:" + shape, "%s: Sobolev space is %r, should be %s" % (name, got, want["sob"]), term=t, spelling=spelling)
    # claiming to be constant or linear when it is not drops derivatives; not claiming it is only slow
    if "wm" not in ut.ops_of(t):
        for what, get, exp in (("constant", lambda: e.is_cellwise_constant(), want["constant"]), ("linear", lambda: e._is_linear(), want["linear"])):
            if get() and not exp:
                out.fail("%s:%s" % (what, shape), "%s claims to be %s" % (name, what), term=t)
    if t["op"] in ("mix", "vec", "ten") and "wm" not in ut.ops_of(t):
        # the same two, component by component: those of the part that owns it
        for c in rec["ref"]:
            out.count("evaluations")
            try:
                got, con = e.degree(component=tuple(c["at"])), e.is_cellwise_constant(component=tuple(c["at"]))
            except Exception as x:
                got, con = x, False
            if got != deg(c["deg"]) or con != c["constant"]:
                out.fail("component:" + shape, "%s: reference component %s has degree %r, constant %r, should be %s and %s" % (
                    name, tuple(c["at"]), got, con, deg(c["deg"]), c["constant"]), term=t, spelling=spelling)
                break
    for what, get in (("str", lambda: str(e)), ("shortstr", lambda: e.shortstr()), ("repr", lambda: repr(e))):
        try:
            if not isinstance(get(), str):
                raise TypeError(what)
        except Exception as x:
            out.fail("%s:%s" % (what, shape), "%s: %s raised %r" % (name, what, x), term=t)
    if t["args"]:
        printed(e, t, name, shape, out)


def printed(e, t, name, shape, out):
    """what is printed for a composite shows its parts in order, and what it adds to them"""
    parts = [ut.build(a) for a in t["args"]]
    adds = [str(t["dim"])] if t["op"] == "vec" and t["dim"] > 0 else [t["dom"]] if t["op"] == "restr" else [t["mp"]] if t["op"] == "wm" else []
    for what, text, forms in (("str", str(e), (str, repr)), ("shortstr", e.shortstr(), (lambda p: p.shortstr(), repr)), ("repr", repr(e), (repr,))):
        out.count("evaluations")
        at = 0
        for i, p in enumerate(parts):
            found = [text.find(f(p), at) + len(f(p)) for f in forms if text.find(f(p), at) >= 0]
            if not found:
                out.fail("printed:%s:%s" % (what, shape), "%s: %s is %s, which does not show part %d, %s" % (name, what, text, i, forms[0](p)), term=t)
                return
            at = min(found)
        rest = text
        for p in parts:
            for f in forms:
                rest = rest.replace(f(p), "|")
        for x in adds:
            if x not in rest:
                out.fail("printed:%s:%s" % (what, shape), "%s: %s is %s, which does not show %s" % (name, what, text, x), term=t)


def run(ctx):
    from harness import THOROUGH
    recs = ut.generate(ctx, want=("components",), full=THOROUGH)
    ctx.pmap(ask, recs)


BOUNDS = "UFL terms over 19 leaf families on simplices, products and quadrilaterals with up to 2 (thorough: 3) composition steps"
