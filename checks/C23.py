"""UFL mixed, vector and tensor elements number components consistently."""
import itertools
import zlib

import uflterms as ut


def lagrange(e, g):
    """a coordinate element for domains of e's cell in g dimensions"""
    import finat.ufl as fu
    return fu.VectorElement("Lagrange", e.cell, 1, dim=g)


def follow(e, path):
    for s in path:
        e = e.sub_elements[s]
    return e


def wrong(shape):
    """indices outside an array of this shape"""
    zero = (0,) * len(shape)
    yield zero + (0,)
    if shape:
        yield zero[1:]
    for k, n in enumerate(shape):
        for v in (-1, -n, n, n + 3):
            if v >= n or v < 0:
                yield zero[:k] + (v,) + zero[k + 1:]


def walk(what, e, comps, shape, direct, recurse, out, name, key, t):
    for c in comps:
        at = tuple(c["at"])
        out.count("evaluations")
        want = (None if c["sub"] < 0 else c["sub"], tuple(c["loc"]))
        forms = [at] + ([at[0]] if len(at) == 1 else [])
        for i in forms:
            try:
                got = direct(i)
                leaf, el = recurse(i)
            except Exception as x:
                out.fail("%s:%s" % (what, key), "%s: %s component %s raised %r" % (name, what, i, x), term=t)
                return
            if (got[0], tuple(got[1])) != want or tuple(leaf) != tuple(c["leaf"]) or el != follow(e, c["path"]):
                out.fail("%s:%s" % (what, key), "%s: %s component %s is %s of sub-element %s, finally %s of %r; should be %s of %s, finally %s at %s" % (
                    name, what, i, got[1], got[0], leaf, el, want[1], want[0], c["leaf"], c["path"]), term=t)
                return
    for i in wrong(shape):
        out.count("evaluations")
        for f in (direct, recurse):
            try:
                got = f(i)
            except Exception:
                continue
            out.fail("%s-range:%s" % (what, key), "%s: %s component %s of shape %s gave %s" % (name, what, i, shape, got), term=t)
            return


def ask(rec, out):
    import ufl
    t, a = rec["term"], rec["a"]
    name, key = ut.show(t), ".".join(ut.ops_of(t)[:3])
    e = ut.build(t, zlib.crc32(name.encode()) % 6)
    out.count("traces")
    out.case(name)
    walk("reference", e, rec["ref"], tuple(a["rvs"]), e.extract_subelement_reference_component, e.extract_reference_component, out, name, key, t)
    if t["op"] == "ten":
        out.count("evaluations")
        if list(e.flattened_sub_element_mapping()) != rec["submap"]:
            out.fail("submap:" + key, "%s: sub-elements of the components are %s, should be %s" % (name, e.flattened_sub_element_mapping(), rec["submap"]), term=t)
    if e.cell is None:
        return
    for ph in rec["phys"]:
        dom = ufl.Mesh(lagrange(e, ph["g"]))
        shape = tuple(ph["shape"])
        out.count("evaluations")
        V = ufl.FunctionSpace(dom, e)
        if V.value_shape != shape or tuple(e.value_shape(dom)) != shape:
            out.fail("shape:" + key, "%s in %d dimensions has values of shape %s / %s, should be %s" % (name, ph["g"], V.value_shape, e.value_shape(dom), shape), term=t)
            continue
        walk("physical", e, ph["comps"], shape, lambda i: e.extract_subelement_component(dom, i), lambda i: e.extract_component(dom, i), out, name, key, t)
        # symmetric components; the dictionary may use flat indices or multi-indices
        idx = list(itertools.product(*[range(n) for n in shape]))
        got = {}
        for x, y in e.symmetry(dom).items():
            got[flat(x, shape)] = flat(y, shape)
        want = {}
        sub = idx and len(idx) // max(1, len(rec["submap"]))
        for x, y in ph["sym"]:
            if t["op"] == "ten":
                x, y = x * sub, y * sub
            want[x] = y
        if got != want and not (t["op"] == "mix" and blocks(rec["norm"])):
            out.fail("symmetry:" + key, "%s: symmetries %s, should be %s" % (name, got, want), term=t)
        pull(e, V, rec, ph, out, name, key, t)


def blocks(t):
    """symmetries between non-scalar blocks have no agreed numbering inside a mixed element"""
    return t["op"] == "ten" and bool(t["sym"]) and not scalar(t["args"][0]) or any(blocks(a) for a in t["args"])


def scalar(t):
    return t["op"] == "fe" and ut.build(t).reference_value_shape == ()


def flat(i, shape):
    n = 0
    for k, s in zip(tuple(i) + (0,) * (len(shape) - len(i)), shape):
        n = n * s + k
    return n


def pull(e, V, rec, ph, out, name, key, t):
    """the pullback puts each reference component where the numbering says"""
    import ufl
    leaves = [follow(e, c["path"]) for c in rec["ref"]]
    if any(l.mapping() != "identity" for l in leaves) or ph["g"] != e.cell.topological_dimension():
        return
    f = ufl.classes.ReferenceValue(ufl.Coefficient(V))
    if f.ufl_shape != tuple(rec["a"]["rvs"]):
        out.fail("pull:" + key, "%s: a reference function has shape %s" % (name, f.ufl_shape), term=t)
        return
    owner = {(tuple(c["path"]), tuple(c["leaf"])): tuple(c["at"]) for c in rec["ref"]}
    g = e.pullback.apply(f)
    out.count("evaluations")
    for c in ph["comps"]:
        want = f[owner[(tuple(c["path"]), tuple(c["leaf"]))]] if f.ufl_shape else f
        got = g[tuple(c["at"])] if g.ufl_shape else g
        if resolve(got) != resolve(want):
            out.fail("pull:" + key, "%s: component %s is pulled back to %s, should be %s" % (name, c["at"], got, want), term=t)
            return


def resolve(x):
    """component of the coefficient an expression stands for"""
    import ufl
    path = ()
    while True:
        if isinstance(x, ufl.classes.Indexed):
            path = tuple(int(k) for k in x.ufl_operands[1]) + path
            x = x.ufl_operands[0]
        elif isinstance(x, ufl.classes.ListTensor) and path:
            x, path = x.ufl_operands[path[0]], path[1:]
        else:
            return (x, path)


def run(ctx):
    from harness import THOROUGH
    recs = [r for r in ut.generate(ctx, want=("components",), full=THOROUGH) if r["a"]["ok"]]
    ctx.pmap(ask, recs)


BOUNDS = "every component (and out-of-range ones) of UFL terms over 19 leaf families with up to 2 (thorough: 3) composition steps, in physical spaces of dimension tdim and tdim + 1"
