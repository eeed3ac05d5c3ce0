"""UFL descriptions: building terms of FinatUfl.tla with the real constructors, and the programs explored."""
import json
import warnings

import ufl

NODEG, NOFORM = -999, -99
NONE = dict(n="none", cs=[])
T0 = dict(op="", fam="", cell=NONE, deg=0, fd=NOFORM, qs="", var="", args=[], dim=-1, shape=[], sym=[], dom="", mp="")


def C(*names):
    return dict(n=names[0], cs=[]) if len(names) == 1 else dict(n="product", cs=[C(n) if isinstance(n, str) else n for n in names])


def fe(fam, cell, deg, var="", qs="", fd=NOFORM):
    return dict(T0, op="fe", fam=fam, cell=cell if isinstance(cell, dict) else C(cell), deg=deg, var=var, qs=qs, fd=fd)


def U(op, **k):
    return dict(T0, op=op, **k)


def N(op, k, **kw):
    return dict(T0, op=op, dim=k, **kw)


def ucell(c):
    if c["n"] == "none":
        return None
    if c["n"] == "product":
        return ufl.TensorProductCell(*[ucell(x) for x in c["cs"]])
    return ufl.Cell(c["n"])


def build(t, spelling=0):
    """the real element; spelling picks among equivalent ways to write the same description"""
    import finat.ufl as fu
    warnings.simplefilter("ignore")
    op = t["op"]
    if op == "fe":
        c = ucell(t["cell"])
        if spelling % 2 and isinstance(c, ufl.Cell):
            c = c.cellname()
        return fu.FiniteElement(t["fam"], c, t["deg"], form_degree=None if t["fd"] == NOFORM else t["fd"],
                                quad_scheme=t["qs"] or None, variant=t["var"] or None)
    args = [build(a, spelling) for a in t["args"]]
    if op == "tpe":
        c = ucell(t["cell"])
        return fu.TensorProductElement(*args, cell=c) if c is not None else fu.TensorProductElement(*args)
    if op == "mix":
        if spelling % 3 == 1:
            return fu.MixedElement(args)
        if spelling % 3 == 2 and len(args) == 2:
            return args[0] * args[1]
        return fu.MixedElement(*args)
    if op == "enr":
        return args[0] + args[1] if spelling % 2 and len(args) == 2 else fu.EnrichedElement(*args)
    if op == "nenr":
        return fu.NodalEnrichedElement(*args)
    if op == "restr":
        return args[0][t["dom"]] if spelling % 2 else fu.RestrictedElement(args[0], t["dom"])
    if op == "brk":
        return fu.BrokenElement(args[0])
    if op in ("hdiv", "hcurl"):
        f = {"hdiv": (fu.HDivElement, fu.HDiv), "hcurl": (fu.HCurlElement, fu.HCurl)}[op]
        return f[spelling % 2](args[0])
    if op == "wm":
        return fu.WithMapping(args[0], t["mp"])
    sub = t["args"][0]
    if op == "vec":
        kw = dict() if t["dim"] == -1 else dict(dim=t["dim"])
        if spelling % 2 and sub["op"] == "fe" and sub["fd"] == NOFORM and sub["cell"]["n"] != "product":
            return fu.VectorElement(sub["fam"], ucell(sub["cell"]), sub["deg"], quad_scheme=sub["qs"] or None, variant=sub["var"] or None, **kw)
        return fu.VectorElement(args[0], **kw)
    if op == "ten":
        kw = dict(shape=tuple(t["shape"])) if t["shape"] else {}
        sym = [(tuple(a), tuple(b)) for a, b in t["sym"]]
        if spelling % 2:
            sym = sym[::-1]
        kw["symmetry"] = True if t["dom"] == "sym" else dict(sym) if sym or spelling % 2 else None
        if spelling % 2 and sub["op"] == "fe" and sub["fd"] == NOFORM and sub["cell"]["n"] != "product":
            return fu.TensorElement(sub["fam"], ucell(sub["cell"]), sub["deg"], quad_scheme=sub["qs"] or None, variant=sub["var"] or None, **kw)
        return fu.TensorElement(args[0], **kw)
    raise KeyError(op)


def show(t):
    if t["op"] == "bad":
        return "<%s>" % t["fam"]
    if t["op"] == "fe":
        return "%s(%s,%s%s%s%s)" % (t["fam"], cellname(t["cell"]), t["deg"], "," + t["var"] if t["var"] else "", "," + t["qs"] if t["qs"] else "",
                                    ",k=%d" % t["fd"] if t["fd"] != NOFORM else "")
    extra = [x for x in (t["dom"], t["mp"], str(t["shape"]) if t["shape"] else "", str(t["sym"]) if t["sym"] else "",
                         str(t["dim"]) if t["dim"] != -1 else "", cellname(t["cell"]) if t["cell"]["n"] != "none" else "") if x]
    return "%s(%s)" % (t["op"], ", ".join([show(a) for a in t["args"]] + extra))


def cellname(c):
    return "*".join(cellname(x) for x in c["cs"]) if c["n"] == "product" else c["n"]


def ops_of(t):
    return [t["op"]] + [o for a in t["args"] for o in ops_of(a)]


def key(t):
    return json.dumps(t, sort_keys=True)


# ---------------------------------------------------------------- programs
SYM = [[(0, 1), (1, 0)]], [[(1, 0), (0, 1)]], [[(1, 1), (0, 0)], [(1, 0), (0, 1)]]
HALF = [U("wm", mp="identity"), U("brk")]


def foci(full=False):
    opts = []
    base = dict(fam="", cell=NONE, deg=NODEG, qs="", var="", mp="")
    for o in (dict(), dict(deg=3), dict(deg=0), dict(fam="DG"), dict(fam="CG"), dict(fam="RT"), dict(var="spectral"), dict(qs="KMV"), dict(cell=C("tetrahedron")),
              dict(cell=C("quadrilateral")), dict(deg=2, var="x"), dict(deg=4, cell=C("tetrahedron"), qs="s"), dict(mp="identity"), dict(mp="L2 Piola", deg=2)):
        opts.append(dict(base, **o))
    fs = []
    # simplices: sums, vectors, tensors, restrictions of scalar and vector families
    tri = [fe("CG", "triangle", 1), fe("CG", "triangle", 2), fe("DG", "triangle", 0), fe("RT", "triangle", 1), fe("N1curl", "triangle", 2),
           fe("Bubble", "triangle", 3), fe("Regge", "triangle", 1), fe("Argyris", "triangle", 5), fe("Real", "triangle", 0),
           fe("CG", "triangle", 1, var="spectral"), fe("CG", "triangle", 2, qs="KMV"), fe("BR", "triangle", 1), fe("HHJ", "triangle", 0),
           fe("P", "triangle", 1), fe("P", "triangle", 2, fd=1), fe("P-", "triangle", 2, fd=1), fe("P-", "triangle", 1, fd=2), fe("DRT", "triangle", 1), fe("DG L2", "triangle", 1)]
    un = [U("brk"), U("restr", dom="interior"), U("restr", dom="facet"), U("vec"), U("vec", dim=3), U("vec", dim=1), U("ten"), U("ten", dom="sym"),
          U("ten", shape=[2, 3]), U("ten", shape=[2, 2], sym=[[[0, 1], [1, 0]]]), U("ten", shape=[2, 2], sym=[[[1, 0], [0, 1]]]),
          U("ten", shape=[3, 3], dom="sym"), U("ten", shape=[3, 2], sym=[[[2, 1], [0, 0]], [[1, 0], [0, 1]]]), U("ten", shape=[2]), U("ten", shape=[2, 1, 2]), U("ten", shape=[2, 3, 2]), U("ten", shape=[2, 2, 2], sym=[[[1, 0, 0], [0, 1, 0]], [[1, 0, 1], [0, 1, 1]]]),
          U("wm", mp="identity"), U("wm", mp="contravariant Piola"), U("wm", mp="covariant Piola"), U("wm", mp="double covariant Piola"), U("wm", mp="L2 Piola")]
    sums = [N("mix", 2), N("enr", 2), N("nenr", 2)]
    fs.append(dict(name="pairs", leaves=tri, unary=[], nary=sums, maxstack=2, maxleaves=2, maxops=1))
    fs.append(dict(name="wraps", leaves=tri, unary=un, nary=[], maxstack=1, maxleaves=1, maxops=2 if full else 1))
    few = [tri[0], tri[3], tri[2], tri[11]]
    # how an element is labelled: every pair of a variant and a quadrature scheme
    labels = [fe("CG", "triangle", 2, var=v, qs=q) for v in ("", "spectral", "Spectral", "KMV", "spectral ", "alfeld,iso") for q in ("", "KMV", "kmv", "spectral", "None")]
    fs.append(dict(name="labels", leaves=labels, unary=[U("vec"), U("ten", dom="sym"), U("brk")], nary=[], maxstack=1, maxleaves=1, maxops=1))
    fs.append(dict(name="double", leaves=few, unary=[U("brk"), U("restr", dom="edge"), U("vec"), U("vec", dim=3), U("ten", dom="sym"), U("ten", shape=[2, 3]),
                                                      U("ten", shape=[2, 2], sym=[[[0, 1], [1, 0]]]), U("wm", mp="covariant Piola"), U("wm", mp="identity")], nary=[],
                   maxstack=1, maxleaves=1, maxops=3 if full else 2))
    fs.append(dict(name="nested", leaves=[tri[0], tri[3], fe("Regge", "triangle", 0)], unary=[U("vec"), U("ten", shape=[2, 2], sym=[[[0, 1], [1, 0]]]), U("ten", shape=[1, 2]), U("brk")],
                   nary=[N("mix", 2), N("mix", 3)], maxstack=3, maxleaves=3, maxops=3 if full else 2))
    fs.append(dict(name="sums", leaves=[tri[0], tri[5], tri[3], fe("CG", "triangle", 3, var="spectral")], unary=[U("brk"), U("restr", dom="facet")],
                   nary=[N("enr", 2), N("enr", 3), N("nenr", 2), N("mix", 2)], maxstack=3, maxleaves=3, maxops=3 if full else 2))
    # lines and products
    I = [fe("CG", "interval", 1), fe("CG", "interval", 2), fe("DG", "interval", 0), fe("DG L2", "interval", 1), fe("GLL", "interval", 2), fe("Real", "interval", 0)]
    fs.append(dict(name="lines", leaves=I, unary=[U("hdiv"), U("hcurl"), U("brk"), U("vec", dim=2)],
                   nary=[N("tpe", 2), N("tpe", 2, cell=C("quadrilateral")), N("enr", 2)], maxstack=2, maxleaves=2, maxops=3 if full else 2))
    fs.append(dict(name="products", leaves=[I[0], I[2], fe("RT", "triangle", 1), fe("CG", "triangle", 2)], unary=[U("hdiv"), U("hcurl"), U("brk")],
                   nary=[N("tpe", 2), N("tpe", 3), N("enr", 2), N("mix", 2)], maxstack=3, maxleaves=4 if full else 3, maxops=3 if full else 2))
    fs.append(dict(name="quads", leaves=[dict(U("tpe", cell=C("quadrilateral")), args=[I[0], I[2]]), dict(U("tpe", cell=C("quadrilateral")), args=[I[2], I[0]]), I[0], I[2],
                                         fe("Q", "quadrilateral", 1)],
                   unary=[U("hdiv"), U("brk"), U("restr", dom="interior"), U("wm", mp="identity"), U("vec")], nary=[N("tpe", 2), N("enr", 2), N("mix", 2)], maxstack=2, maxleaves=4, maxops=2))
    # families on product cells
    ii, ti, qi = C("interval", "interval"), C("triangle", "interval"), C("quadrilateral", "interval")
    pf = [fe(f, c, d, var=v) for c in (ii, ti, qi, C("interval", "interval", "interval")) for f in ("CG", "DG", "Q", "DQ", "DQ L2", "DG L2", "RTCF", "RTCE", "NCF", "NCE", "DPC", "Real", "Quadrature")
          for d in (1, 2) for v in ("", "mse") if not (f in ("Real",) and d)]
    pf += [fe("Real", ii, 0)] + [fe(f, c, 2, fd=k) for f in ("Q-",) for c in (ii, qi) for k in (0, 1, 2, 3)]
    fs.append(dict(name="onproducts", leaves=pf, unary=[U("brk"), U("vec"), U("restr", dom="interior")], nary=[], maxstack=1, maxleaves=1, maxops=1))
    fs.append(dict(name="cells", leaves=[fe("CG", c, 1) for c in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "none")] +
                   [fe("RT", "tetrahedron", 1), fe("N2curl", "tetrahedron", 1), fe("S", "hexahedron", 2), fe("DPC", "hexahedron", 1), fe("BDMCF", "quadrilateral", 1), fe("JM", "tetrahedron", 1),
                    fe("AWc", "triangle", 3), fe("GN", "tetrahedron", 1), fe("Sdirect", "quadrilateral", 2), fe("Sdirect H(div)", "quadrilateral", 2), fe("GLS", "triangle", 1), fe("Regge", "tetrahedron", 0)],
                   unary=[U("vec"), U("ten"), U("ten", dom="sym"), U("brk")], nary=[N("mix", 2)] if full else [], maxstack=2 if full else 1, maxleaves=2, maxops=1))
    return [dict(dict(options=opts), **f) for f in fs]


def generate(ctx, want=(), names=None, full=False):
    """Programs with their meaning, deduplicated by term"""
    from concurrent.futures import ThreadPoolExecutor
    fs = [dict(f, want=list(want)) for f in foci(full) if names is None or f["name"] in names]

    def one(f):
        recs, _, _ = ctx.tlc("FinatUfl", env={"FINAT_FOCUS": ctx.jsonfile("ufl-%s.json" % f["name"], f)}, workers=2)
        return recs
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, fs))
    seen, res = set(), []
    for recs in rs:
        for r in recs:
            k = key(r["term"])
            if k not in seen:
                seen.add(k)
                res.append(r)
    res.sort(key=lambda r: key(r["term"]))
    return res
