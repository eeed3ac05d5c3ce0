"""Physically mapped and directly defined elements, their geometry, and recorded numberings."""
import numpy as np
import FIAT
import gem
import finat
from finat.physically_mapped import PhysicalGeometry
from finat.point_set import PointSet
from catalog import cell as fcell
from replay import close, geval, maxdiff

T, K, I, Q = "triangle", "tetrahedron", "interval", "quadrilateral"


def mapped_list(full=False):
    """(class name, cell, args, kwargs)"""
    z = []

    def add(n, c, *a, **k):
        z.append((n, c, a, k))
    add("Morley", T)
    add("Hermite", T)
    add("Hermite", I)
    add("Hermite", K)
    add("Bell", T)
    for d in (5, 6, 7) if full else (5, 6):
        for avg in (False, True):
            add("Argyris", T, d, avg=avg)
    add("Argyris", T, 5, variant="point")
    for d in (3, 4, 5) if full else (3, 4):
        for avg in (False, True):
            add("HsiehCloughTocher", T, d, avg=avg)
    add("ReducedHsiehCloughTocher", T)
    add("QuadraticPowellSabin6", T)
    for avg in (False, True):
        add("QuadraticPowellSabin12", T, avg=avg)
    add("MardalTaiWinther", T)
    add("ArnoldWinther", T)
    add("ArnoldWintherNC", T)
    for d in (3, 4, 5) if full else (3, 4):
        for v in ("integral", "point"):
            add("HuZhang", T, d, v)
    add("ArnoldQin", T)
    add("ReducedArnoldQin", T)
    for c in (T, K):
        for n in ("BernardiRaugel", "BernardiRaugelBubble", "AlfeldSorokina", "ChristiansenHu", "JohnsonMercier",
                  "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1", "GuzmanNeilanBubble", "GuzmanNeilanH1div"):
            if c == K and not full and n.startswith("Guzman"):
                continue
            add(n, c)
    if full:
        add("BernardiRaugel", K, 2)
        add("GuzmanNeilanFirstKindH1", K, 2)
        add("GuzmanNeilanSecondKindH1", K, 2)
    return z


def title(n, c, a, k):
    return "%s(%s%s%s)" % (n, c, "".join(",%s" % (x,) for x in a), "".join(",%s=%s" % kv for kv in sorted(k.items())))


def mapped_elements(full=False, direct=True):
    out = []
    for n, c, a, k in mapped_list(full):
        out.append((title(n, c, a, k), lambda n=n, c=c, a=a, k=k: getattr(finat, n)(fcell(c), *a, **k)))
    if direct:
        for d in range(1, 7 if full else 5):
            out.append(("DirectSerendipity(%d)" % d, lambda d=d: finat.DirectSerendipity(fcell(Q), d)))
    return out


def record_numbering(el):
    """what the real element says about its own numbering, in canonical entity order"""
    ed, cl = el.entity_dofs(), el.entity_closure_dofs()
    name = {1: "interval", 2: "triangle", 3: "tetrahedron"}[el.cell.get_spatial_dimension()]
    from FIAT.reference_element import UFCQuadrilateral
    if isinstance(el.cell, UFCQuadrilateral):
        name = "quadrilateral"
    top = el.cell.get_topology()
    ents = [(d, e) for d in sorted(top) for e in sorted(top[d])]
    return {"cell": name, "nd": int(el.space_dimension()), "ish": [int(x) for x in el.index_shape],
            "ent": [[int(x) for x in ed[d][e]] for d, e in ents],
            "clo": [[int(x) for x in cl[d][e]] for d, e in ents],
            "keys": sum(len(v) for v in ed.values())}


def tlc_numbering(ctx, trace):
    """Judge recorded numberings against the numbering laws; returns [(index, why)]"""
    path = ctx.jsonfile("numbering.json", trace)
    recs, out, ok = ctx.tlc("NumberingTrace", env={"FINAT_TRACE": path})
    return [(r["i"] - 1, r["why"]) for r in recs]


# ------------------------------------------------------------------ geometry
class Geometry(PhysicalGeometry):
    """Affine physical cell given by its vertices, with arbitrary per-vertex sizes."""

    def __init__(self, ref_cell, verts, h=None, normals=None):
        if type(ref_cell).__name__ not in ("UFCInterval", "UFCTriangle", "UFCTetrahedron"):
            ref_cell = fcell({1: I, 2: T, 3: K}[ref_cell.get_spatial_dimension()])
        self.ref = ref_cell
        self.phys = type(ref_cell)()
        self.verts = np.array(verts, dtype=float)
        self.phys.vertices = tuple(map(tuple, self.verts))
        self.A, self.b = FIAT.reference_element.make_affine_mapping(ref_cell.vertices, self.phys.vertices)
        self.A = np.asarray(self.A, dtype=float)
        self.h = np.ones(len(self.verts)) if h is None else np.array(h, dtype=float)
        self.calls = []

    def cell_size(self):
        return gem.Literal(self.h)

    def detJ_at(self, point):
        return gem.Literal(np.linalg.det(self.A))

    def jacobian_at(self, point):
        return gem.Literal(self.A)

    def _ne(self, c):
        return len(c.get_topology()[1])

    def normalized_reference_edge_tangents(self):
        return gem.Literal(np.array([self.ref.compute_normalized_edge_tangent(i) for i in range(self._ne(self.ref))]))

    def _nf(self):
        d = self.ref.get_spatial_dimension()
        return len(self.ref.get_topology()[d - 1])

    def reference_normals(self):
        return gem.Literal(np.array([self.ref.compute_normal(i) for i in range(self._nf())]))

    def physical_normals(self):
        return gem.Literal(np.array([self.phys.compute_normal(i) for i in range(self._nf())]))

    def physical_tangents(self):
        return gem.Literal(np.array([self.phys.compute_normalized_edge_tangent(i) for i in range(self._ne(self.ref))]))

    def physical_edge_lengths(self):
        return gem.Literal(np.array([self.phys.volume_of_subcomplex(1, i) for i in range(self._ne(self.ref))]))

    def physical_points(self, ps, entity=None):
        from catalog import embed
        pts = np.asarray(ps.points, dtype=float)
        if entity is not None:
            pts = embed(self.ref, entity, pts)
        return _points(pts @ self.A.T + self.b, ps)

    def physical_vertices(self):
        return gem.Literal(self.verts)


def _points(arr, ps):
    """(npts, gdim) array as callers of DirectSerendipity supply it: the extents of the points first"""
    return gem.Literal(arr.reshape(tuple(i.extent for i in ps.indices) + (arr.shape[1],)))


class QuadGeometry:
    """A quadrilateral given by its vertices, mapped bilinearly."""

    def __init__(self, verts):
        self.verts = np.array(verts, dtype=float)

    def map(self, X):
        x, y = X[:, 0:1], X[:, 1:2]
        v = self.verts
        return (1 - x) * (1 - y) * v[0] + (1 - x) * y * v[1] + x * (1 - y) * v[2] + x * y * v[3]

    def physical_vertices(self):
        return gem.Literal(self.verts)

    def physical_points(self, ps, entity=None):
        from catalog import embed
        pts = np.asarray(ps.points, dtype=float)
        if entity is not None:
            pts = embed(fcell(Q), entity, pts)
        return _points(self.map(pts), ps)


TRI = [(0.0, 0.1), (1.17, -0.09), (0.15, 1.84)]


# ---------------------------------------------- geometry reaches mapped parts
def check_mapped_wrappers(out, ops):
    """Wrapping a physically mapped element evaluates it with the supplied geometry."""
    cell = fcell(T)
    geo = Geometry(cell, TRI, h=[0.7, 1.3, 2.1])
    pts = np.array([[0.2, 0.3], [0.5, 0.1], [0.1, 0.7]])
    ps = PointSet(pts)

    def tab(el, order=1):
        r = el.basis_evaluation(order, ps, coordinate_mapping=geo)
        nd, nc = int(np.prod(el.index_shape)), int(np.prod(el.value_shape, dtype=int))
        return {a: geval(e, ps.indices).reshape(len(pts), nd, nc) for a, e in r.items()}

    def plain(el, order=1):
        return tab(el, order) if hasattr(el, "basis_transformation") else {
            a: geval(e, ps.indices).reshape(len(pts), int(np.prod(el.index_shape)), -1)
            for a, e in el.basis_evaluation(order, ps).items()}

    def compare(name, got, want):
        out.count("evaluations", len(want))
        out.case("geometry:" + name)
        for a in want:
            if a not in got or not close(got[a], want[a]):
                out.fail("geometry:" + name, "%s: derivative %s does not use the physically mapped part (%s)" % (
                    name, a, maxdiff(got[a], want[a]) if a in got else "missing"))
                return
    herm, morley, mtw = finat.Hermite(cell), finat.Morley(cell), finat.MardalTaiWinther(cell)
    bub = finat.Bubble(cell, 3)
    if "enr" in ops:
        e = finat.EnrichedElement([herm, bub])
        want = {a: np.concatenate([x, plain(bub)[a]], axis=1) for a, x in plain(herm).items()}
        compare("enriched(Hermite,Bubble)", tab(e), want)
        e = finat.EnrichedElement([bub, finat.EnrichedElement([morley, herm])])
        want = {a: np.concatenate([plain(x)[a] for x in (bub, morley, herm)], axis=1) for a in plain(herm)}
        compare("enriched(Bubble,enriched(Morley,Hermite))", tab(e), want)
    if "mix" in ops:
        e = finat.MixedElement([mtw, finat.Lagrange(cell, 1), herm])
        parts = [mtw, finat.Lagrange(cell, 1), herm]
        nd = [int(np.prod(p.index_shape)) for p in parts]
        nc = [2, 1, 1]
        want = {}
        for a in plain(herm):
            w = np.zeros((len(pts), sum(nd), 4))
            for i, p in enumerate(parts):
                w[:, sum(nd[:i]):sum(nd[:i + 1]), sum(nc[:i]):sum(nc[:i + 1])] = plain(p)[a]
            want[a] = w
        compare("mixed(MTW,Lagrange,Hermite)", tab(e), want)
    if "tfe" in ops:
        for tr in (False, True):
            e = finat.TensorFiniteElement(morley, (2,), transpose=tr)
            want = {}
            for a, x in plain(morley).items():
                w = np.zeros((len(pts), 12, 2))
                for d in range(6):
                    for c in range(2):
                        w[:, c * 6 + d if tr else d * 2 + c, c] = x[:, d, 0]
                want[a] = w
            compare("tensor(Morley,%s)" % tr, tab(e), want)
    if "brk" in ops:
        compare("broken(Hermite)", tab(finat.DiscontinuousElement(herm)), plain(herm))
