"""Physically mapped and directly defined leaves of the element machine.

A leaf "M:<class>:<cell letter>:<degree>" is described by FinatMappedFacts; only the order in which it numbers its degrees of
freedom is read from the element (and must be a partition with the specified counts).  Its functions are its own mapped
evaluation on one fixed physical cell, so a composite is compared with its parts.
"""
import functools
import inspect

import numpy as np
from catalog import DIM, SHORT, cell, embed

FACTS = {}
LETTER = {v: k for k, v in SHORT.items()}
SIZES = [0.7, 1.3, 2.1, 0.9]
VERTS = {"interval": [(0.2,), (1.4,)], "triangle": [(0.0, 0.1), (1.17, -0.09), (0.15, 1.84)],
         "tetrahedron": [(0.1, 0, 0), (1.1, 0.1, 0), (0, 1.3, 0.2), (0.1, 0.2, 0.9)],
         "quadrilateral": [(0.0, 0.1), (0.2, 1.3), (1.4, -0.1), (1.1, 1.0)]}


def load(ctx, deep=False):
    """ask the specification what every member is"""
    recs, _, _ = ctx.tlc("FinatMappedFacts", env={"FINAT_DEEP": "yes" if deep else "no"}, workers=2)
    for r in recs:
        i = r["id"]
        FACTS["M:%s:%s:%d" % (i["n"], LETTER[i["c"]], i["k"])] = r
    return recs


@functools.lru_cache(None)
def geometry(cellname):
    from zoo import Geometry, QuadGeometry
    if cellname == "quadrilateral":
        return QuadGeometry(VERTS[cellname])
    return Geometry(cell(cellname), VERTS[cellname], h=SIZES[:DIM[cellname] + 1])


class MappedLeaf:
    variant = restrict = None

    def __init__(self, lid):
        self.id = lid
        _, self.fam, c, k = lid.split(":")
        self.cellname, self.deg = SHORT[c], int(k)

    def finat(self):
        import finat
        cls = getattr(finat, self.fam)
        k = self.deg
        if self.fam in ("BernardiRaugel", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1"):
            return cls(cell(self.cellname), k)
        if self.fam in ("GuzmanNeilanBubble", "BernardiRaugelBubble") or "degree" not in inspect.signature(cls.__init__).parameters:
            return cls(cell(self.cellname))
        return cls(cell(self.cellname), k)

    @functools.cached_property
    def own(self):
        return self.finat()

    @property
    def vsh(self):
        return tuple(FACTS[self.id]["vsh"])

    @functools.cached_property
    def entities(self):
        top = cell(self.cellname).get_topology()
        return [(d, e) for d in sorted(top) for e in sorted(top[d])]

    def numbering(self):
        ed = self.own.entity_dofs()
        return [[int(x) for x in ed[d][e]] for d, e in self.entities]

    @functools.lru_cache(None)
    def _table(self, order, key, shape):
        from finat.point_set import PointSet
        from mapped import plain
        from replay import finat_table
        ps = PointSet(np.frombuffer(key).reshape(shape))
        el = self.finat()
        with plain():
            res = el.basis_evaluation(order, ps, coordinate_mapping=geometry(self.cellname))
        return {a: t.transpose(1, 2, 0) for a, t in finat_table(res, ps, el).items()}

    def table(self, order, pts):
        pts = np.ascontiguousarray(np.asarray(pts, dtype=float))
        return self._table(order, pts.tobytes(), pts.shape)

    def embed(self, eidx, pts):
        return embed(cell(self.cellname), self.entities[eidx], pts)

    def facts(self):
        r = FACTS[self.id]
        return {"cls": "mapped", "cell": self.cellname, "nd": r["nd"], "ish": [r["nd"]], "vsh": r["vsh"], "ent": self.numbering(),
                "cx": "?", "fd": r["fd"], "deg": r["deg"], "map": r["map"], "perm": [], "pav": False, "du": False, "feq": False,
                "sup": [[] for _ in self.entities]}


def mismatches(lid):
    """what the element says of itself against the specification"""
    r, lf = FACTS[lid], leaf_of(lid)
    el, z = lf.own, []

    def same(what, got, want):
        if got != want:
            z.append("%s is %r instead of %r" % (what, got, want))
    num = lf.numbering()
    same("the number of DoFs per entity", [len(x) for x in num], r["on"])
    same("the set of DoFs", sorted(sum(num, [])), list(range(r["nd"])))
    same("the dimension", int(el.space_dimension()), r["nd"])
    same("the index shape", tuple(el.index_shape), (r["nd"],))
    same("the value shape", tuple(el.value_shape), tuple(r["vsh"]))
    same("the degree", el.degree, r["deg"])
    same("the form degree", -1 if el.formdegree is None else el.formdegree, r["fd"])
    same("the mapping", el.mapping, r["map"])
    same("the cell", type(el.cell).__name__, type(cell(lf.cellname)).__name__)
    same("the dimension of the complex", el.complex.get_spatial_dimension(), DIM[lf.cellname])
    return z


def leaf_of(lid):
    from catalog import leaf
    return leaf(lid)
