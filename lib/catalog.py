"""Leaf elements: how FIAT (the environment) describes each, and how FInAT is asked for it."""
import functools
import itertools

import numpy as np
import FIAT
from FIAT.reference_element import (UFCHexahedron, UFCInterval, UFCQuadrilateral, UFCTetrahedron, UFCTriangle)

CELLS = {"interval": UFCInterval, "triangle": UFCTriangle, "tetrahedron": UFCTetrahedron,
         "quadrilateral": UFCQuadrilateral, "hexahedron": UFCHexahedron}
SHORT = {"I": "interval", "T": "triangle", "K": "tetrahedron", "Q": "quadrilateral", "H": "hexahedron"}
DIM = {"interval": 1, "triangle": 2, "tetrahedron": 3, "quadrilateral": 2, "hexahedron": 3}


@functools.lru_cache(None)
def cell(name):
    return CELLS[name]()


# short name -> (family, keyword arguments)
FAMILIES = {
    "CG": ("Lagrange", {}), "DG": ("DiscontinuousLagrange", {}),
    "CGe": ("Lagrange", {"variant": "equispaced"}), "DGe": ("DiscontinuousLagrange", {"variant": "equispaced"}),
    "GLL": ("GaussLobattoLegendre", {}), "GL": ("GaussLegendre", {}),
    "LEG": ("Legendre", {}), "ILEG": ("IntegratedLegendre", {}),
    "CR": ("CrouzeixRaviart", {}), "BUB": ("Bubble", {}), "FBUB": ("FacetBubble", {}), "BERN": ("Bernstein", {}),
    "KMV": ("KongMulderVeldhuizen", {}), "DTAY": ("DiscontinuousTaylor", {}),
    "RT": ("RaviartThomas", {}), "BDM": ("BrezziDouglasMarini", {}), "BDFM": ("BrezziDouglasFortinMarini", {}),
    "N1C": ("Nedelec", {}), "N2C": ("NedelecSecondKind", {}),
    "RTp": ("RaviartThomas", {"variant": "point"}), "BDMp": ("BrezziDouglasMarini", {"variant": "point"}),
    "N1Cp": ("Nedelec", {"variant": "point"}), "N2Cp": ("NedelecSecondKind", {"variant": "point"}),
    "REG": ("Regge", {}), "HHJ": ("HellanHerrmannJohnson", {}),
    "GLSA": ("GopalakrishnanLedererSchoberlFirstKind", {}), "GLSB": ("GopalakrishnanLedererSchoberlSecondKind", {}),
    "S": ("Serendipity", {}), "DPC": ("DPC", {}),
    "TSF": ("TrimmedSerendipityFace", {}), "TSD": ("TrimmedSerendipityDiv", {}), "TSE": ("TrimmedSerendipityEdge", {}),
    "TSC": ("TrimmedSerendipityCurl", {}), "BDMCE": ("BrezziDouglasMariniCubeEdge", {}),
    "BDMCF": ("BrezziDouglasMariniCubeFace", {}),
    "FDML": ("FDMLagrange", {}), "FDMDL": ("FDMDiscontinuousLagrange", {}), "FDMQ": ("FDMQuadrature", {}),
    "FDMBH": ("FDMBrokenH1", {}), "FDMBL": ("FDMBrokenL2", {}), "FDMH": ("FDMHermite", {}),
    "TR": ("HDivTrace", {}),
    "CGa": ("Lagrange", {"variant": "alfeld"}), "CGi": ("Lagrange", {"variant": "iso"}),
    "DGa": ("DiscontinuousLagrange", {"variant": "gl,alfeld"}),
}
# point-evaluation duals (so that a FInAT dual basis exists) and nodal families
NOT_DUAL = {"DTAY", "FDMH"}


class Leaf:
    def __init__(self, lid):
        # e.g. "CG2I", "RT1T", "R:CG2T:facet"
        self.id = lid
        self.restrict = None
        if lid.startswith("R:"):
            _, lid, self.restrict = lid.split(":")
        self.variant = None
        if lid.startswith("V:"):
            _, lid, self.variant = lid.split(":")
        self.cellname = SHORT[lid[-1]]
        body = lid[:-1]
        i = len(body)
        while body[i - 1].isdigit():
            i -= 1
        self.fam, self.deg = body[:i], int(body[i:])

    @functools.cached_property
    def fiat(self):
        name, kw = FAMILIES[self.fam]
        if self.variant:
            kw = {"variant": self.variant}
        el = getattr(FIAT, name)(cell(self.cellname), self.deg, **kw)
        if self.restrict:
            el = FIAT.RestrictedElement(el, restriction_domain=self.restrict, take_closure=True)
        return el

    def finat(self):
        import finat
        name, kw = FAMILIES[self.fam]
        if self.variant:
            kw = {"variant": self.variant}
        el = getattr(finat, name)(cell(self.cellname), self.deg, **kw)
        if self.restrict:
            el = finat.RestrictedElement(el, self.restrict)
        return el

    @property
    def vsh(self):
        return tuple(self.fiat.value_shape())

    @functools.cached_property
    def entities(self):
        """(dim, number) in canonical order"""
        top = cell(self.cellname).get_topology()
        return [(d, e) for d in sorted(top) for e in sorted(top[d])]

    @functools.lru_cache(None)
    def _table(self, order, key, shape):
        pts = np.frombuffer(key).reshape(shape)
        tab = self.fiat.tabulate(order, pts)
        nc = int(np.prod(self.vsh, dtype=int))
        res = {}
        for a, t in tab.items():
            if isinstance(t, Exception):
                res[a] = t
            else:
                res[a] = np.asarray(t, dtype=float).reshape(self.fiat.space_dimension(), nc, shape[0])
        return res

    def table(self, order, pts):
        """Tabulation at points of the cell: alpha -> (dof, comp, point)."""
        pts = np.ascontiguousarray(np.asarray(pts, dtype=float))
        return self._table(order, pts.tobytes(), pts.shape)

    def embed(self, eidx, pts):
        """Map points of entity eidx's reference cell into the cell."""
        c = cell(self.cellname)
        return embed(c, self.entities[eidx], pts)

    @functools.cached_property
    def restrictable(self):
        """can FIAT restrict this element (some domain gives an element, the others are empty)?"""
        ok = False
        for dom in ("interior", "vertex", "facet"):
            try:
                FIAT.RestrictedElement(self.fiat, restriction_domain=dom, take_closure=True)
                ok = True
            except ValueError:
                pass
            except Exception:
                return False
        return ok

    @functools.cached_property
    def dual(self):
        """(points, weights[dof, point, comp]) of the point-evaluation dual basis"""
        pts, idx, ent = [], {}, []
        for i, node in enumerate(self.fiat.dual_basis()):
            assert not node.deriv_dict
            for p, wcs in node.get_point_dict().items():
                k = idx.setdefault(p, len(idx))
                for w, c in wcs:
                    comp = int(np.ravel_multi_index(c, self.vsh)) if self.vsh else 0
                    ent.append((i, k, comp, float(w)))
        W = np.zeros((self.fiat.space_dimension(), len(idx), int(np.prod(self.vsh, dtype=int))))
        for i, k, c, w in ent:
            W[i, k, c] += w
        return np.array(list(idx), dtype=float).reshape(len(idx), -1), W

    @functools.cached_property
    def support(self):
        """per entity, the (dof, comp) pairs not identically zero there"""
        rng = np.random.RandomState(7)
        out = []
        for i, (d, e) in enumerate(self.entities):
            n = 1 if d == 0 else 12
            pts = self.embed(i, random_points(d, n, rng, DIM[self.cellname], self.cellname))
            t = self.table(0, pts)
            (tab,) = t.values()
            if isinstance(tab, Exception):
                return None
            big = np.abs(tab).max(axis=2) > 1e-9
            out.append([[int(a), int(b)] for a, b in zip(*np.nonzero(big))])
        return out

    @property
    def split(self):
        """how the family subdivides the cell"""
        if self.variant or self.id.startswith("R:"):
            return "?"
        return {"CGa": "alfeld", "DGa": "alfeld", "CGi": "iso"}.get(self.fam, "")

    def facts(self):
        f = self.fiat
        ents = self.entities
        ed = f.entity_dofs()
        m = set(f.mapping())
        try:
            if f.dual is None:
                raise NotImplementedError
            perms = f.entity_permutations()
            plist = [[{"o": [int(o)] if not isinstance(o, tuple) else [int(x) for x in o],
                       "p": [int(x) for x in perms[d][e][o]]} for o in sorted(perms[d][e])] for d, e in ents]
            pav = True
        except NotImplementedError:
            plist, pav = [], False
        if self.fam in ("TSF", "TSD", "TSE", "TSC", "BDMCE", "BDMCF"):
            plist, pav = [], False
        fd = f.get_formdegree()
        return {"cls": "fiat", "cell": self.cellname, "nd": int(f.space_dimension()), "ish": [int(f.space_dimension())],
                "vsh": [int(x) for x in self.vsh], "ent": [[int(x) for x in ed[d][e]] for d, e in ents],
                "fd": -1 if fd is None else -2 if isinstance(fd, tuple) else int(fd), "deg": int(f.degree()),
                "cx": self.split, "map": m.pop() if len(m) == 1 else "none", "perm": plist, "pav": pav,
                "du": dual_ok(f), "feq": True, "sup": self.support or [[] for _ in ents]}


def dual_ok(f):
    try:
        return all(len(d.deriv_dict) == 0 for d in f.dual_basis())
    except Exception:
        return False


def embed(c, entity, pts):
    pts = np.asarray(pts, dtype=float)
    d, e = entity
    if d == c.get_dimension() or (isinstance(d, tuple) and d == c.get_dimension()):
        return pts
    tr = c.get_entity_transform(d, e)
    return np.array([np.asarray(tr(p), dtype=float).reshape(-1) for p in pts]).reshape(len(pts), -1)


def random_points(d, n, rng, celldim, cellname):
    """n points strictly inside the reference entity of dimension d (simplex, or cube for cube cells)"""
    if d == 0:
        return np.zeros((n, 0))
    if cellname in ("quadrilateral", "hexahedron"):
        return 0.05 + 0.9 * rng.rand(n, d)
    p = rng.dirichlet(np.ones(d + 1) * 2.0, n)
    return np.ascontiguousarray(p[:, 1:])


@functools.lru_cache(None)
def leaf(lid):
    if lid.startswith("M:"):
        from mappedleaf import MappedLeaf
        return MappedLeaf(lid)
    return Leaf(lid)


def catalog(ids):
    return {i: leaf(i).facts() for i in ids}
