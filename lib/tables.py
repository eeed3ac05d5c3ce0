"""Compare a real element's evaluations with the model's symbolic basis."""
import itertools
import zlib

import numpy as np
import gem
from finat.point_set import PointSet, PointSingleton, TensorPointSet
from harness import THOROUGH
from catalog import DIM, leaf, random_points
from replay import (all_alphas, build, close, entity_cells, entity_points, expected, finat_table, leaves_of, maxdiff, ops_of,
                    plain, real_entity, show)


def rng_for(rec, salt=0):
    import harness
    return np.random.RandomState((zlib.crc32(show(rec["term"]).encode()) + 7919 * salt + 104729 * harness.SEED) % (2**31))


def structure(t):
    """Nested list of slots of the element's point structure (first summand for sums)."""
    if t["op"] == "leaf":
        return t["id"]
    if t["op"] == "tpe":
        return [structure(a) for a in t["args"]]
    return structure(t["args"][0])


def nested_ps(struct, cells, rng, sizes):
    """Build a TensorPointSet following `struct`; cells is an iterator of (dim, cellname)."""
    if isinstance(struct, list):
        return TensorPointSet([nested_ps(s, cells, rng, sizes) for s in struct])
    d, cn = next(cells)
    n = next(sizes) if d > 0 else 1
    return PointSet(random_points(d, n, rng, DIM[cn], cn))


def shallow(struct, cells, rng, sizes):
    """TensorPointSet at the top level only; inner factors are plain sets of combined points"""
    if not isinstance(struct, list):
        return nested_ps(struct, cells, rng, sizes)
    facs = []
    for s in struct:
        ps = nested_ps(s, cells, rng, sizes)
        facs.append(PointSet(np.array(ps.points)) if isinstance(ps, TensorPointSet) else ps)
    return TensorPointSet(facs)


def flatlist(struct):
    if isinstance(struct, list):
        return sum((flatlist(s) for s in struct), [])
    return [struct]


def point_sets(rec, eidx, rng, kinds):
    """yield (kind, point set, flat points)"""
    val, t = rec["val"], rec["term"]
    cells = entity_cells(val, eidx)
    struct = structure(t)
    sizes = lambda: itertools.cycle([2, 3, 4])
    for kind in kinds:
        if kind == "set":
            p = entity_points(val, eidx, 3, rng)
            yield kind, PointSet(p), p
        elif kind == "single":
            p = entity_points(val, eidx, 1, rng)
            yield kind, PointSingleton(p[0]), p
        elif kind == "tensor" and isinstance(struct, list):
            ps = nested_ps(struct, iter(cells), rng, sizes())
            yield kind, ps, flatpoints(ps, sum(d for d, _ in cells))
        elif kind == "shallow" and isinstance(struct, list) and any(isinstance(s, list) for s in struct):
            ps = shallow(struct, iter(cells), rng, sizes())
            yield kind, ps, flatpoints(ps, sum(d for d, _ in cells))
        elif kind == "regroup" and isinstance(struct, list) and any(isinstance(s, list) for s in struct):
            # factored, but not the way the element is: must be treated as a list of points
            ps = nested_ps(flatlist(struct), iter(cells), rng, sizes())
            yield kind, ps, flatpoints(ps, sum(d for d, _ in cells))


def flatpoints(ps, dim):
    n = int(np.prod([len(f.points) for f in leaf_sets(ps)], dtype=int))
    return np.asarray(ps.points, dtype=float).reshape(n, dim)


def literals(expr):
    from gem.node import traversal
    return [n for n in traversal([expr]) if isinstance(n, gem.Literal)]


def geometry_of(t):
    """the physical cell for a term with physically mapped leaves, else None"""
    from mappedleaf import geometry
    for i in leaves_of(t):
        if i.startswith("M:"):
            return geometry(leaf(i).cellname)
    return None


def check_deep(rec, elem, out, geo=None):
    """one derivative further than the rest, on the cell and one facet, for a sixth of the programs"""
    val = rec["val"]
    n, ne = val["cell"]["n"], len(val["ents"])
    if zlib.crc32(show(rec["term"]).encode()) % 6 and not THOROUGH or geo is not None \
            or val["nd"] * int(np.prod(val["vsh"], dtype=int)) > (60 if n < 3 else 30):
        return
    check_tables(rec, elem, out, order=3 if n < 3 else 2, kinds=("set",), entities=[ne - 1, max(0, ne - 2)], salt=2)


def check_tables(rec, elem, out, order=2, kinds=("set",), entities=None, salt=0, structure_preserved=False,
                 label="", coordinate_mapping=None):
    val = rec["val"]
    rng = rng_for(rec, salt)
    ents = range(len(val["ents"])) if entities is None else entities
    name = show(rec["term"])
    sig = ".".join(ops_of(rec["term"]))
    for e in ents:
        ent = real_entity(val, e)
        top = e == len(val["ents"]) - 1
        for kind, ps, pts in point_sets(rec, e, rng, kinds):
            want = expected(val, order, e, pts)
            for entity in ([None, ent] if top and kind == "set" else [ent]):
                if coordinate_mapping is None:
                    res = elem.basis_evaluation(order, ps, entity=entity)
                else:
                    from mapped import plain as geometry_as_numbers
                    with geometry_as_numbers():
                        res = elem.basis_evaluation(order, ps, entity=entity, coordinate_mapping=coordinate_mapping)
                got = finat_table(res, ps, elem)
                out.count("evaluations", len(got))
                out.case([label, name, kind, str(ent), order])
                if set(got) != set(want):
                    out.fail("alphas:%s:%s" % (sig, kind), "%s on %s %s: derivatives %s instead of %s" % (
                        name, ent, kind, sorted(got)[:8], sorted(want)[:8]), term=rec["term"])
                    continue
                for a in want:
                    if not close(got[a], want[a]):
                        out.fail("value:%s:%s" % (sig, kind),
                                 "%s on entity %s, %s points, derivative %s: %s" % (
                                     name, ent, kind, a, maxdiff(got[a], want[a])),
                                 term=rec["term"], entity=plain(ent), alpha=a, points=plain(pts),
                                 got=plain(got[a])[:1], want=plain(want[a])[:1])
                        break
            if structure_preserved and kind in ("tensor", "shallow"):
                per = [len(f.points) for f in leaf_sets(ps)]
                nfac = len(per)
                bound = max(n * leaf(s["l"]).fiat.space_dimension() * int(np.prod(leaf(s["l"]).vsh, dtype=int))
                            for L in val["lay"] for n in per for s in L["slots"])
                for a, expr in res.items():
                    big = [l.array.size for l in literals(expr) if l.array.size > bound]
                    if big and nfac > 1:
                        out.fail("structure:%s" % sig, "%s on %s, derivative %s: a table of size %d was built; no "
                                 "factor table exceeds %d" % (name, ent, a, max(big), bound), term=rec["term"])
                        break
                expr = res[tuple([0] * len(next(iter(res))))]
                if set(expr.free_indices) - set(ps.indices):
                    out.fail("free:%s" % sig, "%s: foreign free indices" % name, term=rec["term"])


def leaf_sets(ps):
    if isinstance(ps, TensorPointSet):
        return sum((leaf_sets(f) for f in ps.factors), [])
    return [ps]


def sample(recs, n, rng, key=None):
    """Choose n records covering every class (by key) as evenly as possible; deterministic in rng."""
    key = key or (lambda r: tuple(ops_of(r["term"])))
    groups = {}
    for r in recs:
        groups.setdefault(key(r), []).append(r)
    for g in groups.values():
        rng.shuffle(g)
    out = []
    names = sorted(groups, key=str)
    while len(out) < n and any(groups.values()):
        for k in names:
            if groups[k] and len(out) < n:
                out.append(groups[k].pop())
    return out
