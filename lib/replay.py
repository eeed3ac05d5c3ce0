"""Replay abstract element programs (emitted by TLC) into the real finat and compare."""
import itertools
import json

import numpy as np
import gem
from gem.interpreter import evaluate

import finat
from finat.point_set import PointSet, PointSingleton, TensorPointSet
from catalog import CELLS, DIM, leaf, random_points

RTOL = 1e-8


# ----------------------------------------------------------------- terms
def show(t):
    op = t["op"]
    if op == "leaf":
        return t["id"]
    a = ",".join(show(x) for x in t["args"])
    if op == "tfe":
        return "tfe(%s,%s%s)" % (a, t["shape"], "^T" if t["tr"] else "")
    return "%s(%s)" % (op, a)


def leaves_of(t):
    if t["op"] == "leaf":
        return [t["id"]]
    return sum((leaves_of(a) for a in t["args"]), [])


def ops_of(t):
    if t["op"] == "leaf":
        return []
    return [t["op"]] + sum((ops_of(a) for a in t["args"]), [])


def build(t, memo=None):
    """Apply the real constructors.  With memo, equal subterms are shared objects."""
    key = json.dumps(t, sort_keys=True)
    if memo is not None and key in memo:
        return memo[key]
    op = t["op"]
    if op == "leaf":
        e = leaf(t["id"]).finat()
    else:
        args = [build(a, memo) for a in t["args"]]
        if op == "tpe":
            e = finat.TensorProductElement(args)
        elif op == "flat":
            e = finat.FlattenedDimensions(args[0])
        elif op == "enr":
            e = finat.EnrichedElement(args)
        elif op == "mix":
            e = finat.MixedElement(args)
        elif op == "hdiv":
            e = finat.HDivElement(args[0])
        elif op == "hcurl":
            e = finat.HCurlElement(args[0])
        elif op == "tfe":
            e = finat.TensorFiniteElement(args[0], tuple(t["shape"]), transpose=t["tr"])
        elif op == "brk":
            e = finat.DiscontinuousElement(args[0])
        elif op == "restr":
            e = finat.RestrictedElement(args[0], t["id"])
        else:
            raise ValueError(op)
    if memo is not None:
        memo[key] = e
    return e


# ------------------------------------------------------- numeric helpers
def mis(m, n):
    if m == 1:
        return [(n,)]
    return [(i,) + r for i in range(n, -1, -1) for r in mis(m - 1, n - i)]


def all_alphas(dim, order):
    return [a for o in range(order + 1) for a in mis(dim, o)]


def close(a, b, tol=RTOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    return bool(np.all(np.abs(a - b) <= tol * scale)) and bool(np.all(np.isfinite(a)))


def maxdiff(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "shapes %s vs %s" % (a.shape, b.shape)
    return "max |diff| %.3g" % float(np.max(np.abs(a - b)))


def geval(expr, indices, bindings=None):
    """Evaluate a gem expression; leading axes follow `indices`, broadcasting over those absent."""
    r, = evaluate([expr], bindings=bindings)
    fids = list(r.fids)
    extra = [i for i in fids if i not in indices]
    if extra:
        raise AssertionError("unexpected free indices %s in the result" % (extra,))
    arr = np.asarray(r.arr)
    order = [fids.index(i) for i in indices if i in fids]
    arr = arr.transpose(order + list(range(len(fids), arr.ndim)))
    pos = 0
    shape = []
    for i in indices:
        if i in fids:
            shape.append(arr.shape[pos])
            pos += 1
        else:
            arr = np.expand_dims(arr, pos)
            arr = np.repeat(arr, i.extent, axis=pos)
            shape.append(i.extent)
            pos += 1
    return arr


def finat_table(res, ps, elem, bindings=None):
    """basis_evaluation result -> alpha -> (npoints, nd, ncomp)"""
    n = int(np.prod([i.extent for i in ps.indices], dtype=int))
    nd = int(np.prod(elem.index_shape, dtype=int))
    nc = int(np.prod(elem.value_shape, dtype=int))
    out = {}
    for alpha, expr in res.items():
        if tuple(expr.shape) != tuple(elem.index_shape) + tuple(elem.value_shape):
            raise AssertionError("shape %s is not index shape %s + value shape %s" % (
                expr.shape, elem.index_shape, elem.value_shape))
        arr = geval(expr, ps.indices, bindings)
        out[tuple(int(a) for a in alpha)] = arr.reshape(n, nd, nc)
    return out


# --------------------------------------------- expected values (from the model)
def slot_split(alpha, slots):
    return [tuple(alpha[s["off"]:s["off"] + s["d"]]) for s in slots]


def slot_points(val, lay, eidx, pts):
    """Coordinates in each slot's leaf cell of points given in the entity's coordinates."""
    L = val["lay"][lay]
    out, pos = [], 0
    for s, slot in enumerate(L["slots"]):
        le = leaf(slot["l"])
        le_idx = L["ent"][eidx][s]
        d, _ = le.entities[le_idx]
        out.append(le.embed(le_idx, pts[:, pos:pos + d]))
        pos += d
    assert pos == pts.shape[1], (pos, pts.shape)
    return out


def tab_at(t, delta):
    x = t[delta]
    if isinstance(x, Exception):
        raise x
    return x


def expected(val, order, eidx, pts, alphas=None):
    """alpha -> (npoints, nd, ncomp) from the symbolic basis and FIAT leaf tables."""
    dim = sum(s["d"] for s in val["lay"][0]["slots"])
    alphas = alphas or all_alphas(dim, order)
    npts = len(pts)
    tabs = []
    for q, L in enumerate(val["lay"]):
        xs = slot_points(val, q, eidx, pts)
        tabs.append([leaf(s["l"]).table(order, x) for s, x in zip(L["slots"], xs)])
    nc = len(val["bas"][0])
    res = {}
    for alpha in alphas:
        arr = np.zeros((npts, val["nd"], nc))
        tq = {}
        for d, row in enumerate(val["bas"]):
            for c, x in enumerate(row):
                if not x:
                    continue
                q = x[0] - 1
                L = val["lay"][q]
                if q not in tq:
                    tq[q] = [tab_at(t, dl) for t, dl in zip(tabs[q], slot_split(alpha, L["slots"]))]
                v = float(x[1])
                for s, t in enumerate(tq[q]):
                    v = v * t[x[2 + 2 * s], x[3 + 2 * s]]
                arr[:, d, c] = v
        res[alpha] = arr
    return res


# ------------------------------------------------------------ entities
def real_entity(val, eidx):
    """the (dim, id) key the real element uses"""
    e = val["ents"][eidx]
    return (key_dim(val["cell"], e["d"]), e["e"])


def key_dim(cell, d):
    if cell["k"] == "p":
        return tuple(d)
    assert len(d) == 1
    return d[0]


def entity_cells(val, eidx):
    """For each simplex slot entity its dimension, via layout 0"""
    L = val["lay"][0]
    out = []
    for s, slot in enumerate(L["slots"]):
        le = leaf(slot["l"])
        d, _ = le.entities[L["ent"][eidx][s]]
        out.append((d, le.cellname))
    return out


def entity_points(val, eidx, n, rng):
    cols = []
    for d, cn in entity_cells(val, eidx):
        cols.append(random_points(d, n, rng, DIM[cn], cn))
    return np.hstack(cols) if cols else np.zeros((n, 0))


def flat_cell_slots(cell, e):
    """dimension of each top-level factor of the (product) cell for entity e"""
    return e["d"]


def factored_points(val, eidx, rng, sizes):
    """One random point set per top-level slot of layout 0 -> (TensorPointSet, flat points)"""
    facs = []
    for i, (d, cn) in enumerate(entity_cells(val, eidx)):
        n = sizes[i % len(sizes)] if d > 0 else 1
        facs.append(random_points(d, n, rng, DIM[cn], cn))
    pts = np.array([np.concatenate(t) for t in itertools.product(*facs)])
    return facs, pts.reshape(len(pts), -1)


def cell_matches(cell, real):
    """Is the real FIAT cell the one the model says?"""
    from FIAT.reference_element import TensorProductCell
    if cell["k"] == "s":
        return type(real) is CELLS[{1: "interval", 2: "triangle", 3: "tetrahedron"}[cell["n"]]]
    if cell["k"] == "f":
        return type(real) is CELLS[{2: "quadrilateral", 3: "hexahedron"}[cell["n"]]]
    return isinstance(real, TensorProductCell) and len(real.cells) == len(cell["cs"]) and \
        all(cell_matches(c, r) for c, r in zip(cell["cs"], real.cells))


def by_entity(val, real_dict):
    """real {dim: {ent: X}} -> list in the model's canonical entity order (raises KeyError if missing)"""
    return [real_dict[d][e] for d, e in (real_entity(val, i) for i in range(len(val["ents"])))]


def key_count(real_dict):
    return sum(len(v) for v in real_dict.values())


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x


# ------------------------------------------------------- model generation
def L(i):
    return dict(op="leaf", id=i, args=[], shape=[], tr=False)


def O(op, *args):
    return dict(op=op, id="", args=[L(a) if isinstance(a, str) else a for a in args], shape=[], tr=False)


def TF(a, shape, tr=False):
    return dict(op="tfe", id="", args=[L(a) if isinstance(a, str) else a], shape=list(shape), tr=tr)


BASE_FOCUS = dict(terms=[], leaves=[], ops=[], maxleaves=3, maxops=3, maxstack=3, maxnd=64, shapes=[], tpek=[2], sumk=[2],
                  emit=[], doms=[], support=False, rejects=False, perms=False)


def generate(ctx, focus, simulate=None, depth=12, seed=None, workers=4):
    """Run FinatMachine on a focus; return emitted records, deduplicated by term."""
    from catalog import catalog
    f = dict(BASE_FOCUS, **focus)
    n = ctx.notes.setdefault("_gen", 0)
    ctx.notes["_gen"] = n + 1
    env = {"FINAT_PERMS": "yes" if f["perms"] else "no",
           "FINAT_FOCUS": ctx.jsonfile("focus%d.json" % n, f),
           "FINAT_CATALOG": ctx.jsonfile("catalog%d.json" % n, catalog(sorted(set(f["leaves"]) | {x for t in f["terms"] for x in leaves_of(t)})))}
    recs, out, ok = ctx.tlc("FinatMachine", env=env, simulate=simulate, depth=depth, seed=seed, workers=workers)
    seen, res = set(), []
    for r in recs:
        k = json.dumps(r["term"], sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(r)
    res.sort(key=lambda r: json.dumps(r["term"], sort_keys=True))
    return res


def generate_many(ctx, foci, procs=4):
    """generate() for several foci concurrently; returns the list of record lists"""
    from concurrent.futures import ThreadPoolExecutor
    from catalog import catalog
    for f in foci:      # fill the leaf cache outside the threads
        catalog(sorted(set(f.get("leaves", [])) | {x for t in f.get("terms", []) for x in leaves_of(t)}))
    with ThreadPoolExecutor(procs) as ex:
        return list(ex.map(lambda f: generate(ctx, f, workers=2), foci))
