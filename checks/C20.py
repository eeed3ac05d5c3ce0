"""UFL elements are values: equality, hashing, repr and pickling agree."""
import copy
import json
import os
import pickle
import subprocess
import sys
import zlib

import uflterms as ut

CHILD = """
import sys, json, pickle
sys.path[:0] = %r
import uflterms as ut
terms = json.load(open(%r))
data = pickle.load(open(%r, "rb"))
bad = []
for t, (r, h, blob) in zip(terms, data):
    e = ut.build(t, 1)
    f = pickle.loads(blob)
    if repr(e) != r or hash(e) != h or e != f or hash(f) != h or f not in {e} or e._ufl_signature_data_() != r:
        bad.append([ut.show(t), repr(e), r, hash(e) - h])
print(json.dumps(bad))
"""


def namespace():
    import finat.ufl as fu
    import ufl
    ns = {n: getattr(fu, n) for n in dir(fu)}
    ns.update({n: ufl.Cell(n) for n in ("vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "prism", "pyramid", "pentatope", "tesseract")})
    ns.update(TensorProductCell=ufl.TensorProductCell, Cell=ufl.Cell)
    return ns


def shape_of(t):
    return ".".join(ut.ops_of(t)[:3])


def value(rec, out):
    """one description, written in several ways"""
    t, norm = rec["term"], rec["norm"]
    name, shape = ut.show(t), shape_of(t)
    out.count("traces")
    out.case(name)
    es = [ut.build(t, s) for s in range(3)] + [ut.build(norm, zlib.crc32(name.encode()) % 6)]
    r, h = repr(es[0]), hash(es[0])
    for e in es[1:]:
        out.count("evaluations")
        if not (e == es[0]) or es[0] != e or hash(e) != h or repr(e) != r or e not in {es[0]: 1} or e < es[0] or es[0] < e:
            out.fail("same:" + shape, "%s written differently is a different element: %r and %r" % (name, r, e), term=t)
            return
    e = es[0]
    for how, make in (("pickle", lambda: pickle.loads(pickle.dumps(e))), ("pickle2", lambda: pickle.loads(pickle.dumps(e, 2))),
                      ("copy", lambda: copy.copy(e)), ("deepcopy", lambda: copy.deepcopy(e)), ("eval", lambda: eval(r, NS))):
        out.count("evaluations")
        try:
            f = make()
            ok = f == e and hash(f) == h and repr(f) == r and type(f) is type(e) and f.mapping() == e.mapping() and f.degree() == e.degree() \
                and f.embedded_superdegree == e.embedded_superdegree and f.variant() == e.variant() and f.cell == e.cell \
                and f.reference_value_shape == e.reference_value_shape and f.num_sub_elements == e.num_sub_elements
        except Exception as x:
            f, ok = x, False
        if not ok:
            out.fail("%s:%s" % (how, shape), "%s of %s is %r" % (how, name, f), term=t)
    if e == 1 or e == r or e is None or not (e != r):
        out.fail("foreign:" + shape, "%s equals something that is no element" % name, term=t)


def pairs(group, out):
    """different descriptions are different elements"""
    es = [ut.build(t, i) for i, t in enumerate(group)]
    for i, a in enumerate(es):
        for j in range(i):
            b = es[j]
            out.count("evaluations")
            if a == b or b == a or not (a != b) or repr(a) == repr(b) or (a < b) == (b < a):
                out.fail("different:" + shape_of(group[i]), "%s and %s are not told apart" % (ut.show(group[i]), ut.show(group[j])), terms=[group[i], group[j]])
                return
    if len(set(es)) != len(es):
        out.fail("hash:" + shape_of(group[0]), "a set merges %s" % [ut.show(t) for t in group][:4])
    if group:
        out.count("traces")


def skeleton(t):
    return json.dumps([t["op"], [skeleton(a) for a in t["args"]]])


def run(ctx):
    global NS
    from harness import THOROUGH
    recs = [r for r in ut.generate(ctx, full=THOROUGH) if r["a"]["ok"]]
    NS = namespace()
    ctx.pmap(value, recs)
    norms = {}
    for r in recs:
        norms.setdefault(ut.key(r["norm"]), r["norm"])
    terms = [norms[k] for k in sorted(norms)]
    # near relatives: same construction, different data; and the same parts put together differently
    groups = {}
    for t in terms:
        groups.setdefault(skeleton(t), []).append(t)
        groups.setdefault(json.dumps(sorted(ut.show(a) for a in t["args"])) if t["args"] else "leaf", []).append(t)
    size = 120 if THOROUGH else 40
    chunks = []
    for k in sorted(groups):
        g = groups[k][:]
        ctx.rng.shuffle(g)
        chunks += [g[i:i + size] for i in range(0, min(len(g), 20 * size), size)]
    mixed = terms[:]
    ctx.rng.shuffle(mixed)
    chunks += [mixed[i:i + size] for i in range(0, len(mixed), size)]
    ctx.pmap(pairs, [c for c in chunks if len(c) > 1])
    # other processes, with other string hashing
    pick = mixed[:400]
    data = []
    for t in pick:
        e = ut.build(t, 0)
        data.append((repr(e), hash(e), pickle.dumps(e)))
    tj, pj = ctx.jsonfile("terms.json", pick), os.path.join(ctx.tmp, "data.pkl")
    with open(pj, "wb") as f:
        pickle.dump(data, f)

    def other(seed, out):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD % ([x for x in sys.path if x], tj, pj)], env=env, capture_output=True, text=True)
        out.count("evaluations", len(pick))
        if p.returncode:
            if "/finat/" in p.stderr:
                out.fail("process", "another process raised %s" % p.stderr[-600:])
                return
            raise RuntimeError(p.stderr[-2000:])
        bad = json.loads(p.stdout.strip().splitlines()[-1])
        if bad:
            out.fail("process", "hash seed %s: %s" % (seed, bad[0]), bad=bad[:5])
    for s in (0, 1, 12345):
        ctx.direct(lambda _, out: other(s, out))


BOUNDS = "UFL terms over 19 leaf families on simplices, products and quadrilaterals with up to 2 (thorough: 3) composition steps; 3 hash seeds"
