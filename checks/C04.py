"""Enriched and mixed elements evaluate as the concatenation of their parts."""
import foci
import mappedleaf
from harness import THOROUGH
from replay import L, O, TF, build, generate_many, ops_of, show
from tables import check_deep, check_tables, geometry_of, rng_for, sample


def one(rec, out):
    import finat
    el = build(rec["term"])
    t = rec["term"]
    out.count("traces")
    geo = geometry_of(rec["term"])
    n, ne = rec["val"]["cell"]["n"], len(rec["val"]["ents"])
    rng = rng_for(rec)
    ents = range(ne) if ne <= 7 else sorted(set(rng.choice(ne, size=5, replace=False)) | {ne - 1})
    check_tables(rec, el, out, order=2 if n < 3 else 1, kinds=("set",), entities=ents, coordinate_mapping=geo)
    check_tables(rec, el, out, order=1, kinds=("single", "tensor"), entities=ents, salt=1,
                 coordinate_mapping=geo)
    check_deep(rec, el, out, geo)
    if t["op"] == "enr" and len(t["args"]) > 1:
        parts = [build(a) for a in t["args"]]
        flat = sum((list(p.elements) if isinstance(p, finat.EnrichedElement) else [p] for p in parts), [])
        e2 = finat.EnrichedElement(parts)
        out.count("evaluations", 2)
        if len(e2.elements) != len(flat):
            out.fail("nesting", "%s: nested enrichment has %d parts, not %d" % (show(t), len(e2.elements), len(flat)),
                     term=t)
        single = finat.EnrichedElement([parts[0]])
        if not isinstance(parts[0], finat.EnrichedElement) and single is not parts[0]:
            out.fail("single", "%s: enriching a single element does not return it" % show(t), term=t)
    if len(out.samples) < 1:
        out.samples.append(show(t))


def run(ctx):
    fs = [foci.simplex(ops=("enr", "mix", "tfe"), emit=["enr", "mix"], maxops=2),
          foci.simplex3(ops=("enr", "mix"), emit=["enr", "mix"]),
          foci.tets(ops=("enr", "mix"), emit=["enr", "mix"]),
          foci.squaresums(), foci.flatsums(ops=("enr", "mix"), emit=["enr", "mix"]),
          foci.wedgesums(), foci.hexsums(ops=("enr", "mix")),
          dict(leaves=["CG1I", "CG2I", "DG0I", "BUB2I"], ops=["enr", "mix"], sumk=[1, 2, 3], maxleaves=3, maxops=2),
          dict(leaves=["REG0T", "CG1T", "DG0T", "N1C1T"], terms=[TF("DG0T", [2, 2]), TF("CG1T", [2, 3], True)],
               ops=["enr", "mix"], sumk=[2, 3], maxleaves=3, maxops=1, maxnd=60)]
    fs += foci.mapped(("enr", "mix", "tfe"), emit=["enr", "mix"])
    mappedleaf.load(ctx)
    todo = []
    for f, recs in zip(fs, generate_many(ctx, fs)):
        recs = [r for r in recs if "enr" in ops_of(r["term"]) or "mix" in ops_of(r["term"])]
        todo += sample(recs, 10**6 if THOROUGH else 45, ctx.rng, key=lambda r: (tuple(ops_of(r["term"])), str(r["val"]["vsh"])))
    ctx.pmap(one, todo)
    ctx.direct(mapped_parts)


def mapped_parts(_, out):
    """Geometry reaches every physically mapped part of a sum."""
    import zoo
    zoo.check_mapped_wrappers(out, ("enr", "mix"))


BOUNDS = "sums of 1-3 parts over simplex, quadrilateral, prism and hexahedral elements; derivative order <= 3 (2 in three dimensions)"
