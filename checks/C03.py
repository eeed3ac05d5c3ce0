"""Support DoFs are exactly the functions that do not vanish on an entity."""
import foci
from attrs import has_bad
from harness import THOROUGH
from replay import build, by_entity, generate_many, key_count, leaves_of, ops_of, show
from tables import sample


def one(rec, out):
    import finat
    el = build(rec["term"])
    val, name = rec["val"], show(rec["term"])
    sig = ".".join(ops_of(rec["term"])) or "leaf"
    out.count("traces")
    out.case(name)
    d = el.entity_support_dofs()
    out.count("evaluations", len(val["ents"]))
    try:
        got = by_entity(val, d)
    except KeyError as e:
        out.fail("missing:" + sig, "%s: no support entry for entity %s" % (name, e), term=rec["term"])
        return
    if key_count(d) != len(val["ents"]):
        out.fail("entities:" + sig, "%s: support of %d entities, cell has %d" % (name, key_count(d), len(val["ents"])),
                 term=rec["term"])
    for i, (g, w) in enumerate(zip(got, val["sup"])):
        if sorted(int(x) for x in g) != w:
            out.fail("support:" + sig, "%s: support of %s is %s instead of %s" % (name, val["ents"][i], list(g), w),
                     term=rec["term"])
            break
    # the per-dimension helper gives the same answer
    k = {(d0): None for d0 in d}
    for dim in k:
        if finat.finiteelementbase.entity_support_dofs(el, dim) != d[dim]:
            out.fail("helper:" + sig, "%s: entity_support_dofs(elem, %s) differs from the element's" % (name, dim),
                     term=rec["term"])
    if len(out.samples) < 1:
        out.samples.append({"program": name, "support": val["sup"]})


LEAVES = ["CG1I", "CG3I", "DG2I", "GLL3I", "GL2I", "ILEG3I", "FDML3I", "CG1T", "CG4T", "DG2T", "CR1T", "BUB3T", "FBUB3T",
          "BERN3T", "KMV3T", "RT2T", "BDM2T", "BDFM2T", "N1C2T", "N2C2T", "REG1T", "HHJ1T", "CG3K", "CR1K", "BUB4K",
          "FBUB3K", "RT1K", "N1C1K", "S2Q", "S3Q", "DPC2Q", "S2H"]


def run(ctx):
    fs = [f(support=True) for f in foci.ALL]
    fs.append(dict(leaves=LEAVES, ops=["tfe", "brk"], shapes=[[2]], maxleaves=1, maxops=1, maxnd=120, support=True))
    todo = []
    n = 10**6 if THOROUGH else 60
    for f, recs in zip(fs, generate_many(ctx, fs)):
        # FInAT integrates with a quadrature rule of the element's degree: anisotropic flattened degrees are undefined
        recs = [r for r in recs if not has_bad(r["val"]["deg"]) or not {"tfe", "brk"} & set(ops_of(r["term"]))]
        todo += sample(recs, n, ctx.rng)
    ctx.pmap(one, todo)


BOUNDS = "all programs of the foci in lib/foci.py (sampled per constructor combination in the quick tier)"
