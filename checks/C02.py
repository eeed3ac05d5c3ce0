"""Tensor-product evaluation is the product of its factors."""
from harness import THOROUGH
from replay import build, generate, ops_of, show
from tables import check_tables, rng_for, sample

ORD = 3


def one(rec, out):
    el = build(rec["term"])
    n = rec["val"]["cell"]["n"]
    ne = len(rec["val"]["ents"])
    out.count("traces")
    if n == 1 or ne <= 9:
        check_tables(rec, el, out, order=3 if n < 3 else 2, kinds=("set", "tensor"), structure_preserved=True)
        check_tables(rec, el, out, order=1, kinds=("single", "shallow", "regroup"), salt=1)
    else:
        rng = rng_for(rec)
        ents = sorted(set(rng.choice(ne, size=min(ne, 5), replace=False)) | {ne - 1})
        check_tables(rec, el, out, order=0, kinds=("set",))
        check_tables(rec, el, out, order=2, kinds=("set", "tensor"), entities=ents, structure_preserved=True)
        check_tables(rec, el, out, order=1, kinds=("single", "shallow", "regroup"), entities=ents, salt=1)
    if len(out.samples) < 1:
        out.samples.append(show(rec["term"]))


def run(ctx):
    I = ["CG1I", "CG2I", "CG3I", "DG0I", "DG1I", "GLL2I", "GL1I", "ILEG3I", "LEG2I"]
    foci = [
        dict(leaves=I, ops=["tpe", "flat"], maxleaves=2, maxops=2, emit=["tpe", "flat"]),
        dict(leaves=["CG1I", "DG1I", "CG1T", "CG2T", "DG1T", "RT1T", "N1C1T", "BDM1T", "CR1T", "BUB3T"],
             ops=["tpe"], maxleaves=2, maxops=1, emit=["tpe"]),
        dict(leaves=["CG1I", "CG2I", "DG0I", "DG1I"], ops=["tpe", "flat"], tpek=[2, 3], maxleaves=3, maxops=3,
             maxnd=27, emit=["tpe", "flat"]),
        dict(leaves=["CG1I", "DG1I", "S2Q", "DPC1Q", "CG1T", "RT1T"], ops=["tpe", "flat", "hdiv", "hcurl", "tfe"],
             shapes=[[2]], tpek=[2], maxleaves=3, maxops=4 if THOROUGH else 3, maxnd=24, emit=["tpe", "flat"]),
    ]
    want = [90, 60, 60, 60] if not THOROUGH else [10**6, 10**6, 600, 800]
    todo = []
    for f, w in zip(foci, want):
        recs = [r for r in generate(ctx, f) if "tpe" in ops_of(r["term"])]
        todo += sample(recs, w, ctx.rng, key=lambda r: (tuple(ops_of(r["term"])), str(r["val"]["vsh"]), r["val"]["cell"]["n"]))
    ctx.pmap(one, todo)


BOUNDS = "products of 2-3 factors over interval/triangle/quadrilateral leaves; derivative order <= 3; all entities"
