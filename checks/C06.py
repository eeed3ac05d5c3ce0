"""Tensor-valued elements replicate the base per component in the declared layout."""
import foci
import mappedleaf
from attrs import check_attributes, check_numbering
from duals import check_nodal
from harness import THOROUGH
from replay import L, O, TF, build, generate_many, ops_of, show
from tables import check_deep, check_tables, geometry_of, rng_for, sample


def one(rec, out):
    t, val = rec["term"], rec["val"]
    el = build(t)
    sig = ".".join(ops_of(t)) + ("^T" if "tr\": true" in str(t) or t["tr"] else "")
    out.count("traces")
    check_numbering(rec, el, out, sig)
    check_attributes(rec, el, out, sig)
    geo = geometry_of(rec["term"])
    n, ne = val["cell"]["n"], len(val["ents"])
    rng = rng_for(rec)
    ents = range(ne) if ne <= 7 else sorted(set(rng.choice(ne, size=4, replace=False)) | {ne - 1})
    check_tables(rec, el, out, order=2 if n < 3 else 1, kinds=("set",), entities=ents, coordinate_mapping=geo)
    check_tables(rec, el, out, order=1, kinds=("single", "tensor"), entities=ents, salt=1,
                 coordinate_mapping=geo)
    check_deep(rec, el, out, geo)
    if val["du"]:
        check_nodal(el, out, show(t), sig, t)
    if len(out.samples) < 1:
        out.samples.append(show(t))


def mapped(_, out):
    import zoo
    zoo.check_mapped_wrappers(out, ("tfe", "brk"))


def run(ctx):
    sh = [[2], [3], [2, 2], [2, 3], [1], [2, 1, 2]]
    fs = [dict(leaves=["CG1T", "CG2T", "DG0T", "RT1T", "N1C1T", "CG1I", "DG1I", "REG0T", "CG1K", "RT1K", "S2Q"],
               ops=["tfe"], shapes=sh, maxleaves=1, maxops=2, maxnd=64),
          dict(terms=[foci.Q1, foci.DQ0, foci.RTCF1, foci.RTCE1, foci.Q2, O("tpe", "CG1I", "DG1I"), O("tpe", "CG1T", "DG1I"),
                      O("brk", "CG1T"), O("enr", "CG1T", "BUB3T"), O("mix", "CG1T", "RT1T")],
               ops=["tfe", "brk"], shapes=[[2], [2, 3], [2, 2]], maxleaves=4, maxops=2, maxstack=1, maxnd=64),
          # tensor-valued parts inside other constructors
          dict(terms=[TF("CG1T", [2]), TF("DG0T", [2], True), TF("CG1I", [2]), TF("DG0I", [2], True), L("RT1T"), L("CG1I"),
                      L("DG1I")],
               ops=["tpe", "enr", "mix", "flat", "brk"], maxleaves=3, maxops=2, maxstack=2, maxnd=60)]
    fs += foci.mapped()
    mappedleaf.load(ctx)
    todo = []
    for f, recs in zip(fs, generate_many(ctx, fs)):
        recs = [r for r in recs if "tfe" in ops_of(r["term"])]
        todo += sample(recs, 10**6 if THOROUGH else 130, ctx.rng,
                       key=lambda r: (tuple(ops_of(r["term"])), r["term"]["tr"], str(r["term"]["shape"]), str(r["val"]["vsh"])))
    ctx.pmap(one, todo)
    ctx.direct(mapped)


BOUNDS = "component shapes of rank 1-3, both layouts, nested twice, over every kind of base element; derivative order <= 3 (2 in three dimensions)"
