"""Composite attributes derive from parts."""
import foci
import mappedleaf
from attrs import check_attributes
from C01 import LEAVES
from harness import THOROUGH
from replay import build, generate_many, ops_of, show
from tables import sample


def one(rec, out):
    el = build(rec["term"])
    out.count("traces")
    out.case(show(rec["term"]))
    check_attributes(rec, el, out, ".".join(ops_of(rec["term"])) or "leaf")
    if len(out.samples) < 1:
        out.samples.append({"program": show(rec["term"]), "formdegree": rec["val"]["fd"], "mapping": rec["val"]["map"]})


def run(ctx):
    mappedleaf.load(ctx, THOROUGH)
    fs = [f() for f in foci.ALL] + foci.mapped() + [
        dict(leaves=sorted(mappedleaf.FACTS), ops=[], maxleaves=1, maxnd=200),
        dict(leaves=LEAVES, ops=["brk"], maxleaves=1, maxops=1, maxnd=200),
        # unequal degrees, form degrees and mappings side by side
        dict(leaves=["CG3I", "DG1I", "CG1I", "GLL2I", "DG0I"], ops=["tpe", "enr", "flat"], maxleaves=4, maxops=3, maxnd=30,
             maxstack=2),
        dict(leaves=["CR1T", "DG2T", "CG1T", "RT1T", "N1C1T", "BDM2T", "REG1T"], ops=["enr", "mix"], maxleaves=3,
             sumk=[2, 3], maxops=1, maxnd=80),
        # cells split by some parts and not by others
        dict(leaves=["CGa1T", "CGi1T", "CG1T", "DG1T", "DGa1T"], ops=["enr", "mix", "brk", "tfe"], shapes=[[2]], sumk=[2, 3], maxleaves=3, maxops=2, maxnd=80),
        dict(leaves=["CGi1I", "CG1I", "DG1I"], ops=["tpe", "flat", "hdiv", "enr", "mix"], maxleaves=4, maxops=5, maxstack=2, maxnd=80),
        dict(leaves=["CGa1T", "CG1T", "CGi1I", "DG1I"], ops=["tpe", "enr"], maxleaves=4, maxops=3, maxstack=2, maxnd=80),
        dict(leaves=["CG1I", "DG1I", "CG2T", "RT1T", "N1C1T", "DG1T"], ops=["tpe"], tpek=[2, 3], maxleaves=3, maxops=1,
             maxnd=80)]
    todo = []
    for f, recs in zip(fs, generate_many(ctx, fs)):
        slow = any("M:" in str(r["term"]) for r in recs[:40])     # macro elements take long to build
        todo += sample(recs, 10**6 if THOROUGH else 120 if slow else 300, ctx.rng,
                       key=lambda r: (tuple(ops_of(r["term"])), r["val"]["fd"], r["val"]["map"], str(r["val"]["cx"])))
    ctx.pmap(one, todo)


BOUNDS = "all programs of the foci in lib/foci.py plus mixed-degree products and sums"
