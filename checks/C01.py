"""DoF numbering partitions the element and composes predictably."""
import foci
import mappedleaf
from attrs import check_numbering
from harness import THOROUGH
from replay import build, generate_many, ops_of, show
from tables import sample


def one(rec, out):
    el = build(rec["term"])
    out.count("traces")
    out.case(show(rec["term"]))
    check_numbering(rec, el, out, ".".join(ops_of(rec["term"])) or "leaf")
    if len(out.samples) < 1:
        out.samples.append({"program": show(rec["term"]), "entity_dofs": rec["val"]["ent"]})


LEAVES = ["CG1I", "CG3I", "DG2I", "GLL3I", "GL2I", "LEG2I", "ILEG3I", "FDML3I", "FDMDL3I", "FDMQ3I", "FDMBH3I", "FDMBL3I",
          "FDMH3I", "CG1T", "CG4T", "DG2T", "CR1T", "BUB3T", "FBUB3T", "BERN3T", "KMV3T", "DTAY2T", "RT2T", "BDM2T",
          "BDFM2T", "N1C2T", "N2C2T", "REG1T", "HHJ1T", "GLSA1T", "GLSB1T", "CG4K", "DG1K", "CR1K", "BUB4K", "FBUB3K",
          "RT2K", "BDM2K", "N1C2K", "N2C2K", "REG1K", "KMV2K", "S1Q", "S2Q", "S4Q", "DPC2Q", "BDMCE2Q", "BDMCF2Q",
          "TSE2Q", "TSF2Q", "TSC2Q", "TSD2Q", "S2H", "S4H", "DPC2H", "TSE1H", "TSC1H", "TSD1H", "TR1T", "TR1K"]


def physical_partition(ctx):
    """Leaf numberings of the physically mapped and rational elements, recorded and judged by TLC."""
    import zoo
    trace, names = [], []
    for name, make in zoo.mapped_elements(full=True):
        el = make()
        rec = zoo.record_numbering(el)
        rec["name"] = name
        trace.append(rec)
        names.append(name)
        ctx.cls.add("trace " + name)
    verdict = zoo.tlc_numbering(ctx, trace)
    ctx.counts["traces"] = ctx.counts.get("traces", 0) + len(trace)
    for i, why in verdict:
        ctx.fails.append(("partition:%s" % names[i].split("(")[0], "%s: %s" % (names[i], why), {"record": trace[i]}))


def run(ctx):
    # the cell complexes themselves
    ctx.tlc("FinatLemmas")
    mappedleaf.load(ctx, THOROUGH)
    fs = [f() for f in foci.ALL] + [dict(leaves=LEAVES, ops=[], maxleaves=1, maxnd=200),
                                    dict(leaves=sorted(mappedleaf.FACTS), ops=[], maxleaves=1, maxnd=200)] + foci.mapped()
    if THOROUGH:
        fs += [foci.simplex3(leaves=["CG1T", "DG0T", "RT1T", "N2C1T", "CG3T"], maxops=3, maxnd=80),
               foci.lines(leaves=["CG1I", "CG2I", "DG0I", "DG1I", "GLL3I"], maxops=4, maxnd=60),
               foci.square(maxops=4), foci.wedge(maxops=4), foci.hexes(maxops=3),
               foci.squaresums(ops=("enr", "mix", "flat", "tfe", "brk"), maxops=3)]
    todo = []
    for f, recs in zip(fs, generate_many(ctx, fs)):
        slow = any("M:" in str(r["term"]) for r in recs[:40])     # macro elements take long to build
        todo += sample(recs, 10**6 if THOROUGH else 120 if slow else 350, ctx.rng,
                       key=lambda r: (tuple(ops_of(r["term"])), r["term"]["tr"]))
    ctx.pmap(one, todo)
    physical_partition(ctx)


BOUNDS = "all programs of the foci in lib/foci.py (2-4 leaves, up to 3 constructors beyond given prefixes, <= 60 DoFs)"
