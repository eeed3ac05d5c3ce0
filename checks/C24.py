"""Reconstructing a UFL element changes only what was asked."""
import zlib

import uflterms as ut


def kwargs(o):
    k = {}
    if o["fam"]:
        k["family"] = o["fam"]
    if o["cell"]["n"] != "none":
        k["cell"] = ut.ucell(o["cell"])
    if o["deg"] != ut.NODEG:
        k["degree"] = o["deg"]
    if o["qs"]:
        k["quad_scheme"] = o["qs"]
    if o["var"]:
        k["variant"] = o["var"]
    if o["mp"]:
        k["mapping"] = o["mp"]
    return k


def ask(rec, out):
    t = rec["term"]
    name, key = ut.show(t), ".".join(ut.ops_of(t)[:3])
    e = ut.build(t, zlib.crc32(name.encode()) % 6)
    r = repr(e)
    out.count("traces")
    out.case(name)
    for x in rec["recon"]:
        if not x["ok"] and x["why"] == "scope":
            continue
        if x["o"]["mp"] and not x["ok"]:
            continue            # which elements refuse a mapping is not part of the interface
        k = kwargs(x["o"])
        what = "%s.reconstruct(%s)" % (name, ", ".join("%s=%s" % i for i in sorted(k.items())))
        out.count("evaluations")
        try:
            f = e.reconstruct(**k)
        except Exception as exc:
            if x["ok"]:
                out.fail("refused:" + key, "%s raised %r" % (what, exc), term=t, options=x["o"])
            continue
        if repr(e) != r:
            out.fail("mutated:" + key, "%s changed the element to %r" % (what, e), term=t, options=x["o"])
            return
        if not x["ok"]:
            out.fail("accepted:" + key, "%s is not possible (%s) but gave %r" % (what, x["why"], f), term=t, options=x["o"])
            continue
        want = ut.build(x["term"], 0)
        if f != want or type(f) is not type(want) or repr(f) != repr(want) or hash(f) != hash(want):
            out.fail("result:" + key, "%s is %r, should be %r" % (what, f, want), term=t, options=x["o"])
    if t["op"] in ("mix", "vec", "ten"):
        parts(e, t, name, key, out)
    if t["op"] in ("fe", "vec", "ten", "mix", "brk", "hdiv", "hcurl", "tpe", "enr") and "Real" not in name:
        variants(e, rec, name, key, out)


def parts(e, t, name, key, out):
    """reconstruct_from_elements: a mixed element of exactly the given parts"""
    import finat.ufl as fu
    subs = list(e.sub_elements)
    other = fu.FiniteElement("Real", e.cell, 0, quad_scheme=e.quadrature_scheme())
    for new in (subs, subs[:-1], subs + [other], [other] + subs[1:], subs[::-1], subs[:-1] + [other], subs + subs):
        if not new:
            continue
        out.count("evaluations")
        try:
            want = fu.MixedElement(*new)
        except Exception:
            continue
        f = e.reconstruct_from_elements(*new)
        if new == subs:
            ok = f == e or f == want
        else:
            ok = f == want
        if not ok:
            out.fail("parts:" + key, "%s.reconstruct_from_elements(%s) is %r" % (name, new, f), term=t)
            return


def variants(e, rec, name, key, out):
    """a variant asked for is a variant had, in every part; two steps are one"""
    f = e.reconstruct(variant="verif")
    g = e.reconstruct(variant="other").reconstruct(variant="verif")
    out.count("evaluations")
    if f.variant() != "verif" and "brk" not in name or f != g:
        out.fail("variant:" + key, "%s with a variant is %r / %r" % (name, f, g), term=rec["term"])
    if f.family() != e.family() or f.degree() != e.degree() or f.cell != e.cell or f.mapping() != e.mapping() or f.quadrature_scheme() != e.quadrature_scheme():
        out.fail("variant:" + key, "a new variant changed %s to %r" % (name, f), term=rec["term"])


def run(ctx):
    from harness import THOROUGH
    recs = [r for r in ut.generate(ctx, want=("recon",), full=THOROUGH) if r["a"]["ok"]]
    ctx.pmap(ask, recs)


BOUNDS = "UFL terms over 19 leaf families with up to 2 (thorough: 3) composition steps x 14 option sets"
