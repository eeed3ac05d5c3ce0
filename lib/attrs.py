"""Discrete observations of a real element compared with the model."""
import numpy as np
from replay import by_entity, cell_matches, key_count, plain, show


def deg_real(d):
    if isinstance(d, tuple):
        return {"s": False, "n": 0, "c": [deg_real(x) for x in d]}
    return {"s": True, "n": int(d), "c": []}


def has_bad(d):
    return d["n"] == -99 or any(has_bad(c) for c in d["c"])


def check_numbering(rec, el, out, sig):
    val, name = rec["val"], show(rec["term"])
    out.count("evaluations", 4)

    def bad(key, msg):
        out.fail("%s:%s" % (key, sig), "%s: %s" % (name, msg), term=rec["term"])
    if int(el.space_dimension()) != val["nd"]:
        bad("dim", "space dimension %s instead of %d" % (el.space_dimension(), val["nd"]))
    if tuple(el.index_shape) != tuple(val["ish"]):
        bad("index_shape", "index shape %s instead of %s" % (el.index_shape, val["ish"]))
    for key, fn, want in (("entity_dofs", el.entity_dofs, val["ent"]),
                          ("closure", el.entity_closure_dofs, val["clo"])):
        d = fn()
        try:
            got = [[int(x) for x in v] for v in by_entity(val, d)]
        except (KeyError, IndexError) as e:
            bad(key, "%s has no entry for an entity of the cell (%r)" % (key, e))
            continue
        if key_count(d) != len(val["ents"]):
            bad(key, "%s lists %d entities, the cell has %d" % (key, key_count(d), len(val["ents"])))
        if got != want:
            i = [i for i in range(len(got)) if got[i] != want[i]][0]
            bad(key, "%s[%s] is %s instead of %s" % (key, val["ents"][i], got[i], want[i]))


SPLITS = {"": lambda n: 1, "alfeld": lambda n: n + 1, "iso": lambda n: 2**n}


def split_dims(val):
    """the dimension of each factor of the complex"""
    if len(val["cx"]) == 1:
        return [val["cell"]["n"]]
    dims = []

    def walk(c):
        if c["k"] == "p":
            for x in c["cs"]:
                walk(x)
        else:
            dims.append(c["n"])
    walk(val["cell"])
    return dims if len(dims) == len(val["cx"]) else [1] * len(val["cx"])


def pieces(c):
    """cells of full dimension of a complex, for each factor"""
    if hasattr(c, "cells"):
        return [n for x in c.cells for n in pieces(x)]
    top = c.get_topology()
    return [len(top[max(top)])]


def check_attributes(rec, el, out, sig):
    val, name = rec["val"], show(rec["term"])
    out.count("evaluations", 6)

    def bad(key, msg):
        out.fail("%s:%s" % (key, sig), "%s: %s" % (name, msg), term=rec["term"])
    if tuple(el.value_shape) != tuple(val["vsh"]):
        bad("value_shape", "value shape %s instead of %s" % (el.value_shape, val["vsh"]))
    if val["fd"] != -2:
        fd = el.formdegree
        if (-1 if fd is None else fd) != val["fd"]:
            bad("formdegree", "form degree %s instead of %s" % (fd, val["fd"]))
    m = el.mapping
    if ("none" if m is None else m) != val["map"]:
        bad("mapping", "mapping %s instead of %s" % (m, val["map"]))
    if not cell_matches(val["cell"], el.cell):
        bad("cell", "cell %s instead of %s" % (el.cell, val["cell"]))
    if val["cx"] == ["none"]:
        try:
            c = el.complex
        except Exception:
            pass
        else:
            bad("complex", "complex %s, although none of the parts' is the finest" % c)
    elif "?" in val["cx"]:
        # FIAT decides whether two splits of a cell nest: only what is returned is judged
        try:
            c = el.complex
        except ValueError:
            c = None
        if c is not None and int(c.get_spatial_dimension()) != val["cell"]["n"]:
            bad("complex", "complex of dimension %s" % c.get_spatial_dimension())
    else:
        c = el.complex
        if int(c.get_spatial_dimension()) != val["cell"]["n"]:
            bad("complex", "complex of dimension %s" % c.get_spatial_dimension())
        got, want = pieces(c), [SPLITS[s](n) for s, n in zip(val["cx"], split_dims(val))]
        if int(np.prod(got)) != int(np.prod(want)) or len(got) == len(want) and got != want:
            bad("complex", "complex with %s subcells per factor instead of %s" % (got, want))
    if not has_bad(val["deg"]):
        d = deg_real(el.degree)
        if d != val["deg"]:
            bad("degree", "degree %s instead of %s" % (el.degree, plain(val["deg"])))
