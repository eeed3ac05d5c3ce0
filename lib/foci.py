"""Explorations of the element machine shared by several checks."""
from replay import L, O, TF


def rtc(kind, a, b):
    """quadrilateral RTCF/RTCE-like element, unflattened parts"""
    return O("enr", O(kind, O("tpe", a, b)), O(kind, O("tpe", b, a)))


RTCF1 = O("flat", rtc("hdiv", "CG1I", "DG0I"))
RTCE1 = O("flat", rtc("hcurl", "CG1I", "DG0I"))
RTCF2 = O("flat", rtc("hdiv", "CG2I", "DG1I"))
Q1 = O("flat", O("tpe", "CG1I", "CG1I"))
Q2 = O("flat", O("tpe", "CG2I", "CG2I"))
DQ0 = O("flat", O("tpe", "DG0I", "DG0I"))
DQ1 = O("flat", O("tpe", "DG1I", "DG1I"))
WEDGE = [O("tpe", "CG1T", "DG0I"), O("tpe", "DG0T", "CG1I"), O("tpe", "RT1T", "DG0I"), O("tpe", "N1C1T", "DG0I"),
         O("tpe", "N1C1T", "CG1I"), O("tpe", "RT1T", "CG1I"), O("tpe", "CG2T", "DG1I"), O("tpe", "BDM1T", "DG0I")]
SQUARE = [O("tpe", "CG1I", "DG0I"), O("tpe", "DG0I", "CG1I"), O("tpe", "CG2I", "DG1I"), O("tpe", "DG1I", "CG2I"),
          O("tpe", "GLL2I", "GL1I"), O("tpe", "DG0I", "CG2I")]
HEXES = [O("tpe", RTCF1, "DG0I"), O("tpe", RTCE1, "DG0I"), O("tpe", RTCE1, "CG1I"), O("tpe", RTCF1, "CG1I"),
         O("tpe", DQ0, "CG1I"), O("tpe", Q1, "DG0I"), O("tpe", DQ1, "CG2I")]

# leaves + products + sums + tensors, two dimensional and small
def simplex(ops=("enr", "mix", "tfe", "brk"), **kw):
    return dict(dict(leaves=["CG1T", "CG2T", "DG1T", "RT1T", "N1C1T", "BUB3T", "REG0T"], ops=list(ops), maxleaves=2,
                     maxops=2, maxnd=60, shapes=[[2], [2, 2]]), **kw)


def simplex3(ops=("enr", "mix", "tfe", "brk"), **kw):
    return dict(dict(leaves=["CG1T", "DG0T", "RT1T", "CR1T"], ops=list(ops), sumk=[2, 3], maxleaves=3, maxops=2,
                     maxnd=60, shapes=[[3]]), **kw)


def tets(ops=("enr", "mix", "tfe", "brk"), **kw):
    return dict(dict(leaves=["CG1K", "CG2K", "RT1K", "N1C1K", "DG0K", "FBUB3K"], ops=list(ops), maxleaves=2, maxops=1,
                     maxnd=60, shapes=[[3]]), **kw)


def lines(ops=("tpe", "flat", "enr", "mix", "tfe", "brk"), **kw):
    return dict(dict(leaves=["CG1I", "CG2I", "DG0I", "DG1I"], ops=list(ops), maxleaves=2, maxops=3, maxnd=40,
                     shapes=[[2]]), **kw)


def square(ops=("hdiv", "hcurl", "flat", "brk"), **kw):
    return dict(dict(terms=SQUARE, ops=list(ops), maxleaves=2, maxops=2, maxnd=60, shapes=[[2], [2, 3]], maxstack=1), **kw)


def squaresums(ops=("enr", "mix", "flat"), **kw):
    parts = [O("hdiv", s) for s in SQUARE[:4]] + [O("hcurl", s) for s in SQUARE[:2]] + \
        [O("tpe", "CG1I", "CG1I"), O("tpe", "CG2I", "DG0I")]
    return dict(dict(terms=parts, ops=list(ops), maxleaves=4, maxops=2, maxnd=60, shapes=[[2]], maxstack=2), **kw)


def flatsums(ops=("enr", "mix", "tfe", "brk"), **kw):
    return dict(dict(terms=[RTCF1, RTCE1, Q1, Q2, DQ0, DQ1, L("DPC1Q"), L("S2Q"), O("tpe", "CG1I", "CG1I")],
                     ops=list(ops), maxleaves=8, maxops=1, maxnd=60, shapes=[[2]], maxstack=2), **kw)


def wedge(ops=("hdiv", "hcurl", "brk"), **kw):
    return dict(dict(terms=WEDGE, ops=list(ops), maxleaves=2, maxops=2, maxnd=60, shapes=[[2]], maxstack=1), **kw)


def wedgesums(ops=("enr", "mix"), **kw):
    parts = [O("hdiv", WEDGE[2]), O("hdiv", WEDGE[3]), O("hdiv", WEDGE[1]), O("hcurl", WEDGE[0]), O("hcurl", WEDGE[4]),
             O("tpe", "CG1T", "CG1I")]
    return dict(dict(terms=parts, ops=list(ops), maxleaves=4, maxops=1, maxnd=60, maxstack=2), **kw)


def hexes(ops=("hdiv", "hcurl", "flat"), **kw):
    return dict(dict(terms=HEXES, ops=list(ops), maxleaves=8, maxops=2, maxnd=60, maxstack=1), **kw)


def hexsums(ops=("enr", "flat"), **kw):
    parts = [O("hdiv", HEXES[0]), O("hdiv", HEXES[4]), O("hcurl", HEXES[2]), O("hcurl", HEXES[5])]
    return dict(dict(terms=parts, ops=list(ops), maxleaves=12, maxops=2, maxnd=60, maxstack=2), **kw)


# tensor shapes of every rank, with unit extents
def shapes(ops=("tfe", "brk", "mix"), **kw):
    return dict(dict(leaves=["CG1T", "DG0T", "RT1T", "CG2I"], ops=list(ops), maxleaves=2, maxops=2, maxnd=60,
                     shapes=[[1], [3], [1, 2], [2, 3], [2, 1, 2], [2, 2, 2]]), **kw)


ALL = [simplex, simplex3, shapes, tets, lines, square, squaresums, flatsums, wedge, wedgesums, hexes, hexsums]


# physically mapped parts (ids "M:<class>:<cell>:<degree>", see lib/mappedleaf.py) inside the constructors that pass the
# geometry on
def mapped(ops=("enr", "mix", "tfe", "brk"), **kw):
    return [dict(dict(leaves=["CG1T", "BUB3T", "M:Hermite:T:3", "M:Morley:T:2", "M:HsiehCloughTocher:T:3"], ops=list(ops),
                      sumk=[1, 2, 3], maxleaves=3, maxops=2, maxnd=48, shapes=[[2], [2, 2]]), **kw),
            dict(dict(leaves=["RT1T", "CG1T", "M:MardalTaiWinther:T:3", "M:BernardiRaugel:T:1", "M:JohnsonMercier:T:1",
                              "M:ArnoldWintherNC:T:2", "M:Bell:T:5"],
                      terms=[TF("CG1T", [2]), TF("CG1T", [2, 2])], ops=list(ops), maxleaves=2, maxops=2, maxnd=60,
                      shapes=[[2]]), **kw),
            dict(dict(leaves=["S2Q", "DPC1Q", "M:DirectSerendipity:Q:1", "M:DirectSerendipity:Q:2"], terms=[RTCF1, Q1],
                      ops=list(ops), maxleaves=5, maxops=2, maxnd=40, shapes=[[2], [2, 3]]), **kw),
            dict(dict(leaves=["CG1K", "FBUB3K", "M:Hermite:K:3", "M:BernardiRaugelBubble:K:3"], terms=[TF("CG1K", [3])],
                      ops=list(ops), maxleaves=2, maxops=2, maxnd=60, shapes=[[3]]), **kw),
            dict(dict(leaves=["CG2I", "M:Hermite:I:3"], ops=list(ops), maxleaves=2, maxops=2, maxnd=30, shapes=[[2], [2, 2]]),
                 **kw)]
