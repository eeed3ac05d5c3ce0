"""SymPy and symengine expressions translate to code with the same meaning."""
import itertools
import json
import math
from fractions import Fraction

import gem
import numpy as np
import sympy
import symengine
from finat.sympy2gem import sympy2gem
from harness import THOROUGH, brief

CMP = {"eq": "Eq", "gt": "Gt", "ge": "Ge", "lt": "Lt", "le": "Le"}


SYM = {n: sympy.Symbol(n, real=True) for n in "xyz"}
NODES = {"Add", "Mul", "Pow", "Abs", "Piecewise", "ITE", "Not", "And", "Or", "Symbol", "Integer", "Zero", "One", "NegativeOne", "Half", "Rational",
         "Float", "RealDouble", "BooleanTrue", "BooleanFalse", "Equality", "StrictLessThan", "LessThan", "StrictGreaterThan", "GreaterThan",
         "ExprCondPair", "int", "float", "bool"}


def known(x):
    """only nodes that have a translation (the algebra system may have simplified into others)"""
    return type(x).__name__ in NODES and all(known(a) for a in getattr(x, "args", ()))


def reading(x, env):
    """the meaning of the tree the algebra system built, node by node"""
    t, a = type(x).__name__, getattr(x, "args", ())
    ev = lambda q: reading(q, env)
    if t in ("BooleanTrue", "BooleanFalse", "bool"):
        return bool(x)
    if t == "Symbol":
        return env[str(x)]
    if not a:
        return float(x)
    if t == "ITE":
        return ev(a[1]) if ev(a[0]) else ev(a[2])
    if t == "Piecewise":
        flat = [q for p in a for q in (p.args if type(p).__name__ == "ExprCondPair" else (p,))]
        for v, c in zip(flat[::2], flat[1::2]):
            if ev(c):
                return ev(v)
        return float("nan")
    a = [ev(q) for q in a]
    f = {"Not": lambda p: not p, "And": lambda *p: all(p), "Or": lambda *p: any(p), "Equality": lambda p, q: p == q,
         "StrictLessThan": lambda p, q: p < q, "LessThan": lambda p, q: p <= q, "StrictGreaterThan": lambda p, q: p > q,
         "GreaterThan": lambda p, q: p >= q, "Add": lambda *p: sum(p), "Mul": lambda *p: math.prod(p), "Pow": lambda p, q: p ** q, "Abs": abs}
    return f[t](*a)


def agrees(x, env, k, n, d):
    """did the algebra system build something with the meaning of the expression it was built from?"""
    try:
        v = reading(x, env)
        if k == "bool":
            return bool(v) == bool(n)
        return k == "nan" or abs(float(v) - n / d) < 1e-9 * max(1, abs(n / d))
    except Exception:
        return False


class Unbuildable(Exception):
    pass


def as_sympy(e, lazy):
    kw = {"evaluate": False} if lazy else {}

    def go(e):
        op = e["op"]
        if op == "num":
            if e["s"] == "float":
                return sympy.Float(e["n"] / e["d"])
            if e["s"] == "py":
                return e["n"] if e["d"] == 1 else e["n"] / e["d"]
            return sympy.Rational(e["n"], e["d"])
        if op == "bool":
            return sympy.true if e["n"] else sympy.false
        if op == "sym":
            return SYM[e["s"]]
        a = [go(x) for x in e["args"]]
        if op in CMP:
            return getattr(sympy, CMP[op])(*a, **kw)
        if op == "pw":
            return sympy.Piecewise(*zip(a[::2], a[1::2]), **kw)
        return {"add": sympy.Add, "mul": sympy.Mul, "pow": sympy.Pow, "abs": sympy.Abs, "not": sympy.Not, "and": sympy.And,
                "or": sympy.Or, "ite": sympy.ITE}[op](*a, **kw)
    return go(e)


def as_symengine(e):
    def go(e):
        op = e["op"]
        if op == "num":
            if e["s"] == "float":
                return symengine.RealDouble(e["n"] / e["d"])
            return symengine.Rational(e["n"], e["d"])
        if op == "bool":
            return symengine.true if e["n"] else symengine.false
        if op == "sym":
            return symengine.Symbol(e["s"])
        if op == "ite":
            raise Unbuildable
        a = [go(x) for x in e["args"]]
        if op in CMP:
            return getattr(symengine, CMP[op])(*a)
        if op == "pw":
            return symengine.Piecewise(*zip(a[::2], a[1::2]))
        if op == "pow":
            return a[0] ** a[1]
        return {"add": symengine.Add, "mul": symengine.Mul, "abs": symengine.Abs if hasattr(symengine, "Abs") else abs, "not": symengine.Not,
                "and": symengine.And, "or": symengine.Or}[op](*a)
    return go(e)


def meaning(g, env, memo):
    """value of a scalar gem expression; conditions are true when non-zero"""
    if g in memo:
        return memo[g]
    ev = lambda x: meaning(x, env, memo)
    k = g.children
    if isinstance(g, gem.Zero):
        v = 0.0
    elif isinstance(g, gem.Literal):
        v = g.array.item()
    elif isinstance(g, gem.Variable):
        v = env[g.name]
    elif isinstance(g, gem.Sum):
        v = ev(k[0]) + ev(k[1])
    elif isinstance(g, gem.Product):
        v = ev(k[0]) * ev(k[1])
    elif isinstance(g, gem.Division):
        v = np.float64(ev(k[0])) / np.float64(ev(k[1]))
    elif isinstance(g, gem.Power):
        v = np.float64(ev(k[0])) ** np.float64(ev(k[1]))
    elif isinstance(g, gem.MathFunction):
        assert g.name == "abs", g.name
        v = abs(ev(k[0]))
    elif isinstance(g, gem.Comparison):
        a, b = ev(k[0]), ev(k[1])
        v = {">": a > b, ">=": a >= b, "==": a == b, "!=": a != b, "<": a < b, "<=": a <= b}[g.operator]
    elif isinstance(g, gem.LogicalNot):
        v = not ev(k[0])
    elif isinstance(g, gem.LogicalAnd):
        a, b = ev(k[0]), ev(k[1])
        v = bool(a) and bool(b)
    elif isinstance(g, gem.LogicalOr):
        a, b = ev(k[0]), ev(k[1])
        v = bool(a) or bool(b)
    elif isinstance(g, gem.Conditional):
        c, a, b = map(ev, k)
        v = a if c else b
    elif isinstance(g, gem.MinValue):
        v = min(ev(k[0]), ev(k[1]))
    elif isinstance(g, gem.MaxValue):
        v = max(ev(k[0]), ev(k[1]))
    else:
        raise AssertionError("unexpected %s in a scalar translation" % type(g).__name__)
    memo[g] = v
    return v


def exactly(g, env, k, n, d):
    """the same comparison in exact arithmetic, so that rounding cannot decide a condition"""
    def go(g):
        if isinstance(g, gem.Literal):
            return Fraction(g.array.item()).limit_denominator(10**12)
        c = g.children
        if isinstance(g, gem.Zero):
            return Fraction(0)
        if isinstance(g, gem.Variable):
            return env[g.name]
        if isinstance(g, gem.Conditional):
            return go(c[1]) if go(c[0]) else go(c[2])
        v = [go(x) for x in c]
        if isinstance(g, gem.Sum):
            return v[0] + v[1]
        if isinstance(g, gem.Product):
            return v[0] * v[1]
        if isinstance(g, gem.Division):
            return v[0] / v[1]
        if isinstance(g, gem.Power):
            if v[1].denominator != 1:
                raise ArithmeticError
            return v[0] ** int(v[1])
        if isinstance(g, gem.MathFunction):
            return abs(v[0])
        if isinstance(g, gem.Comparison):
            a, b = v
            return {">": a > b, ">=": a >= b, "==": a == b, "!=": a != b, "<": a < b, "<=": a <= b}[g.operator]
        if isinstance(g, gem.LogicalNot):
            return not v[0]
        if isinstance(g, gem.LogicalAnd):
            return bool(v[0]) and bool(v[1])
        if isinstance(g, gem.LogicalOr):
            return bool(v[0]) or bool(v[1])
        raise ArithmeticError
    try:
        v = go(g)
        return bool(v) == bool(n) if k == "bool" else abs(v - Fraction(n, d)) < Fraction(1, 10**9)
    except Exception:
        return False


def translate(expr, symbols):
    m = gem.node.Memoizer(sympy2gem)
    m.bindings = {s: gem.Variable(n, ()) for n, s in symbols.items()}
    return m(expr)


def odd_atoms(e):
    """did the algebra system itself simplify to something outside the reals?"""
    return any(x in str(e) for x in ("zoo", "nan", "oo", "I*")) or str(e) == "I"


def isbool(e):
    return e["op"] in ("bool", "eq", "gt", "ge", "lt", "le", "not", "and", "or", "ite")


ENVS = []


def show(e):
    if e["op"] == "num":
        return ("%d" % e["n"] if e["d"] == 1 else "%d/%d" % (e["n"], e["d"])) + {"float": "f", "py": "p"}.get(e["s"], "")
    if e["op"] == "bool":
        return str(bool(e["n"]))
    return e["s"] if e["op"] == "sym" else "%s(%s)" % (e["op"], ",".join(map(show, e["args"])))


def ops_in(e):
    return {e["op"]} | set().union(*[ops_in(a) for a in e["args"]])


def one(rec, out):
    e = rec["e"]
    name = show(e)
    out.count("traces")
    out.case(name)
    envs = [{k: v[0] / v[1] for k, v in env.items()} for env in ENVS]
    for dialect in ("sympy", "lazy", "symengine"):
        try:
            if dialect == "symengine":
                x = as_symengine(e)
                syms = {symengine.Symbol(n): n for n in "xyz"}
                syms = {n: q for q, n in syms.items()}
            else:
                x = as_sympy(e, dialect == "lazy")
                syms = SYM
        except Exception:
            out.count("not representable")     # the algebra system does not build this
            continue
        if odd_atoms(x):
            out.count("outside the reals")
            continue
        try:
            g = translate(x, syms)
        except Exception as ex:
            if not known(x):
                out.count("unsupported node")
                continue
            out.fail("raised:%s:%s" % (dialect, e["op"]), "%s (%s: %s): %s" % (name, dialect, x, brief(ex)), expr=e)
            return
        if g.shape != () or g.free_indices:
            out.fail("shape:" + e["op"], "%s: not a scalar" % name, expr=e)
            return
        for env, (k, n, d) in zip(envs, rec["vals"]):
            if k == "undef":
                continue
            with np.errstate(all="ignore"):
                try:
                    v = meaning(g, env, {})
                except ZeroDivisionError:
                    v = float("nan")
            out.count("evaluations")
            if k == "bool":
                ok = bool(v) == bool(n)
            elif k == "nan":
                if dialect != "lazy" and type(x).__name__ != "Piecewise":
                    continue        # the algebra system may drop a missing branch
                ok = v != v
            else:
                ok = abs(float(v) - n / d) <= 1e-9 * max(1, abs(n / d))
            if not ok and k != "nan" and exactly(g, {q: Fraction(t).limit_denominator(100) for q, t in env.items()}, k, n, d):
                out.count("rounding")
                continue
            if not ok and not agrees(x, env, k, n, d):
                out.count("built differently")
                continue
            if not ok:
                out.fail("value:%s:%s" % (dialect, e["op"]), "%s (%s: %s) at %s is %s instead of %s" % (
                    name, dialect, x, env, v, "nan" if k == "nan" else n / d if k == "num" else bool(n)), expr=e, env=env)
                return
    if len(out.samples) < 1 and len(name) > 20:
        out.samples.append(name)


def unsupported(_, out):
    """nodes without a translation are refused, alone and inside supported ones"""
    for M in (sympy, symengine):
        x, y = M.Symbol("x"), M.Symbol("y")
        bad = dict(sin=M.sin(x), exp=M.exp(x), log=M.log(x), pi=M.pi, E=M.E, I=M.I, oo=M.oo, gamma=M.gamma(x), func=M.Function("f")(x),
                   tan=M.tan(x), atan2=M.atan2(x, y), acos=M.acos(x))
        if M is sympy:
            bad.update(sign=sympy.sign(x), floor=sympy.floor(x), mod=sympy.Mod(x, 2), der=sympy.Derivative(sympy.Function("f")(x), x),
                       integ=sympy.Integral(sympy.Function("f")(x), x), zoo=sympy.zoo, nan=sympy.nan, heaviside=sympy.Heaviside(x))
        for k, b in bad.items():
            for where, e in (("", b), ("sum", None), ("product", None), ("branch", None), ("condition", None), ("power", None)):
                try:
                    if where == "sum":
                        e = b + y
                    elif where == "product":
                        e = 3 * b * y
                    elif where == "power":
                        e = (b + 1) ** 2
                    elif where == "branch":
                        e = M.Piecewise((y, M.Lt(y, 0)), (b + y, M.true))
                    elif where == "condition":
                        e = M.Piecewise((y, M.Lt(b, y)), (x, M.true))
                except Exception:
                    continue
                if where and str(e) in ("nan", "zoo", "oo", str(y)) and k not in ("oo", "zoo", "nan"):
                    continue
                out.count("evaluations")
                out.case("unsupported %s %s %s" % (M.__name__, k, where))
                try:
                    g = translate(e, {"x": x, "y": y})
                except Exception:
                    continue
                out.fail("unsupported:%s:%s:%s" % (M.__name__, k, where), "%s expression %s was translated to %s" % (M.__name__, e, g))
    for k, b in (("string", "x"), ("none", None), ("list", [1]), ("gem", gem.Literal(1.0)), ("complex", 1j), ("matrix", sympy.Matrix([[1]]))):
        out.count("evaluations")
        try:
            g = translate(b, {})
        except Exception:
            continue
        out.fail("unsupported:" + k, "%r was translated to %s" % (b, g))
    # a symbol nobody bound
    for M in (sympy, symengine):
        try:
            translate(M.Symbol("w") + 1, {"x": M.Symbol("x")})
        except Exception:
            continue
        out.fail("unbound", "an unbound symbol was translated")
    # exact constants
    for M in (sympy, symengine):
        for n, d in ((1, 3), (-7, 11), (10**9, 7), (1, 2), (2**40, 3)):
            g = translate(M.Rational(n, d), {})
            out.count("evaluations")
            if abs(meaning(g, {}, {}) - n / d) > 1e-15 * abs(n / d):
                out.fail("rational", "%d/%d became %s" % (n, d, meaning(g, {}, {})))
    for v in (0.1, -2.5e-3, 1e300, 5e-324, 3.0):
        for e in (v, sympy.Float(v), symengine.RealDouble(v), sympy.Float(v, 30)):
            out.count("evaluations")
            if meaning(translate(e, {}), {}, {}) != v:
                out.fail("float", "%r (%s) became %r" % (v, type(e), meaning(translate(e, {}), {}, {})))
    # roots
    for M in (sympy, symengine):
        x = M.Symbol("x")
        for e, f in ((M.sqrt(x), np.sqrt), (x ** M.Rational(-3, 2), lambda t: t ** -1.5), (M.Integer(2) ** x, lambda t: 2.0 ** t), (x ** x, lambda t: t ** t)):
            g = translate(e, {"x": x})
            for t in (0.25, 2.0, 7.5):
                out.count("evaluations")
                if abs(meaning(g, {"x": t}, {}) - f(t)) > 1e-12 * abs(f(t)):
                    out.fail("root", "%s at %s is %s" % (e, t, meaning(g, {"x": t}, {})))


def num(n, d=1, kind=""):
    return dict(op="num", s=kind, n=n, d=d)


def sym(s):
    return dict(op="sym", s=s, n=0, d=1)


T, F = dict(op="bool", s="", n=1, d=1), dict(op="bool", s="", n=0, d=1)


def run(ctx):
    vals = [(-2, 1), (0, 1), (1, 2), (3, 1)]
    envs = [dict(x=list(a), y=list(b), z=[(i * 3) % 5 - 2, 1 + i % 3]) for i, (a, b) in enumerate(itertools.product(vals, vals))]
    ENVS[:] = envs
    X, Y, Z = sym("x"), sym("y"), sym("z")
    base = dict(envs=envs, ks=[2, 3], maxstack=6)
    arith = ["add", "mul", "pow", "abs"]
    cmp = list(CMP)
    foci = [dict(base, leaves=[X, Y, num(2), num(-1), num(-2, 3), num(1, 2, "float"), num(3, 1, "py")], ops=arith, maxops=2, maxleaves=3, maxstack=3),
            dict(base, leaves=[X, Y, num(1, 2), T, F], ops=cmp + ["not", "and", "or"], maxops=3, maxleaves=4 if THOROUGH else 3, maxstack=3),
            dict(base, leaves=[X, T, num(1)], ops=["lt", "ge", "pw"], maxops=2, maxleaves=6, maxstack=6, ks=[2])]
    sims = [dict(base, leaves=[X, Y, Z, num(2), num(-3), num(0), num(1), num(-2, 3), num(5, 4), num(1, 2, "float"), num(-3, 2, "float"), num(2, 1, "py"),
                               num(5, 2, "py"), T, F],
                 ops=arith + cmp + ["not", "and", "or", "ite", "pw"], maxops=9, maxleaves=12, maxstack=6),
            dict(base, leaves=[X, Y, Z, num(1), num(-1), T, F], ops=["lt", "ge", "eq", "and", "or", "not", "ite", "pw", "add"], maxops=8, maxleaves=12,
                 maxstack=6, ks=[2])]
    recs = []
    for i, f in enumerate(foci):
        r, _, _ = ctx.tlc("FinatExpr", env={"FINAT_FOCUS": ctx.jsonfile("focus%d.json" % i, f)})
        r.sort(key=lambda x: json.dumps(x, sort_keys=True))
        recs += r if THOROUGH or len(r) <= 1500 else ctx.rng.sample(r, 1500)
    n = 20000 if THOROUGH else 2500
    for i, f in enumerate(sims):
        r, _, _ = ctx.tlc("FinatExpr", env={"FINAT_FOCUS": ctx.jsonfile("sim%d.json" % i, f)}, simulate=n, depth=24, workers=1)
        seen = {json.dumps(x["e"], sort_keys=True): x for x in r}
        r = [seen[k] for k in sorted(seen)]
        # deep and varied ones first
        r.sort(key=lambda x: -len(ops_in(x["e"])))
        recs += r[:20000 if THOROUGH else 2500]
    ctx.pmap(one, recs)
    ctx.direct(unsupported)


BOUNDS = "all programs of two or three operators over small leaf sets, simulated programs of up to nine operators; 16 assignments each"
