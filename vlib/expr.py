"""Feature expressions as data: a node is a JSON list; build() makes the Feature with the library's operators, step() applies one operator to
already evaluated operands with plain loops (the oracle of P31)."""
from __future__ import annotations

import json
import math

import numpy as np
from hypothesis import strategies as st

from vlib import feat

NAN = float("nan")
SINGLE = [n for n, s in feat.SPECS.items() if n not in ("CUSUMTest", "TimeCues", "CandleShape", "ORBBreak", "HurstExponent", "KurtosisTransform", "Identity")]
MULTI = ["CUSUMTest", "TimeCues", "CandleShape", "ORBBreak"]
STEPS = ["SMA", "EWMA", "Lag", "RealizedVolatility", "EWMST", "ZScore", "BurstRatio", "DirRunLen", "BiPowerVariation", "RSIWilder", "PctChange", "BollingerPercentB"]
BIN = ["add", "sub", "mul", "div"]
TWINS = {"is_log": lambda v: not v, "ddof": lambda v: 1 - v, "num_std": lambda v: v + 0.5, "is_sample": lambda v: not v, "ret_type": lambda v: "log" if v == "simple" else "simple"}
CONST = ["add", "sub", "mul", "div", "radd", "rsub", "rmul", "rdiv", "min", "max", "rmin", "rmax"]
UNARY = ["abs", "abs()", "log", "log1p", "exp", "square", "sqrt", "rolling_mean", "rolling_sum", "rolling_std", "lag", "ema", "ema_noadj", "clip"]

constants = st.one_of(st.integers(-4, 4), st.sampled_from([0.5, 2.0, -1.25, 100, 1e-3, 0, 0.0, 1, 1e10]), st.floats(-8, 8, allow_nan=False, width=16))


@st.composite
def leaf(draw, pool=tuple(SINGLE)):
    n = draw(st.sampled_from(list(pool) + ["SMA", "Lag", "Return", "EWMA", "Lag"]))
    return ["t", n, draw(feat.SPECS[n].strategy())]


@st.composite
def compose(draw, firsts=tuple(SINGLE), lo=1, hi=3):
    first = draw(leaf(firsts))[1:]
    steps = []
    for _ in range(draw(st.integers(lo, hi))):
        n = draw(st.sampled_from(STEPS))
        p = dict(draw(feat.SPECS[n].strategy()))
        if "col" in p:
            p["col"] = draw(st.sampled_from(["close", "x", "ret1", "prev", "volume", "<prev>"]))   # "<prev>": the output name of the step before
        steps.append([n, p])
    return ["compose", first, *steps]


@st.composite
def unary_args(draw):
    op = draw(st.sampled_from(UNARY))
    if op in ("rolling_mean", "rolling_sum", "lag", "ema", "ema_noadj"):
        return [op, draw(st.integers(1, 6))]
    if op == "rolling_std":
        return [op, draw(st.integers(2, 6))]
    if op == "clip":
        b = st.one_of(st.none(), st.sampled_from([0, 0.5, 1, 1e-5, 2.5e-7]))
        up, lo = draw(b), draw(st.one_of(st.none(), st.sampled_from([-1, -0.25, -1e-5, 0])))
        return [op, lo, up]
    return [op]


def tree(leaves=None, max_leaves=5):
    leaves = leaves if leaves is not None else st.one_of(leaf(), leaf(), leaf(), compose())
    return st.recursive(leaves, lambda ch: st.one_of(
        st.tuples(st.just("bin"), st.sampled_from(BIN), ch, ch).map(list),
        st.tuples(st.just("mm"), st.sampled_from(["min", "max"]), ch, ch).map(list),
        st.tuples(st.just("c"), st.sampled_from(CONST), ch, constants).map(list),
        st.tuples(ch, unary_args()).map(lambda t: ["u", t[0], *t[1]])), max_leaves=max_leaves)


@st.composite
def twins(draw, base):
    """the same expression with other parameters that do not show in the output name"""
    n = json.loads(json.dumps(base))
    for s in subnodes(n):
        for _, p in [s[1:]] if s[0] == "t" else s[1:] if s[0] == "compose" else []:
            for k, f in TWINS.items():
                if k in p and draw(st.integers(0, 3)):
                    p[k] = f(p[k])
    return n


@st.composite
def twin_pair(draw):
    """an operator on two features whose names are the same and whose parameters may not be"""
    n = draw(st.one_of(leaf(tuple(k for k in SINGLE if set(TWINS) & set(feat.SPECS[k].params))), leaf(), compose(hi=2)))
    if draw(st.booleans()):
        n = ["u", n, *draw(unary_args())]
    a, b = n, draw(twins(n))
    return draw(st.sampled_from([["bin", draw(st.sampled_from(BIN)), a, b], ["mm", draw(st.sampled_from(["min", "max"])), b, a], ["bin", "sub", ["u", a, "square"], ["u", b, "square"]]]))


def children(n):
    return {"bin": lambda: [n[2], n[3]], "mm": lambda: [n[2], n[3]], "c": lambda: [n[2]], "u": lambda: [n[1]]}.get(n[0], list)()


def subnodes(n):
    out = []
    for c in children(n):
        out += subnodes(c)
    return out + [n]


def depth(n):
    return 1 + max([depth(c) for c in children(n)], default=0)


def stages(n):
    """transforms of a compose node"""
    out = []
    for cls, p in n[1:]:
        p = dict(p)
        if p.get("col") == "<prev>":
            p["col"] = out[-1].output_name
        out.append(feat.SPECS[cls].build(p))
    return out


def build(n, memo=None):
    """node -> Feature; memo shares one Feature object between equal nodes"""
    from finmlkit.feature.kit import Compose, Feature
    import json
    key = json.dumps(n)
    if memo is not None and key in memo:
        return memo[key]
    k = n[0]
    if k == "t":
        f = Feature(feat.SPECS[n[1]].build(n[2]))
    elif k == "compose":
        f = Feature(Compose(*stages(n)))
    elif k == "bin":
        a, b = build(n[2], memo), build(n[3], memo)
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[n[1]]()
    elif k == "mm":
        a, b = build(n[2], memo), build(n[3], memo)
        f = (Feature.min if n[1] == "min" else Feature.max)(a, b)
    elif k == "c":
        a, c = build(n[2], memo), n[3]
        f = {"add": lambda: a + c, "sub": lambda: a - c, "mul": lambda: a * c, "div": lambda: a / c, "radd": lambda: c + a, "rsub": lambda: c - a,
             "rmul": lambda: c * a, "rdiv": lambda: c / a, "min": lambda: Feature.min(a, c), "max": lambda: Feature.max(a, c),
             "rmin": lambda: Feature.min(c, a), "rmax": lambda: Feature.max(c, a)}[n[1]]()
    else:
        a, op, args = build(n[1], memo), n[2], n[3:]
        f = {"abs": lambda: abs(a), "abs()": a.abs, "log": a.log, "log1p": a.log1p, "exp": a.exp, "square": a.square, "sqrt": a.sqrt}[op]() if not args \
            else a.clip(lower=args[0], upper=args[1]) if op == "clip" else a.ema(args[0], adjust=False) if op == "ema_noadj" \
            else getattr(a, op)(*args)
    if memo is not None:
        memo[key] = f
    return f


# --------------------------------------------------------------------------------------------- one operator on evaluated operands

def isnan(v):
    return v != v


def divide(a, b):
    if isnan(a) or isnan(b):
        return NAN
    if b == 0:
        return NAN if a == 0 else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def arith(op, a, b):
    if op == "div":
        return divide(a, b)
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}[op]()


def minmax(op, a, b):
    return NAN if isnan(a) or isnan(b) else (min if op == "min" else max)(a, b)


def roll(x, w, f):
    """pandas semantics: infinite entries count as missing; a window with a missing entry has no value"""
    return [f(x[i - w + 1:i + 1]) if i >= w - 1 and all(math.isfinite(v) for v in x[i - w + 1:i + 1]) else NAN for i in range(len(x))]


def ema(x, span, adjust):
    a = 2.0 / (span + 1)
    out, avg, old = [], NAN, 0.0                           # old: weight of the past relative to a new observation
    for v in x:
        if math.isfinite(v):
            if isnan(avg):
                avg, old = v, 1.0
            else:
                old *= 1 - a
                new = 1.0 if adjust else a
                avg = (avg * old + new * v) / (old + new)
                old = old + new if adjust else 1.0
        else:
            old *= 1 - a
        out.append(avg)
    return out


def step(n, args):
    """(values, tolerance) of one operator applied element by element to the evaluated operands (lists of floats)"""
    k = n[0]
    fin = [abs(v) for a in args for v in a if math.isfinite(v)]
    big = max(fin, default=0.0)
    if k == "bin":
        return [arith(n[1], a, b) for a, b in zip(*args)], 0.0
    if k == "mm":
        return [minmax(n[1], a, b) for a, b in zip(*args)], 0.0
    if k == "c":
        op, c = n[1], float(n[3])
        if op in ("min", "max", "rmin", "rmax"):
            return [minmax(op[-3:], a, c) for a in args[0]], 0.0
        if op[0] == "r":
            return [arith(op[1:], c, a) for a in args[0]], 0.0
        return [arith(op, a, c) for a in args[0]], 0.0
    x, op, p = args[0], n[2], n[3:]
    if op in ("abs", "abs()"):
        return [abs(v) for v in x], 0.0
    if op == "log":
        return [math.log(v) if v > 0 and v != math.inf else (v if v == math.inf else NAN) for v in x], 1e-14
    if op == "log1p":
        return [math.log1p(v) if v >= 0 and v != math.inf else (v if v == math.inf else NAN) for v in x], 1e-14
    if op == "exp":
        return [math.exp(v) if v <= 709.0 else (NAN if isnan(v) else math.inf) for v in x], "rel"
    if op == "square":
        return [v * v if abs(v) < 1e150 or not math.isfinite(v) else math.inf if abs(v) > 1.4e154 else v * v for v in x], "rel"
    if op == "sqrt":
        return [math.sqrt(v) if v >= 0 else NAN for v in x], "rel"
    if op == "lag":
        return [NAN if i < p[0] else x[i - p[0]] for i in range(len(x))], 0.0
    if op == "clip":
        lo, up = p
        f = lambda v: v if isnan(v) else (lo if lo is not None and v < lo else up if up is not None and v > up else v)  # noqa: E731
        return [float(f(v)) for v in x], 0.0
    if op == "rolling_mean":
        return roll(x, p[0], lambda w: math.fsum(w) / len(w)), 1e-12 * big
    if op == "rolling_sum":
        return roll(x, p[0], math.fsum), 1e-12 * big
    if op == "rolling_std":
        return roll(x, p[0], lambda w: math.sqrt(math.fsum((v - math.fsum(w) / len(w)) ** 2 for v in w) / (len(w) - 1))), 1e-6 * big
    if op in ("ema", "ema_noadj"):
        return ema(x, p[0], op == "ema"), 1e-11 * big
    raise AssertionError(n)


def same(label, got, exp, tol=0.0):
    from vlib.core import Violation
    g = [float(v) for v in got]
    if len(g) != len(exp):
        raise Violation(f"{label}: {len(g)} values, expected {len(exp)}")
    for i, (a, b) in enumerate(zip(g, exp)):
        t = 1e-12 * abs(b) if tol == "rel" else tol
        if not (a == b or (isnan(a) and isnan(b)) or abs(a - b) <= t):
            raise Violation(f"{label}[{i}] = {a!r}, expected {b!r}")
