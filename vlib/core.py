"""Core of the property-based testing framework used by every check in /verif.

A *property module* (props/pNN.py) declares `PROPERTY` (id), `RULE` (text), `ASSUMPTIONS` and `FACETS`:
a list of `Facet`.  A facet is one executable statement of (part of) a property:

  strategy   a Hypothesis strategy that yields a JSON-able *case* (dict of ints / floats / strings / lists)
  check      check(case) -> None; raises `Violation` when the code under test breaks the property
  classify   classify(case) -> iterable of labels: the measured input distribution
  nontrivial nontrivial(case) -> bool: the stated rule for counting a case as non-trivial
  examples   explicit cases that are always executed first (regressions, boundary witnesses)

All randomness comes from Hypothesis, seeded from VERIF_SEED.  A case is self-contained, so that a replay
re-runs `check(case)` without Hypothesis.
"""
from __future__ import annotations

import contextlib
import hashlib
import json
import math
import os
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable, Iterable, Optional

import numpy as np


class Violation(Exception):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case turned out to be outside the property's domain (counted as discarded)."""


@dataclass
class Facet:
    name: str
    strategy: Any
    check: Callable[[dict], None]
    quick: int = 200                      # examples per quick run, over all shards of one mode
    thorough: int = 4000
    jit: Optional[bool] = True            # also run with the JIT on
    nojit: bool = True
    jit_quick: Optional[int] = None       # examples in JIT mode (default: quick)
    jit_thorough: Optional[int] = None
    nontrivial: Callable[[dict], bool] = lambda c: True
    classify: Callable[[dict], Iterable[str]] = lambda c: ()
    examples: list = field(default_factory=list)
    env: dict = field(default_factory=dict)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def sut(fn, *a, **k):
    """Call the code under test: an exception it raises on an input inside the property's domain is a violation."""
    try:
        return fn(*a, **k)
    except (Violation, Skip):
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/finmlkit/" in f.filename),
                     tb[-1].name if tb else "?")
        raise Violation(f"{getattr(fn, '__qualname__', fn)} raised {type(e).__name__}: {str(e)[:300]} (at {where})") from e


def expect_raises(types, fn, *a, **k):
    """The property demands that this input is rejected."""
    try:
        r = fn(*a, **k)
    except types:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{getattr(fn, '__qualname__', fn)} raised {type(e).__name__}: {e}, expected {types}") from e
    raise Violation(f"{getattr(fn, '__qualname__', fn)} accepted an input it must reject (returned {str(r)[:120]})")


# --------------------------------------------------------------------------------------------- comparisons

def cmp_float(name, got, exp, rtol=1e-9, atol=1e-12, ctx=""):
    """Element-wise float comparison, NaN == NaN, inf == inf; stated tolerance."""
    g = np.asarray(got, dtype=np.float64)
    e = np.asarray(exp, dtype=np.float64)
    if g.shape != e.shape:
        raise Violation(f"{name}: shape {g.shape}, expected {e.shape} {ctx}")
    if g.size == 0:
        return
    at = np.broadcast_to(np.asarray(atol, dtype=np.float64), e.shape)
    gn, en = np.isnan(g), np.isnan(e)
    with np.errstate(all="ignore"):
        ok = (gn & en) | (g == e) | (np.abs(g - e) <= at + rtol * np.abs(e))
    if not ok.all():
        i = tuple(int(v) for v in np.argwhere(~ok)[0]) if g.ndim else ()
        raise Violation(f"{name}[{','.join(map(str, i))}] = {float(g[i])!r}, expected {float(e[i])!r} "
                        f"({int((~ok).sum())} of {g.size} differ) {ctx}")


def cmp_exact(name, got, exp, ctx=""):
    g, e = np.asarray(got), np.asarray(exp)
    if g.shape != e.shape:
        raise Violation(f"{name}: shape {g.shape}, expected {e.shape}; got {g.tolist()[:20]} expected {e.tolist()[:20]} {ctx}")
    if g.size and not (g == e).all():
        i = tuple(int(v) for v in np.argwhere(~(g == e))[0]) if g.ndim else ()
        raise Violation(f"{name}[{','.join(map(str, i))}] = {g[i]!r}, expected {e[i]!r} "
                        f"({int((g != e).sum())} of {g.size} differ) {ctx}")


# --------------------------------------------------------------------------------------------- cases

def _default(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, tuple)):
        return list(o)
    raise TypeError(f"not JSON-able: {type(o)}")


def case_json(case) -> str:
    return json.dumps(case, default=_default, sort_keys=True)


def case_hash(case) -> str:
    return hashlib.sha1(case_json(case).encode()).hexdigest()[:16]


def abbreviate(v, limit=24):
    if isinstance(v, list) and len(v) > limit:
        return [abbreviate(x, limit) for x in v[:limit]] + [f"... {len(v)} items"]
    if isinstance(v, list):
        return [abbreviate(x, limit) for x in v]
    if isinstance(v, dict):
        return {k: abbreviate(x, limit) for k, x in v.items()}
    return v


@contextlib.contextmanager
def quiet():
    with np.errstate(all="ignore"):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield


def nan_eq(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))
