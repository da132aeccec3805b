"""P19 - concurrency, average uniqueness and return attribution."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, cmp_exact, cmp_float, expect_raises, require, sut
from vlib.gen import bulk

PROPERTY = "P19"
RULE = "a case counts if two labels or more overlap at some observation"
ASSUMPTIONS = ["0 <= event <= touch < number of observations, prices are positive",
               "as in the cited book the span includes the return that arrives at the event's own observation"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 40))
    k = draw(st.integers(1, 14))
    sp = []
    for _ in range(k):
        a = draw(st.integers(0, n - 1))
        sp.append([a, min(n - 1, a + draw(st.one_of(st.integers(0, 4), st.integers(0, n))))])
    order = draw(st.sampled_from(["sorted", "any", "dup"]))
    if order == "sorted":
        sp.sort()
    if order == "dup":
        sp += sp[:2]
    return {"n": n, "spans": sp, "px": draw(st.lists(st.integers(20, 40), min_size=n, max_size=n))}


def ref(c):
    con = [sum(a <= i <= b for a, b in c["spans"]) for i in range(c["n"])]
    u = [math.fsum(1 / con[i] for i in range(a, b + 1)) / (b - a + 1) for a, b in c["spans"]]
    lr = [0.0] + [math.log(y / x) for x, y in zip(c["px"], c["px"][1:])]
    w = [abs(math.fsum(lr[i] / con[i] for i in range(a, b + 1))) for a, b in c["spans"]]
    return con, u, w


def run(c, spans=None):
    from finmlkit.label.weights import average_uniqueness
    sp = c["spans"] if spans is None else spans
    return sut(average_uniqueness, np.arange(c["n"], dtype=np.int64), np.array([s[0] for s in sp], dtype=np.int64), np.array([s[1] for s in sp], dtype=np.int64))


def attribution(c, con, norm, spans=None):
    from finmlkit.label.weights import return_attribution
    sp = c["spans"] if spans is None else spans
    return return_attribution(np.array([s[0] for s in sp], dtype=np.int64), np.array([s[1] for s in sp], dtype=np.int64), np.array(c["px"]) / 4.0, con, norm)


def check(c):
    con, u, w = ref(c)
    gu, gc = run(c)
    cmp_exact("concurrency", gc, con)
    cmp_float("average uniqueness", gu, u)
    require(((np.asarray(gu) > 0) & (np.asarray(gu) <= 1 + 1e-12)).all(), "uniqueness outside (0, 1]")
    got = sut(attribution, c, gc, False)
    cmp_float("return attribution", got, w, rtol=1e-9, atol=1e-12)
    tot = math.fsum(w)
    if tot > 1e-9:
        g = sut(attribution, c, gc, True)
        cmp_float("normalised return attribution", g, [x * len(w) / tot for x in w], rtol=1e-8, atol=1e-9)
    elif len(set(c["px"])) == 1:
        expect_raises(ValueError, attribution, c, gc, True)
    # the order of the labels is irrelevant
    ru, rc = run(c, c["spans"][::-1])
    cmp_exact("concurrency, labels reversed", rc, con)
    cmp_float("uniqueness, labels reversed", np.asarray(ru)[::-1], u)
    # a label that overlaps nothing changes no other weight; one that overlaps lowers the weight of the label it touches
    n = c["n"]
    d = dict(c, n=n + 3, px=c["px"] + [1000, 1, 7])
    xu, xc = run(d, c["spans"] + [[n + 1, n + 2]])
    cmp_float("uniqueness with a later, disjoint label added", xu, u + [1.0])
    cmp_float("attribution with a later, disjoint label added", np.asarray(sut(attribution, d, xc, False, c["spans"]))[:len(w)], w, rtol=1e-9, atol=1e-12)


def check_wide(c):
    """many labels over the same observations"""
    m, k = c["m"], c["k"]
    from finmlkit.label.weights import average_uniqueness, return_attribution
    a, b = np.zeros(m, dtype=np.int64), np.full(m, k - 1, dtype=np.int64)
    gu, gc = sut(average_uniqueness, np.arange(k, dtype=np.int64), a, b)
    cmp_exact("concurrency", gc, [m] * k)
    cmp_float("uniqueness", gu, [1 / m] * m)
    px = np.linspace(1.0, 2.0, k)
    cmp_float("attribution", sut(return_attribution, a, b, px, gc, False), [math.log(2.0) / m if k > 1 else 0.0] * m, rtol=1e-8)


def check_reject(c):
    from finmlkit.label.weights import average_uniqueness
    expect_raises(ValueError, average_uniqueness, np.arange(5, dtype=np.int64), np.zeros(c["a"], dtype=np.int64), np.zeros(c["a"] + c["d"], dtype=np.int64))


def labels(c):
    con = ref(c)[0]
    yield f"max-concurrency:{min(max(con), 8)}"
    if 0 in con:
        yield "uncovered-observation"
    if any(a == b for a, b in c["spans"]):
        yield "one-observation-label"


KNOWN = {"P19-int16-concurrency": lambda f, c, m: f == "wide" and c["m"] > 32767}
FACETS = [
    Facet("reference", case(), check, quick=2000, thorough=60000, classify=labels, nontrivial=lambda c: max(ref(c)[0]) > 1),
    Facet("wide", st.fixed_dictionaries({"m": st.integers(1, 700), "k": st.integers(1, 5)}), check_wide, quick=60, thorough=400, nontrivial=lambda c: c["m"] > 1,
          examples=[{"m": 32768, "k": 2}, {"m": 32767, "k": 1}, {"m": 300, "k": 3}]),
    Facet("rejects", st.fixed_dictionaries({"a": st.integers(1, 4), "d": st.sampled_from([-1, 1])}), check_reject, quick=10, thorough=10),
]
JIT_WORKERS = 2


def big(r, n, c):
    sp = []
    for _ in range(r.choice((5, n // 4, n // 2))):
        a = r.randint(0, n - 1)
        sp.append([a, min(n - 1, a + r.choice((0, 1, r.randint(0, 20), r.randint(0, n))))])
    if r.random() < 0.7:
        sp.sort()
    return {"n": n, "spans": sp, "px": [r.randint(20, 40) for _ in range(n)]}


FACETS.append(bulk(FACETS[0], big, 40, 600, sizes=(20, 100, 300)))
