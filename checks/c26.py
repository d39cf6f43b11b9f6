"""C26: the tangent helpers of the logistic-normal models give true bounds."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp

import gen
import side
from pbt import Check, need
from sidetopics.model import ctm

CHECK = Check("C26", "the variational parameter is not zero",
              ["xi of a document is sqrt((mean - s)^2 + varc^2), as its helper defines it",
               "single precision is compared within 1e-5 relative"])

SPECIAL = [0.0, 1e-320, 1e-300, 1e-30, 1e-17, 1e-12, 1e-9, 1e-8, 1.1e-8, 1e-6, 1e-4, 1e-3, 0.1, 0.5, 1.0, 2.0, 5.0, 20.0, 36.0, 40.0, 88.0, 89.0,
           700.0, 709.0, 710.0, 745.0, 1e3, 1e5, 1e8, 1e15]
number = st.one_of(st.sampled_from(SPECIAL), st.floats(0, 60, allow_nan=False), st.floats(1e-12, 1e-2))


def lam(xi):
    """tanh(xi/2) / (4 xi), computed without cancellation"""
    xi = np.asarray(xi, dtype=np.longdouble)
    small = np.abs(xi) < 1e-5
    safe = np.where(small, 1, xi)
    return np.where(small, 0.125 - xi * xi / 96, np.tanh(safe / 2) / (4 * safe))


def log1pexp(x):
    return np.logaddexp(np.longdouble(0), np.asarray(x, dtype=np.longdouble))


@st.composite
def tangent(draw):
    return {"xi": draw(st.lists(st.one_of(number, number.map(lambda v: -v)), min_size=1, max_size=6)),
            "x": draw(st.lists(st.one_of(number, number.map(lambda v: -v)), min_size=1, max_size=6)),
            "dt": draw(st.sampled_from(["float64", "float32"])), "two": draw(st.booleans())}


@CHECK.sub(tangent(), quick=6000)
def tangent_bound(c, ctx):
    dt = np.dtype(c["dt"])
    xi = np.array(c["xi"], dtype=dt)
    ctx.nontrivial(np.any(xi != 0))
    ctx.label("zero", np.any(xi == 0))
    if c["two"]:
        xi = np.tile(xi, (2, 1))
    keep = xi.copy()
    got = np.asarray(need(ctm, "negJakkola")(xi))
    ctx.equal(xi, keep, "the parameter given")
    ctx.equal(got.shape, xi.shape, "shape")
    ctx.close(got, lam(xi).astype(np.float64), 1e-5 if dt == np.float32 else 1e-12, 0 if dt == np.float64 else 1e-37, "the tangent's curvature")
    if dt == np.float32:
        return
    one = np.asarray(ctm.negJakkola(xi.reshape(-1)[0]), dtype=float)
    ctx.close(one.reshape(()), lam(xi.reshape(-1)[0]).astype(np.float64), 1e-12, 0, "curvature of one number")
    if np.abs(np.array(c["xi"] + c["x"])).max() > 1e6:
        return
    g = np.asarray(got, dtype=np.longdouble)[..., np.newaxis]
    z = np.asarray(xi, dtype=np.longdouble)[..., np.newaxis]

    def bound(x):
        return g * (x * x - z * z) + (x - z) / 2 + log1pexp(z)
    x = np.array(c["x"], dtype=np.longdouble)
    slack = 1e-11 * (1 + np.abs(z * z) + x * x)
    ctx.check(np.all(bound(x) >= log1pexp(x) - slack), lambda: "the quadratic bound lies below log(1+exp(x)) by %g" % float((log1pexp(x) - bound(x)).max()))
    for at in (z, -z):
        ctx.check(np.all(np.abs(bound(at) - log1pexp(at)) <= 1e-11 * (1 + z * z)), "the bound does not touch log(1+exp(x)) where it is expanded")


@st.composite
def documents(draw):
    D, K = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    v = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.0, 1e-3, 1e-9, 7.5, -20.0, 300.0, 1e4, 12345.678, 1e-12, 0.1]
    s = draw(gen.table(1, D, v))[0]
    m = draw(gen.table(D, K, v))
    if draw(st.booleans()):          # means at, or very near, the offset
        m = [[s[d] + e * 1e-9 for e in row] for d, row in enumerate(draw(gen.table(D, K, [0, 1, -1, 0, 2, 0, -3, 0, 0, 1, 0, 5, 0, -7, 0, 0])))]
    return {"m": m, "s": s, "v": draw(gen.table(D, K, [1.0, 0.5, 0.0, 1e-3, 2.0, 1e-6, 0.1, 10.0, 1e-12, 0.25, 3.0, 0.01, 1.0, 0.7, 1e-9, 5.0])),
            "dt": draw(st.sampled_from(["float64", "float64", "float32"]))}


@CHECK.sub(documents(), quick=6000)
def derived(c, ctx):
    dt = np.dtype(c["dt"])
    m, v, s = (np.array(c[k], dtype=dt) for k in ("m", "v", "s"))
    keep = m.copy(), v.copy(), s.copy()
    neg, pos = need(ctm, "negJakkolaOfDerivedXi"), need(ctm, "jakkolaOfDerivedXi")
    xi = np.sqrt((m.astype(float) - s.astype(float)[:, None]) ** 2 + v.astype(float) ** 2)
    ctx.nontrivial(np.any(xi > 0))
    ctx.label("zero", np.any(xi == 0))
    rtol = 2e-5 if dt == np.float32 else 1e-10
    whole = np.asarray(neg(m, v, s))
    ctx.close(whole, lam(xi).astype(float), rtol, 1e-14 if dt == np.float64 else 1e-9, "curvature of every document")
    ctx.close(pos(m, v, s), -whole, rtol, 0, "negated curvature of every document")
    for d in range(len(m)):
        ctx.close(neg(m, v, s, d), whole[d], rtol, 0, "curvature of one document")
        ctx.close(pos(m, v, s, d), -whole[d], rtol, 0, "negated curvature of one document")
    for a, b in zip((m, v, s), keep):
        ctx.equal(a, b, "the parameters given")


@st.composite
def curvature(draw):
    c = draw(side.config(["ctm_bohning", "ctm_bohning_fast", "ctm_grad_arb", "stm_yv_bohning", "stm_uv_vecy_bohning"], max_d=3, max_t=4, max_k=6))
    K = c["K"]
    v = [0.0, 1.0, -1.0, 0.5, 2.0, -0.5, 3.0, -2.0, 0.25, 10.0, 0.1, -0.1, 7.5, -7.5, 1e-3, 30.0]
    c["points"] = [draw(gen.table(2, K, v)) for _ in range(3)]
    return c


@CHECK.sub(curvature(), quick=400, shards=2)
def fixed_curvature(c, ctx):
    """Bohning's bound: one matrix that is never below the curvature of log-sum-exp"""
    ctx.label(c["kind"])
    np.random.seed(c["seed"] % 2 ** 31)
    data = side.dataset(c)
    with side.quiet():
        model = side.new_model(c, data)
    A = model.A if c["kind"].startswith("ctm") else model.Ab
    A = np.asarray(A, dtype=np.longdouble)
    ctx.equal(A.shape, (c["K"], c["K"]), "shape")
    ctx.nontrivial()
    tol = 1e-5 if c["dtype"] == "float32" else 1e-12
    ctx.close(A, A.T, tol, tol, "symmetry")
    for x, at in c["points"]:
        x, at = np.array(x, dtype=np.longdouble), np.array(at, dtype=np.longdouble)
        f, fx = logsumexp(at.astype(float)), logsumexp(x.astype(float))
        p = np.exp(at - f)
        b = f + p @ (x - at) + 0.5 * (x - at) @ A @ (x - at)
        ctx.check(b >= fx - tol * 100 * (1 + np.abs(x).max() + np.abs(at).max()) ** 2, lambda: "the quadratic bound %g lies below log-sum-exp %g" % (b, fx))
