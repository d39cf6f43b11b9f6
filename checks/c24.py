"""C24: convergence test, trace clamping and small array utilities."""
import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import gen
from pbt import Check
import sidetopics.util.misc as misc
import sidetopics.util.array_utils as au

CHECK = Check("C24", "generated bound traces (increasing iteration numbers, rising, falling and flat bounds), "
              "thresholds and minimum iterations; generated arrays; non-trivial = trace of three or more "
              "points / array with more than one entry")


@st.composite
def trace(draw):
    n = draw(st.integers(1, 10))
    gaps = draw(st.lists(st.integers(1, 30), min_size=n, max_size=n))
    vals = draw(st.lists(st.one_of(st.integers(-1000, 1000), st.floats(-1e6, 1e6)), min_size=n, max_size=n))
    return {"gaps": gaps, "vals": vals, "at": draw(st.integers(0, n)),
            "eps": draw(st.sampled_from([10, 1, 0.1, 0.01, 30, 60, 89, 1e-4, 45])),
            "minIters": draw(st.sampled_from([0, 5, 20, 100, 50])), "dtype": draw(st.sampled_from(["int32", "float64"]))}


@CHECK.sub(trace(), quick=8000, shards=2)
def converged(c, ctx):
    iters = np.cumsum(c["gaps"]).astype(c["dtype"])
    vals = np.array(c["vals"], dtype=np.float64)
    i0, v0 = iters.copy(), vals.copy()
    at = c["at"]
    ctx.nontrivial(at >= 3)
    got = misc.converged(iters, vals, at, c["eps"], c["minIters"])
    if at < 2 or iters[at - 1] < c["minIters"]:
        want = False
    else:
        rise = float(vals[at - 1]) - float(vals[at - 2])
        run = float(iters[at - 1]) - float(iters[at - 2])
        angle = np.degrees(np.arctan2(rise, run))
        if abs(angle - c["eps"]) < 1e-7:
            return
        want = angle < c["eps"]
    ctx.label("converged", bool(want))
    ctx.check(bool(got) == bool(want), "converged says %r" % bool(got))
    ctx.equal(iters, i0, "iterations")
    ctx.equal(vals, v0, "bound values")
    if at >= 1 and at < len(iters):
        # what is stored from the next position on is not looked at
        vals[at:] = 1e9
        ctx.check(bool(misc.converged(iters, vals, at, c["eps"], c["minIters"])) == bool(got), "depends on unset entries")


@CHECK.sub(trace(), quick=2000)
def clamp(c, ctx):
    iters = np.cumsum(c["gaps"]).astype(np.int32)
    vals = np.array(c["vals"], dtype=np.float64)
    likes = (vals * 2).astype(np.float32)
    n = c["at"]
    ctx.nontrivial(0 < n < len(iters))
    orig = [iters.copy(), vals.copy(), likes.copy()]
    outs = misc.clamp(iters, vals, likes, n)
    for o, src, was in zip(outs, (iters, vals, likes), orig):
        ctx.equal(np.asarray(o), was[:n], "clamped trace")
        ctx.check(o.dtype == was.dtype, "dtype changed")
        if n:
            o[0] = 55
        ctx.equal(src, was, "the argument")


@st.composite
def arr(draw):
    D = draw(st.integers(1, 6))
    T = draw(st.integers(1, 6))
    return {"m": draw(gen.table(D, T, gen.POSITIVE)), "dtype": draw(st.sampled_from(["float64", "float32"])),
            "v": draw(st.integers(-100, 100)), "kind": draw(st.sampled_from(["csr", "csc", "matrix", "array", "coo"]))}


@CHECK.sub(arr(), quick=3000)
def arrays(c, ctx):
    m = np.array(c["m"], dtype=c["dtype"])
    ctx.nontrivial(m.size > 1)
    n = m.copy()
    out = au.normalizerows_ip(n)
    ctx.equal(n, np.asarray(out), "in-place normalisation")
    ctx.distribution(n, "normalised rows", tol=1e-5)
    ctx.close(n, m.astype(np.float64) / m.astype(np.float64).sum(axis=1, keepdims=True), 1e-5, 1e-7, "normalised rows")
    src = {"csr": ssp.csr_matrix, "csc": ssp.csc_matrix, "coo": ssp.coo_matrix, "matrix": np.matrix,
           "array": np.array}[c["kind"]](m)
    d = misc.to_dense_array(src)
    ctx.check(type(d) is np.ndarray, "not a plain array: %s" % type(d))
    ctx.equal(d, m, "dense array")
    k = misc.constantArray(m.shape, c["v"], c["dtype"])
    ctx.check(k.shape == m.shape and k.dtype == m.dtype and (k == c["v"]).all(), "constant array")
    k = misc.constantArray(m.shape, c["v"] / 7, np.float64)
    ctx.check((k == c["v"] / 7).all(), "constant array of fractions")
    big = 2 ** 24 + 1 + c["v"]
    ctx.check((misc.constantArray(m.shape, big, np.int64) == big).all(), "constant array of large numbers")
    k1 = misc.constantArray((m.shape[0],), c["v"], np.int32)
    ctx.check(k1.shape == (m.shape[0],) and k1.dtype == np.int32 and (k1 == c["v"]).all(), "constant vector")
