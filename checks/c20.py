"""C20: element-wise sparse kernels agree with the dense formula on the non-zero pattern."""
import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import gen
from pbt import Check, need
import sidetopics.util.sparse_elementwise as se

CHECK = Check("C20", "generated sparse A (1-8 x 1-10, at times up to 130 x 260, empty rows and columns, unsorted indices), dense "
              "B, C; non-trivial = at least two stored entries in A and, where the call has one, a "
              "proper row range or a caller-supplied output",
              ["B and C are C-ordered, dtypes agree between the operands, as the callers do",
               "quotients are taken over strictly positive denominators"])
if hasattr(se, "WarnIfSlow"):
    se.WarnIfSlow = False


@st.composite
def case(draw, ops, dtypes, one_in=24):
    op = draw(st.sampled_from(ops))
    a = draw(gen.counts(max_d=8, max_t=10, min_t=1, empty_rows=True, wide=130, one_in=one_in))
    K = draw(st.integers(1, 5)) if not gen.rare(draw, one_in) else draw(st.sampled_from([17, 9, 33, 40]))
    D, T = len(a), len(a[0])
    c = {"op": op, "a": a, "dtype": draw(st.sampled_from(dtypes)),
         "b": draw(gen.table(D, K, gen.POSITIVE)), "c": draw(gen.table(K, T, gen.POSITIVE)),
         "out": draw(st.sampled_from(["none", "other", "same"])),
         "unsorted": draw(st.booleans()), "perm": draw(gen.seeds)}
    if op == "normed":
        c["d"] = draw(st.lists(st.sampled_from(gen.POSITIVE), min_size=K, max_size=K))
    if op == "safeln":
        zero = draw(st.lists(st.integers(0, D - 1), max_size=3))
        for z in zero:
            c["b"][z] = [draw(st.sampled_from([0.0, 0.0, 1e-305, 1e-33]))] * K
    if op in ("quotient", "safeln") and draw(st.booleans()):
        s = draw(st.integers(0, D))
        e = draw(st.integers(s, D))
        c["range"] = [s, e]
        c["out"] = draw(st.sampled_from(["none", "other"]))
    return c


def rows_cols(A):
    return np.repeat(np.arange(A.shape[0]), np.diff(A.indptr)), A.indices


def build(c):
    dt = np.dtype(c["dtype"])
    A = gen.messy_csr(c["a"], dt, False, c["perm"]) if c["unsorted"] else gen.csr(c["a"], dt)
    return A, gen.mat(c["b"], dt), gen.mat(c["c"], dt), dt


def result_and_reference(c, ctx, A, B, C, dt):
    s, e = c.get("range", [0, A.shape[0]])
    Bref = B.astype(np.float64)[s:e]
    sl = A[s:e, :]
    val = sl.data.astype(np.float64)
    if c["op"] == "normed":
        d = np.array(c["d"], dtype=dt)
        dots = Bref.dot(C.astype(np.float64) / d.astype(np.float64)[:, None])
    elif c["op"] == "elem":
        dots = (B.dot(C)).astype(np.float64)
    else:
        dots = Bref.dot(C.astype(np.float64))
    r, k = rows_cols(sl)
    at = dots[r, k]
    kw = {}
    if "range" in c:
        kw = {"start": s, "end": e}
    if c["out"] == "other":
        out = A[s:e, :].copy()
        out.data[:] = -7
        kw["out"] = out
    elif c["out"] == "same":
        kw["out"] = A
    Bin = np.ascontiguousarray(B[s:e])
    if c["op"] == "quotient":
        got = se.sparseScalarQuotientOfDot(A, Bin, C, **kw)
        want = val / at
    elif c["op"] == "normed":
        got = se.sparseScalarQuotientOfNormedDot(A, B, C, d, **kw)
        want = val / at
    elif c["op"] == "product":
        got = se.sparseScalarProductOfDot(A, B, C, **kw)
        want = val * at
    elif c["op"] == "safeln":
        got = se.sparseScalarProductOfSafeLnDot(A, Bin, C, **kw)
        want = val * np.log(np.maximum(at, np.finfo(dt).tiny))
    else:
        got = se.sparseScalarProductOf(A, B.dot(C), **kw)
        want = val * at
    return got, want, kw, sl


@CHECK.sub(case(["quotient", "normed", "product", "safeln", "elem"], ["float64", "float32"]),
           quick=12000, shards=5, rule="every kernel, both float widths, row ranges, out argument")
def kernels(c, ctx):
    agree(c, ctx)


@CHECK.sub(case(["quotient", "normed", "product", "safeln", "elem"], ["float64", "float32"], one_in=1),
           quick=800, shards=3, rule="matrices of up to 130 rows, 260 columns and 40 inner dimensions")
def large(c, ctx):
    agree(c, ctx)


def agree(c, ctx):
    A, B, C, dt = build(c)
    A0 = A.copy()
    B0, C0 = B.copy(), C.copy()
    got, want, kw, sl = result_and_reference(c, ctx, A, B, C, dt)
    ctx.nontrivial(sl.nnz >= 2 and ("range" not in c or c["range"][0] > 0 or c["range"][1] < A.shape[0]))
    ctx.label(c["op"])
    ctx.label("range", "range" in c)
    ctx.label("row of over 100", np.diff(A.indptr).max() > 100)
    ctx.label("out=" + c["out"])
    f32 = dt == np.float32
    ctx.check(ssp.issparse(got), "the result is not sparse")
    ctx.equal(got.shape, sl.shape, "shape")
    ctx.equal(got.indptr, sl.indptr, "row pointers")
    ctx.equal(got.indices, sl.indices, "column indices")
    ctx.check(got.dtype == dt, "dtype changed")
    ctx.close(got.data, want, rtol=2e-4 if f32 else 1e-10, atol=2e-4 if f32 else 1e-10, what=c["op"])
    if "out" in kw:
        ctx.close(kw["out"].data, got.data, 0, 0, "the supplied output holds the result")
    ctx.equal(A.indices, A0.indices, "A's indices")
    if c["out"] != "same":
        ctx.equal(A.data, A0.data, "A's data after the call")
    ctx.equal(B, B0, "B after the call")
    ctx.equal(C, C0, "C after the call")


@st.composite
def int_case(draw):
    c = draw(case(["product", "elem"], ["int32", "int64"]))
    D, T, K = len(c["a"]), len(c["a"][0]), len(c["c"])
    c["b"] = draw(gen.table(D, K, [1, 2, 3, 0, 5, 1, 2, 7, 1, 1, 4, 9, 0, 6, 2, 8]))
    c["c"] = draw(gen.table(K, T, [1, 2, 3, 0, 5, 1, 2, 7, 1, 1, 4, 9, 0, 6, 2, 8]))
    return c


@CHECK.sub(int_case(), quick=2000, rule="products over integer matrices (interpreted fallback)")
def integer_products(c, ctx):
    A, B, C, dt = build(c)
    A0 = A.copy()
    got, want, kw, sl = result_and_reference(c, ctx, A, B, C, dt)
    ctx.nontrivial(sl.nnz >= 2)
    ctx.equal(got.indices, sl.indices, "column indices")
    ctx.close(got.data, want, 0, 0, c["op"])
    if c["out"] != "same":
        ctx.equal(A.data, A0.data, "A's data after the call")


@st.composite
def dense_case(draw):
    D = draw(st.integers(1, 6))
    T = draw(st.integers(1, 6))
    if gen.rare(draw):
        D, T = draw(st.sampled_from([(9, 17), (1, 40), (40, 1), (17, 20)]))
    K = draw(st.integers(1, 5)) if not gen.rare(draw) else draw(st.sampled_from([9, 17, 40]))
    wide = draw(st.booleans())
    vals = gen.FLOATS if not wide else [0.0, 100.0, -100.0, 1000.0, -1000.0, 700.0, -700.0, 20.0, -20.0,
                                        33.0, -17.0, -16.9, 17.1, 32.9, 13.8, -11.0]
    return {"m": draw(gen.table(D, T, vals)), "w": draw(st.lists(st.sampled_from(gen.POSITIVE), min_size=D, max_size=D)),
            "topics": draw(gen.table(D, K, gen.POSITIVE)), "vseed": draw(gen.seeds),
            "dtype": draw(st.sampled_from(["float64", "float32"])), "K": K, "wide": wide}


@CHECK.sub(dense_case(), quick=4000, rule="scaled log-one-plus-exp sum, entropy of products, self soft dot")
def dense_sums(c, ctx):
    dt = np.dtype(c["dtype"])
    f32 = dt == np.float32
    m = gen.mat(c["m"], dt)
    m64 = m.astype(np.float64)
    w = np.array(c["w"], dtype=dt)
    ctx.nontrivial(m.size > 2 and len(np.unique(m)) > 1)
    terms = w.astype(np.float64)[:, None] * np.logaddexp(0, m64)
    tol = (1e-5 if f32 else 1e-9) * max(np.abs(terms).sum(), 1e-6)
    # the published accuracy of the switch points: the result is a sum of non-negative terms
    ctx.close(se.scaledSumOfLnOnePlusExp(w, m), terms.sum(), rtol=3e-5 if f32 else 1e-7, atol=tol,
              what="scaled sum of log(1+exp(x))")
    topics = gen.mat(c["topics"], dt)
    vocab = gen.dirichlet(c["vseed"], c["K"], m.shape[1]).astype(dt)
    t64 = topics.astype(np.float64)
    z = (t64 / t64.sum(axis=1, keepdims=True))[:, :, None] * vocab.astype(np.float64)[None]
    want = -(z * np.log(z)).sum()
    ctx.close(se.entropyOfDot(topics, vocab), want, rtol=1e-3 if f32 else 1e-9, atol=1e-3 if f32 else 1e-9,
              what="entropy of the topic-word products")
    if not f32:
        ctx.close(se.entropyOfDot(topics.astype(np.longdouble), vocab.astype(np.longdouble)), want,
                  1e-9, 1e-9, "entropy (interpreted fallback)")
    sm = np.exp(m64 - m64.max(axis=1, keepdims=True))
    sm /= sm.sum(axis=1, keepdims=True)
    prod = sm * m64
    ctx.close(se.selfSoftDot(m), prod.sum(), rtol=1e-4 if f32 else 1e-9,
              atol=(1e-4 if f32 else 1e-9) * (1 + np.abs(prod).sum()), what="self soft dot")
    if not c["wide"]:
        ctx.close(se.lse(m), np.log(np.exp(m64).sum(axis=1)), rtol=1e-4, atol=1e-4 if f32 else 1e-9,
                  what="log-sum-exp per row")


@CHECK.sub(st.builds(lambda a, u, p: {"a": a, "unsorted": u, "perm": p},
                     gen.counts(max_d=8, max_t=10, min_t=1, empty_rows=True, wide=130), st.booleans(), gen.seeds),
           quick=2000, rule="row/column index expansion of a CSR matrix")
def indices(c, ctx):
    f = need(se, "csr_indices")
    A = gen.messy_csr(c["a"], np.float64, True, c["perm"]) if c["unsorted"] else gen.csr(c["a"])
    ctx.nontrivial(A.nnz >= 2 and (np.diff(A.indptr) == 0).any())
    rows, cols = f(A.indptr, A.indices)
    r, k = rows_cols(A)
    ctx.equal(np.array(rows, dtype=int), r.astype(int), "row indices")
    ctx.equal(np.array(cols, dtype=int), k.astype(int), "column indices")
