"""C23: vec, vec-transpose and the vec-transpose matrix."""
import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import gen
from pbt import Check
import sidetopics.util.vectrans as vt

CHECK = Check("C23", "dense and sparse matrices of (p*q) rows with p, q, columns in 1..6 (empty rows and "
              "columns included), p generated; non-trivial = p > 1, q > 1 and more than one column",
              ["C-ordered dense input, 32-bit indices for sparse input"])


@st.composite
def case(draw):
    p = draw(st.integers(1, 6))
    q = draw(st.integers(1, 6))
    cols = draw(st.integers(1, 6))
    if gen.rare(draw):
        p, q, cols = draw(st.sampled_from([(1, 40, 13), (17, 3, 11), (2, 150, 2), (130, 1, 3), (3, 2, 70)]))
    vals = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0, 0, -1, -2]
    return {"p": p, "m": draw(gen.table(p * q, cols, vals)),
            "dtype": draw(st.sampled_from(["float64", "float32", "int32", "int64", "int16"])),
            "unsorted": draw(st.booleans()), "perm": draw(gen.seeds)}


def reference(A, p):
    cols = [np.reshape(A[:, j], (p, -1), order="F") for j in range(A.shape[1])]
    return np.vstack(cols)


@CHECK.sub(case(), quick=8000, shards=4)
def vec_transpose(c, ctx):
    A = np.array(c["m"], dtype=c["dtype"])
    A0 = A.copy()
    p = c["p"]
    want = reference(A, p)
    ctx.nontrivial(p > 1 and A.shape[0] > p and A.shape[1] > 1)
    ctx.label(c["dtype"])
    got = vt.vec_transpose(A, p)
    ctx.equal(np.asarray(got), want, "dense vec-transpose")
    ctx.equal(np.asarray(vt.vec_transpose(np.ascontiguousarray(got), p)), A0, "vec-transpose applied twice")
    ctx.equal(A, A0, "the argument")
    S = gen.messy_csr(c["m"], A.dtype, False, c["perm"]) if c["unsorted"] else ssp.csr_matrix(A)
    i0, d0 = S.indices.copy(), S.data.copy()
    gs = vt.vec_transpose_csr(S, p)
    ctx.check(ssp.issparse(gs), "sparse vec-transpose is not sparse")
    ctx.equal(np.asarray(gs.todense()), want, "sparse vec-transpose")
    ctx.check(gs.nnz == S.nnz, "number of stored entries changed")
    ctx.check(gs.dtype == S.dtype, "dtype changed")
    ctx.equal(S.indices, i0, "indices of the argument")
    ctx.equal(S.data, d0, "data of the argument")


@CHECK.sub(case(), quick=2500, shards=2)
def transpose_matrix(c, ctx):
    A = np.array(c["m"], dtype=c["dtype"])
    rows, cols = A.shape
    ctx.nontrivial(rows > 1 and cols > 1)
    v = vt.vec(A)
    ctx.equal(np.asarray(v), np.concatenate([A[:, j] for j in range(cols)])[:, None], "vec")
    ctx.equal(np.asarray(vt.vec(np.asfortranarray(A))), np.asarray(v), "vec of the column-ordered matrix")
    T = vt.sp_vec_trans_matrix(A.shape)
    ctx.equal(T.shape, (rows * cols, rows * cols), "shape of T")
    ctx.close(T.dot(v), vt.vec(A.T), 0, 0, "T vec(A) = vec(A')")
    T2 = vt.sp_vec_trans_matrix((cols, rows))
    ctx.close(np.asarray(T.dot(T2).todense()), np.eye(rows * cols), 0, 0, "T_mn T_nm = I")
    ctx.close(np.asarray(T.T.todense()), np.asarray(T2.todense()), 0, 0, "T_mn' = T_nm")


@CHECK.sub(st.fixed_dictionaries({"p": st.integers(1, 60), "q": st.integers(1, 40), "cols": st.integers(1, 90), "seed": gen.seeds,
                                  "dtype": st.sampled_from(["float64", "float32", "int32", "int64"])}), quick=150, shards=2)
def large(c, ctx):
    """the same of matrices of up to some hundred thousand entries, by entry: A[i, j] goes where the definition says"""
    rng = np.random.RandomState(c["seed"] % 2 ** 31)
    p, q, cols = c["p"], c["q"], c["cols"]
    A = (rng.randint(-9, 1000, size=(p * q, cols)) * (rng.rand(p * q, cols) < 0.4)).astype(c["dtype"])
    ctx.nontrivial(p > 1 and q > 1 and cols > 1)
    ctx.label("more than 65536 entries", A.size > 65536)
    want = A.reshape(q, p, cols).transpose(2, 1, 0).reshape(cols * p, q)     # [j*p + i, b] = A[b*p + i, j]
    ctx.equal(np.asarray(vt.vec_transpose(A.copy(), p)), want, "dense vec-transpose")
    ctx.equal(np.asarray(vt.vec_transpose_csr(ssp.csr_matrix(A), p).todense()), want, "sparse vec-transpose")
    v = np.asarray(vt.vec(A))
    ctx.equal(v, A.T.reshape(-1, 1), "vec")
    B = A[:, :max(1, min(cols, 60000 // (p * q)))]
    T = vt.sp_vec_trans_matrix(B.shape)
    ctx.equal(np.asarray(T.dot(B.T.reshape(-1, 1).astype(np.float64))), B.reshape(-1, 1).astype(np.float64), "T vec(A) = vec(A')")
    ctx.equal(T.shape, (B.size, B.size), "shape of T")
