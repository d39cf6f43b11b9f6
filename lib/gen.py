"""Generators shared by the checks. Every case is plain JSON data."""
import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

# value tables: byte 0 is the simplest value, so shrinking moves towards it
COUNTS = [0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 0, 1, 4, 7]
FLOATS = [0.0, 1.0, -1.0, 0.5, 2.0, -0.5, 3.0, -2.0, 0.25, 10.0, 0.1, -0.1, 7.5, -7.5, 1e-3, 30.0]
POSITIVE = [1.0, 0.5, 2.0, 0.25, 3.0, 0.1, 5.0, 0.75, 10.0, 0.01, 1.5, 0.3, 7.0, 0.9, 20.0, 0.05]
seeds = st.integers(0, 2 ** 31 - 2)


@st.composite
def table(draw, rows, cols, values):
    """rows x cols, as a list of lists drawn from the 16 values."""
    if rows * cols > 600:       # too much to draw byte by byte
        raw = np.random.RandomState(draw(st.integers(0, 10 ** 6))).bytes(rows * cols)
    else:
        raw = draw(st.binary(min_size=rows * cols, max_size=rows * cols))
    return [[values[raw[r * cols + c] & 15] for c in range(cols)] for r in range(rows)]


WIDE_D = [40, 12, 17, 33, 65, 101, 130, 11]
WIDE_T = [40, 130, 20, 260, 70, 130, 260, 12]


def rare(draw, n=24):
    """true once in n cases, and never in a shrunk one"""
    return draw(st.integers(0, n - 1)) == n - 1


@st.composite
def counts(draw, min_d=1, max_d=8, min_t=2, max_t=10, empty_rows=False, empty_cols=True,
           big=False, wide=0, one_in=24):
    D = draw(st.integers(min_d, max_d))
    T = draw(st.integers(min_t, max_t))
    if wide and rare(draw, one_in):
        # far larger than the rest, up to the given number of documents and words
        if min_d < max_d:
            D = min(wide, draw(st.sampled_from(WIDE_D)))
        if min_t < max_t:
            T = min(2 * wide, draw(st.sampled_from(WIDE_T)))
        rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
        keep = rng.rand(D, T) < draw(st.sampled_from([0.3, 0.05, 0.9]))
        m = np.array(COUNTS)[rng.randint(0, 16, (D, T))]
        m = (np.maximum(m, rng.rand() < 0.4) * keep).tolist()
        if rng.rand() < 0.3:
            m[rng.randint(D)][rng.randint(T)] = int(rng.choice([40, 129, 260, 1100]))
    else:
        m = draw(table(D, T, COUNTS))
    if not empty_rows:
        for d in range(D):
            if sum(m[d]) == 0:
                m[d][d % T] = 1
    if not empty_cols:
        for t in range(T):
            if sum(m[d][t] for d in range(D)) == 0:
                m[t % D][t] += 1
    if big and draw(st.booleans()):
        d = draw(st.integers(0, D - 1))
        t = draw(st.integers(0, T - 1))
        m[d][t] = draw(st.sampled_from([12, 40, 300]))
    return m


def mat(m, dtype=np.float64):
    return np.array(m, dtype=dtype)


def csr(m, dtype=np.float64):
    return ssp.csr_matrix(np.array(m, dtype=dtype))


def messy_csr(m, dtype, noise, seed):
    """The same matrix with unsorted indices and, if asked for, explicit zeros."""
    a = np.array(m, dtype=dtype)
    D, T = a.shape
    rng = np.random.RandomState(seed)
    data, ind, ptr = [], [], [0]
    for d in range(D):
        cols = [t for t in range(T) if a[d, t] != 0 or (noise and rng.rand() < 0.15)]
        cols = [cols[i] for i in rng.permutation(len(cols))]
        ind += cols
        data += [a[d, t] for t in cols]
        ptr.append(len(ind))
    return ssp.csr_matrix((np.array(data, dtype=dtype), np.array(ind, dtype=np.int32),
                           np.array(ptr, dtype=np.int32)), shape=(D, T))


def dirichlet(seed, rows, cols, conc=0.7, floor=1e-4):
    rng = np.random.RandomState(seed)
    x = rng.gamma(conc, size=(rows, cols)) + floor
    return x / x.sum(axis=1, keepdims=True)
