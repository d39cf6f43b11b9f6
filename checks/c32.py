"""C32: text matrices become arrays with every row, column and value."""
import contextlib
import io
import os
import pickle
import shutil
import tempfile

import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

from pbt import Check
import sidetopics.run.text_to_numpy as tn

CHECK = Check("C32", "generated matrices of whole and fractional, negative and zero values written as text, with declared row counts right "
              "and wrong; non-trivial = two or more rows and columns with a value other than nought",
              ["values are single precision or 32-bit integers", "lines of a sparse table may leave out noughts at their end"])

WHOLE = st.one_of(st.just(0), st.integers(-9, 9), st.sampled_from([2147483647, -2147483648, 16777217, 100000]))
FRACTION = st.one_of(WHOLE, st.floats(-1e6, 1e6, width=32), st.sampled_from([0.5, -0.25, 1e-7, 3.0]))


@st.composite
def case(draw):
    r, k = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    cell = draw(st.sampled_from([WHOLE, FRACTION]))
    m = [[draw(cell) for _ in range(k)] for _ in range(r)]
    if cell is FRACTION and draw(st.booleans()):      # the first line looks like whole numbers
        m[0] = [int(v) for v in m[0]]
    return {"m": m, "sep": draw(st.sampled_from([" ", "  ", "\t", " \t"])), "end": draw(st.sampled_from(["\n", " \n", "\r\n"])),
            "last": draw(st.booleans()), "lead": draw(st.sampled_from(["", " "])), "plus": draw(st.booleans()),
            "ext": draw(st.sampled_from([".dat", ".txt"])), "sparse": draw(st.booleans()), "rag": draw(st.integers(0, 9)),
            "off": draw(st.sampled_from([0, 0, 0, 0, 1, -1, 3])), "bad": draw(st.sampled_from([None] * 7 + ["x", "1,5", "--1"])),
            "ragged": draw(st.sampled_from([None] * 5 + ["short", "long", "one"]))}


def text_of(v, plus):
    s = repr(v)
    return "+" + s if plus and v > 0 else s


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix="c32-")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


@CHECK.sub(case(), quick=1800, shards=3)
def conversion(c, ctx):
    m = c["m"]
    rows = [[text_of(v, c["plus"]) for v in row] for row in m]
    if c["bad"] is not None:
        rows[-1][-1] = c["bad"]
    ragged = False
    if c["ragged"] and len(m) > 1:
        if c["sparse"] and c["bad"] is None:
            for r, row in zip(rows[1:], m[1:]):
                while len(r) > (r is rows[-1]) and row[len(r) - 1] == 0:
                    r.pop()
        elif not c["sparse"]:
            at = c["rag"] % (len(m) - 1) + 1
            rows[at] = rows[at] + rows[at][:1] if c["ragged"] == "long" else rows[at][:1 if c["ragged"] == "one" else -1]
            ragged = len(rows[at]) != len(m[0])
    text = c["end"].join(c["lead"] + c["sep"].join(r) for r in rows) + (c["end"] if c["last"] else "")
    whole = all(isinstance(v, int) for row in m for v in row)
    dtype = np.int32 if whole else np.float32
    want = np.array([[float(v) for v in row] for row in m]).astype(dtype)
    ctx.nontrivial(len(m) > 1 and len(m[0]) > 1 and want.any())
    ctx.label("whole", whole)
    fn = tn.save_as_numpy_sparse if c["sparse"] else tn.save_as_numpy
    with scratch() as d:
        src = os.path.join(d, "table" + c["ext"])
        with open(src, "w", newline="") as f:
            f.write(text)
        with open(src, "rb") as f:
            before = f.read()
        with open(src + ".cnt", "w") as f:
            f.write("%7d %s\n" % (len(m) + c["off"], src))
        n = tn.read_wc_l_output(src + ".cnt")
        ctx.equal(n, len(m) + c["off"], "declared rows")
        dst = os.path.join(d, "table.npy")
        failed = False
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            try:
                fn(src, n)
            except (SystemExit, Exception):
                failed = True
        with open(src, "rb") as f:
            ctx.check(f.read() == before, "the text file was changed")
        if c["off"] or c["bad"] is not None or ragged:
            ctx.label("refused")
            ctx.check(failed, "a file of %d rows was read as %d%s%s" % (len(m), n, ", with %r in it" % c["bad"] if c["bad"] else "",
                                                                        ", with lines of several lengths" if ragged else ""))
            ctx.check(not os.path.exists(dst), "a file that was refused has been written")
            return
        ctx.check(not failed, "a well-formed file was refused")
        ctx.equal(sorted(os.listdir(d)), sorted(["table" + c["ext"], "table" + c["ext"] + ".cnt", "table.npy"]), "files")
        with open(dst, "rb") as f:
            got = pickle.load(f)
    ctx.check(ssp.issparse(got) == c["sparse"], "kind of matrix is %s" % type(got))
    ctx.check(not c["sparse"] or got.format == "csr", "the matrix is not stored by rows, as datasets are")
    ctx.equal(np.dtype(got.dtype), np.dtype(dtype), "type of the values")
    ctx.equal(got.toarray() if c["sparse"] else got, want, "values")
