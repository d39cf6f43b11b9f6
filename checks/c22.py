"""C22: softmax, log-sum-exp and the self-soft-dot products."""
import numpy as np
from hypothesis import strategies as st

import gen
from pbt import Check
import sidetopics.util.sigmoid_utils as su

CHECK = Check("C22", "real matrices 1-7 x 1-7, now and then up to 300 wide or long, with moderate and with extreme entries, single and double "
              "precision; non-trivial = more than one column and unequal entries",
              ["single precision results are compared to 1e-4"])
if hasattr(su, "WarnIfSlow"):
    su.WarnIfSlow = False

WIDE = [0.0, 1.0, -1.0, 88.0, -88.0, 710.0, -710.0, 1000.0, -1000.0, 1e4, -1e4, 3.5, -0.25, 100.0, 50.0, 0.125]


@st.composite
def case(draw):
    D = draw(st.integers(1, 7))
    K = draw(st.integers(1, 7))
    wide = draw(st.booleans())
    if gen.rare(draw):
        D, K = draw(st.sampled_from([(2, 70), (70, 2), (40, 33), (1, 300), (300, 1), (130, 17)]))
        m = np.random.RandomState(draw(gen.seeds) % 2 ** 31).choice(WIDE if wide else gen.FLOATS, size=(D, K))
        m = {"no": m, "up": np.sort(m, axis=1), "down": -np.sort(-m, axis=1), "long": np.sort(m, axis=0)}[
            draw(st.sampled_from(["no", "up", "down", "long"]))].tolist()
    else:
        m = draw(gen.table(D, K, WIDE if wide else gen.FLOATS))
    return {"m": m, "wide": wide,
            "f32": draw(st.booleans()), "out": draw(st.sampled_from(["none", "other", "self"])),
            "w": draw(st.lists(st.sampled_from(draw(st.sampled_from([[1, 2, 0, 3, 5, 17, 100], [1.5, 2.25, 7.75], [0.5, 0.0, 0.125, 3, -1.5]]))),
                            min_size=D, max_size=D)),
            "wt": draw(st.sampled_from(["int64", "int32", "float32", "float64"])),
            "shift": draw(st.sampled_from([0.0, 1.0, -3.0, 50.0, 1000.0, -1000.0]))}


def ref_softmax(m):
    e = np.exp(m - m.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


@CHECK.sub(case(), quick=6000, shards=3)
def softmax(c, ctx):
    dt = np.float32 if c["f32"] else np.float64
    tol = 1e-5 if c["f32"] else 1e-12
    m = np.array(c["m"], dtype=dt)
    m0 = m.copy()
    ctx.nontrivial(m.shape[1] > 1 and len(np.unique(m)) > 1)
    ctx.label("extreme", c["wide"])
    for f, ref, axis in ((su.rowwise_softmax, ref_softmax(m0.astype(np.float64)), 1),
                         (su.colwise_softmax, ref_softmax(m0.astype(np.float64).T).T, 0)):
        m = m0.copy()
        if c["out"] == "none":
            got = f(m)
        elif c["out"] == "other":
            buf = np.full(m.shape, 5.0, dtype=dt)
            got = f(m, out=buf)
            ctx.equal(buf, got, "the supplied output")
        else:
            got = f(m, out=m)
            ctx.equal(m, got, "the overwritten argument")
        if c["out"] != "self":
            ctx.equal(m, m0, "the argument")
        ctx.check(got.dtype == dt, "dtype changed")
        ctx.distribution(got, "softmax", axis=axis, tol=1e-5)
        ctx.close(got, ref, rtol=tol * 10, atol=tol, what="softmax along axis %d" % axis)
        if not c["f32"]:        # small probabilities are not zero
            ctx.close(got, ref, rtol=1e-9, atol=1e-305, what="probabilities along axis %d" % axis)
        s = dt(c["shift"])
        ctx.close(f(m0 + s), ref_softmax((m0 + s).astype(np.float64)) if axis == 1 else
                  ref_softmax((m0 + s).astype(np.float64).T).T, rtol=tol * 10, atol=tol, what="shifted softmax")


@CHECK.sub(case(), quick=6000, shards=3)
def self_soft_dot(c, ctx):
    dt = np.float32 if c["f32"] else np.float64
    tol = 1e-4 if c["f32"] else 1e-10
    m = np.array(c["m"], dtype=dt)
    m0 = m.copy()
    w = np.array(c["w"], dtype=c["wt"])
    ctx.nontrivial(m.shape[0] > 1 and len(set(c["w"])) > 1)
    m64 = m0.astype(np.float64)
    prod = (ref_softmax(m64) * m64).sum(axis=1)
    scale = 1 + np.abs(prod).sum()
    ctx.close(su.selfSoftDot(m), prod.sum(), rtol=tol, atol=tol * scale, what="self soft dot")
    wp = prod * w.astype(np.float64)
    ctx.close(su.scaledSelfSoftDot(m, w), wp.sum(), rtol=tol, atol=tol * (1 + np.abs(wp).sum()),
              what="scaled self soft dot")
    if not c["f32"]:
        ml = m0.astype(np.longdouble)
        ctx.close(float(su.selfSoftDot(ml)), prod.sum(), rtol=tol, atol=tol * scale, what="self soft dot (fallback)")
        ctx.close(float(su.scaledSelfSoftDot(ml, w)), wp.sum(), rtol=tol, atol=tol * (1 + np.abs(wp).sum()),
                  what="scaled self soft dot (fallback)")
    ctx.equal(m, m0, "the argument")
    if (np.abs(m64) < (80 if c["f32"] else 700)).all():
        ctx.close(su.lse(m), np.logaddexp.reduce(m64, axis=1), rtol=tol, atol=tol, what="log-sum-exp per row")
