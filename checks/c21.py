"""C21: the overflow-safe log/exp helpers are accurate over the whole floating range."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import xlogy

import gen
from pbt import Check, need
import sidetopics.util.overflow_safe as osafe
import sidetopics.util.se_fast as se_fast

CHECK = Check("C21", "arrays (1-D and 2-D) mixing arbitrary doubles with values around every branch "
              "point of the helpers; non-trivial = two or more distinct values",
              ["single precision is held to absolute accuracy only, as the code's comments ask"])

EDGES = [0.0, -17.0, -16.999999, -17.000001, 33.0, 33.000001, 32.999999, 17.0, 17.000001, 16.999, 13.8,
         13.81, -11.0, -11.01, 11.01, 709.0, 710.0, 745.5, -745.5, -1000.0, 1000.0, 1e-8, -1e-8, 1e-20,
         0.375, 0.3750001, -0.375, -0.3750001, -0.9999, 36.0, 37.1, -1.3862943, -1.38, -1.39, 1e10, -1e10]
real = st.one_of(st.sampled_from(EDGES), st.floats(-40, 40, width=64), st.floats(-1e300, 1e300))
unit = st.one_of(st.sampled_from([0.0, 1e-300, 1e-301, 1e-35, 1e-36, 2e-35, 1e-320, 1.0, 0.5, 1e-10, 1e30]),
                 st.floats(0, 1), st.floats(0, 1e30), st.floats(0, 1e-290))


TIMES = st.sampled_from([1] * 30 + [11, 700, 5000])      # long arrays, now and then


def arrays(elem):
    return st.lists(elem, min_size=1, max_size=12)


def shaped(c, dt=np.float64):
    x = np.array(c["x"] * c.get("times", 1), dtype=dt)
    return x.reshape(1, -1) if c["two"] else x


def arr_case(elem):
    return st.builds(lambda x, two, times: {"x": x, "two": two, "times": times}, arrays(elem), st.booleans(), TIMES)


@CHECK.sub(arr_case(real), quick=6000, shards=2)
def log_one_plus_exp(c, ctx):
    x = shaped(c)
    x0 = x.copy()
    ctx.nontrivial(len(set(c["x"])) > 1)
    want = np.logaddexp(0.0, x0)
    got = osafe.safe_log_one_plus_exp_of(x)
    ctx.close(got, want, rtol=1e-7, atol=1e-300, what="log(1+exp(x))")
    ctx.close(np.asarray(got)[x0 > 0], want[x0 > 0], rtol=1e-12, atol=0, what="log(1+exp(x)) of a positive x")
    ctx.check(np.asarray(got).dtype == np.float64, "precision lost")
    ctx.check((np.asarray(got) >= np.maximum(x0, 0)).all(), "log(1+exp(x)) is below max(x,0)")
    ctx.equal(x, x0, "the argument")
    very = getattr(osafe, "_very_safe_log_one_plus_exp_of", None)
    if very is not None:
        # the same argument as a vector, as its own comment assumes
        ctx.close(very(x0.ravel().copy()), want.ravel(), rtol=1e-7, atol=1e-300, what="log(1+exp(x)), second form")
    scal = getattr(se_fast, "safe_log_one_plus_exp_f8", None)
    if scal is not None:
        for v, w in list(zip(x0.ravel(), want.ravel()))[:40]:
            ctx.close(scal(float(v)), w, rtol=1e-7, atol=1e-300, what="compiled log(1+exp(%r))" % float(v))
    ok = np.abs(x0) < 1e30
    x32 = x0[ok].astype(np.float32)
    if x32.size:
        w32 = np.logaddexp(0.0, x32.astype(np.float64))
        ctx.close(osafe.safe_log_one_plus_exp_of(x32), w32, rtol=1e-5, atol=1e-6, what="single precision")
        s4 = getattr(se_fast, "safe_log_one_plus_exp_f4", None)
        if s4 is not None:
            for v, w in list(zip(x32, w32))[:40]:
                ctx.close(s4(float(v)), w, rtol=3e-5, atol=1e-37, what="compiled single precision log(1+exp(%r))" % float(v))


@CHECK.sub(arr_case(st.one_of(st.floats(-0.999999, 2.0), st.floats(-1e-5, 1e-5), st.floats(0, 1e300),
                              st.sampled_from([0.0, 0.375, -0.375, 0.37499999, -0.3750001, 1e-300]))),
           quick=3000)
def log_one_plus(c, ctx):
    x = shaped(c)
    x0 = x.copy()
    ctx.nontrivial(len(set(c["x"])) > 1)
    got = osafe.safe_log_one_plus(x)
    # 1e-13 absolute: adding 1 to an argument away from zero costs one rounding
    ctx.close(got, np.log1p(x0), rtol=1e-9, atol=1e-300, what="log(1+x)")
    ctx.equal(x, x0, "the argument")


@CHECK.sub(st.builds(lambda x, two, f32, out, times: {"x": x, "two": two, "f32": f32, "out": out, "times": times},
                     arrays(unit), st.booleans(), st.booleans(), st.sampled_from(["none", "other", "self"]), TIMES),
           quick=6000, shards=2)
def logs_of_probabilities(c, ctx):
    dt = np.float32 if c["f32"] else np.float64
    x = shaped(c, dt)
    x0 = x.copy()
    tiny = 1e-35 if c["f32"] else 1e-300
    ctx.nontrivial(len(set(c["x"])) > 1)
    ctx.label("has zero", 0.0 in c["x"])
    want = np.log(np.maximum(x0.astype(np.float64), tiny))
    r = 1e-5 if c["f32"] else 1e-12
    xl = osafe.safe_x_log_x(x)
    ctx.close(xl, xlogy(x0.astype(np.float64), x0.astype(np.float64)), rtol=r, atol=1e-7 if c["f32"] else 1e-15,
              what="x log x")
    ctx.equal(x, x0, "the argument of x log x")
    if c["out"] == "none":
        got = osafe.safe_log(x)
        ctx.equal(x, x0, "the argument of log")
    elif c["out"] == "other":
        buf = np.full(x.shape, 99.0, dtype=dt)
        got = osafe.safe_log(x, out=buf)
        ctx.equal(np.array(buf), np.array(got), "the supplied output")
        ctx.equal(x, x0, "the argument of log")
    else:
        got = osafe.safe_log(x, out=x)
        ctx.equal(np.array(x), np.array(got), "the overwritten argument")
    # entries within rounding of the floor may go either way; both answers are the floor's log
    ctx.close(got, want, rtol=r, atol=r * 10, what="log")


@CHECK.sub(st.builds(lambda n, s, sc, f32: {"n": n, "seed": s, "scale": sc, "f32": f32},
                     st.integers(1, 6), gen.seeds, st.sampled_from([1.0, 1e-3, 1e3, 1e-40, 1e40, 1e-60]), st.booleans()),
           quick=1500)
def determinants(c, ctx):
    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    f32 = c["f32"] and 1e-20 < c["scale"] < 1e20
    dt = np.float32 if f32 else np.float64
    B = rng.randn(n, n)
    X = ((B.dot(B.T) + n * np.eye(n)) * c["scale"]).astype(dt)
    X0 = X.copy()
    eig = np.linalg.eigvalsh(X.astype(np.float64) / c["scale"])
    want = np.log(eig).sum() + n * np.log(c["scale"])
    ctx.nontrivial(n > 1)
    tol = 1e-3 if f32 else 1e-8
    ctx.close(osafe.safe_log_det(X), want, rtol=tol, atol=tol * n, what="log determinant")
    d = np.abs(np.diag(X)).astype(dt)
    ctx.close(osafe.lnDetOfDiagMat(np.diag(d)), np.log(d.astype(np.float64)).sum(), rtol=tol, atol=tol * n,
              what="log determinant of a diagonal matrix")
    tiny = 1e-35 if f32 else 1e-300
    det = float(osafe.safeDet(X))
    ctx.check(det > 0 and np.isfinite(np.log(det)) or want > 700, "safe determinant is not positive: %r" % det)
    if -30 < want < 30:
        ctx.close(det, np.exp(want), rtol=1e-2 if f32 else 1e-6, atol=0, what="determinant")
    # singular and negative determinants are replaced by a tiny positive number
    diag = np.eye(n)
    diag[0, 0] = -rng.choice([1.0, 0.5, 1e-3, 1e-20, 30.0])
    neg = (np.linalg.qr(B)[0] @ diag @ np.linalg.qr(B)[0].T if n > 1 and rng.randint(2) and diag[0, 0] < -1e-10 else diag).astype(dt)
    for bad in (np.zeros((n, n), dtype=dt), neg):
        got = float(osafe.safeDet(bad))
        ctx.check(0 < got <= tiny * 1.01, "safe determinant of a non-positive-definite matrix: %r" % got)
    ctx.equal(X, X0, "the argument")
