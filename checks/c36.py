"""C36: what training logs is true of the model at that point, and it stops early only when nothing much is gained."""
import io
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st

import gen
import models
import side
from pbt import Check

CHECK = Check("C36", "runs of several logged points, or runs long enough (over thirty or fifty iterations) to stop early; "
              "non-trivial = two or more logged points, or a run that stopped early",
              ["the iteration an entry is labelled with counts from zero and may name the start or the end of the stretch it follows",
               "symmetric topic priors: the collapsed trainers report the mean of a vector of them"])

COLLAPSED = ("lda_cvb0", "lda_cvb")
FLOOR = {"lda_cvb0": 50, "lda_cvb": 30, "mom_em": 50}      # nothing stops earlier
LIKE = {"lda_cvb0": "log_likelihood_point", "lda_cvb": "log_likelihood", "mom_em": "log_likelihood_point",
        "mom_gibbs": "log_likelihood_point"}
BOUND = {"lda_cvb0": "log_likelihood_expected", "lda_cvb": "var_bound", "mom_em": "var_bound", "mom_gibbs": "var_bound"}


def points(kind, n, f):
    """the numbers of iterations after which a full run of n iterations is logged every f"""
    if kind in COLLAPSED:
        k = 1 if f == 0 else max(1, n // f)
        return [f * (i + 1) for i in range(k - 1)] + [n]
    return [i + 1 for i in range(n) if f > 0 and i % f == 0]


def run(c, n, f):
    models.seed_all(c)
    data = models.dataset(c)
    model = models.new_model(c, data)
    q = models.new_query(c, data, model)
    kw = {"burnIn": 0, "thinning": 1} if c["kind"] == "mom_gibbs" else {}
    out = io.StringIO()
    with redirect_stdout(out), np.errstate(all="ignore"):
        model, q, log = models.module(c).train(data, model, q, models.plan(c, n, f, **kw))
    return data, model, q, [list(x) for x in log], out.getvalue()


def value(c, name, data, model, q):
    with np.errstate(all="ignore"):
        return float(np.sum(getattr(models.module(c), name[c["kind"]])(data, model, q)))


@st.composite
def short(draw):
    c = draw(models.config(kinds=["lda_cvb0", "lda_cvb", "mom_em", "mom_gibbs"], vector_prior=False, max_iters=14))
    if draw(st.integers(0, 3)) == 3 and c.get("dtype") != "float32" and len(c["m"]) < 9 and len(c["m"][0]) < 9:
        c["iters"] = draw(st.integers(15, 25))
    c["iters"] = min(c["iters"], 25)      # before any early stop
    if c["kind"] in models.MIXTURES:
        c.pop("debug", 0)                 # every iteration would be logged
    c["every"] = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 7, 20]))
    return c


@CHECK.sub(short(), quick=1500, shards=8)
def logged_values(c, ctx):
    n, f = c["iters"], c["every"]
    data, model, q, (iters, bounds, likes), _ = run(c, n, f)
    want = points(c["kind"], n, f)
    ctx.label(c["kind"])
    ctx.check(len(iters) == len(bounds) == len(likes), "logged %d iterations, %d bounds and %d likelihoods" % (len(iters), len(bounds), len(likes)))
    full = run(c, n, 0)
    same = True
    for a in full[1]._fields:
        x, y = getattr(model, a), getattr(full[1], a)
        if isinstance(x, np.ndarray) and x.dtype != object:
            ctx.close(np.asarray(x, dtype=np.float64), np.asarray(y, dtype=np.float64), models.tol(c), models.tol(c), "the model's %s with and without logging" % a)
    if c["kind"] == "mom_em":
        # it may stop once its topics no longer move, before the point is logged
        ctx.check(len(iters) <= len(want), "%d entries for %d points" % (len(iters), len(want)))
    else:
        ctx.equal(len(iters), len(want), "number of entries for %d iterations, every %d" % (n, f))
    ctx.nontrivial(len(iters) > 1)
    ctx.check(all(b > a for a, b in zip(iters, iters[1:])), "logged iterations are %r" % iters)
    ctx.check(all(0 <= i < n for i in iters), "logged iterations are %r of %d" % (iters, n))
    for i, (b, l, it) in enumerate(zip(bounds, likes, want)):
        d, m, qq, _, _ = run(c, it, 0)
        lo = (f * i, it - 1) if c["kind"] in COLLAPSED else (it - 1, it - 1)
        ctx.check(lo[0] <= iters[i] <= lo[1], "an entry after %d iterations is labelled %d" % (it, iters[i]))
        r = 1e-3 if models.dtype(c) == np.float32 else 1e-7
        ctx.close(float(np.sum(l)), value(c, LIKE, d, m, qq), r, r, what="likelihood logged after %d iterations" % it)
        ctx.close(float(np.sum(b)), value(c, BOUND, d, m, qq), r, r, what="bound logged after %d iterations" % it)


@st.composite
def long(draw):
    c = draw(models.config(kinds=["lda_cvb0", "lda_cvb", "mom_em"], vector_prior=False, min_d=2, max_d=5, max_t=6, max_k=3))
    c["iters"] = draw(st.integers(25, 140))
    c.pop("debug", 0)
    c["every"] = draw(st.sampled_from([5, 7, 10, 13, 20, 30]))
    c["dtype"] = "float64"
    return c


@CHECK.sub(long(), quick=500, shards=8)
def early_stop(c, ctx):
    n, f = c["iters"], c["every"]
    data, model, q, (iters, bounds, likes), _ = run(c, n, f)
    want = points(c["kind"], n, f)
    perps = [float(np.exp(-np.sum(l) / data.words.sum())) for l in likes]
    k = len(iters)
    ctx.label(c["kind"])
    if c["kind"] == "mom_em":
        # either its topics stopped moving, or its perplexity did
        for i in range(2, k):
            if iters[i] > 50 and perps[i - 1] - perps[i] < 1 - 1e-9:
                ctx.equal(k, i + 1, "entries made after the perplexity no longer improved at entry %d" % i)
        ctx.nontrivial(k < len(want))
        stop = iters[-1] + 1
        if k >= 3 and iters[-1] > 50 and perps[-2] - perps[-1] < 1 - 1e-9:
            # the model returned is that of the last entry
            d, m, qq, _, _ = run(c, stop, 0)
            ctx.close(np.asarray(model.wordDistParam if hasattr(model, "wordDistParam") else models.module(c).wordDists(model)),
                      np.asarray(m.wordDistParam if hasattr(m, "wordDistParam") else models.module(c).wordDists(m)), 1e-7, 1e-9, "the model stopped early")
        return
    stopped = rule(c, ctx, n, f, iters, want, perps)
    ctx.nontrivial(stopped)
    if stopped:
        # the model returned is that of the point it stopped at
        d, m, qq, _, _ = run(c, want[k - 1], 0)
        ctx.close(model.n_kt, m.n_kt, 1e-6, 1e-7, "the counts of the model that stopped early")
        ctx.close(q.n_dk, qq.n_dk, 1e-6, 1e-7, "the documents of the model that stopped early")


def rule(c, ctx, n, f, iters, want, perps):
    """a collapsed trainer stops once a point after the floor gained less than one, and no sooner"""
    k = len(iters)
    ctx.check(k <= len(want), "%d entries for %d points" % (k, len(want)))
    stopped = iters[-1] < n - 1
    ctx.check(stopped == (k < len(want)), "entries %r for %d iterations every %d" % (iters, n, f))
    if stopped:
        ctx.check(k >= 3, "stopped after %d measurements" % k)
        ctx.check(want[k - 1] > FLOOR[c["kind"]], "stopped after %d iterations" % want[k - 1])
        ctx.check(perps[-2] - perps[-1] < 1 + 1e-6, "stopped though the perplexity improved from %r to %r" % tuple(perps[-2:]))
    for i in range(2, k - 1):
        if want[i] - f > FLOOR[c["kind"]] and want[i] < n:
            ctx.check(perps[i - 1] - perps[i] >= 1 - 1e-6, "did not stop though the perplexity went from %r to %r by iteration %d"
                      % (perps[i - 1], perps[i], want[i]))
    return stopped


@st.composite
def slow(draw):
    D, K = draw(st.integers(12, 50)), draw(st.integers(3, 10))
    return {"kind": draw(st.sampled_from(COLLAPSED)), "D": D, "T": draw(st.integers(500, 2500)), "K": K,
            "len": draw(st.integers(20, 80)), "conc": draw(st.sampled_from([0.03, 0.1, 0.3, 1.0])),
            "alpha": draw(st.sampled_from([1.7, 0.1, 0.7, 5.0, 20.0])), "beta": draw(st.sampled_from([0.1, 0.01, 0.05, 0.6])),
            "iters": draw(st.integers(60, 160)), "every": draw(st.sampled_from([10, 15, 20, 25])),
            "dtype": "float64", "seed": draw(gen.seeds)}


@CHECK.sub(slow(), quick=1200, shards=8)
def slow_stop(c, ctx):
    """corpora of many words, which still gain after the earliest stop"""
    r = np.random.RandomState(c["seed"] % 2 ** 31)
    phi = r.dirichlet([c["conc"]] * c["T"], c["K"])
    theta = r.dirichlet([0.3] * c["K"], c["D"])
    m = np.array([r.multinomial(c["len"], p / p.sum()) for p in theta @ phi])
    c = dict(c, m=m)
    n, f = c["iters"], c["every"]
    data, model, q, (iters, bounds, likes), _ = run(c, n, f)
    want = points(c["kind"], n, f)
    perps = [float(np.exp(-np.sum(l) / data.words.sum())) for l in likes]
    rule(c, ctx, n, f, iters, want, perps)
    late = [i for i in range(2, len(perps)) if want[i] > FLOOR[c["kind"]]]
    ctx.label(c["kind"])
    ctx.label("went on after the earliest stop", len(late) > 1)
    ctx.nontrivial(any(perps[i - 1] - perps[i] >= 1 for i in late))


@st.composite
def linked(draw):
    c = draw(side.config(["rtm", "mtm3"], min_d=3, max_d=6, max_iters=7))
    if not any(map(any, c["l"])):
        c["l"][1][0] = 1
    return c


def run_linked(c, n, f):
    np.random.seed(c["seed"] % 2 ** 31)
    data = side.dataset(c)
    mod = side.module(c)
    with side.quiet(), np.errstate(all="ignore"):
        model = side.new_model(c, data)
        q = mod.newQueryState(data, model)
        model, q, log = mod.train(data, model, q, side.plan(c, n, f))
    return data, model, q, [list(x) for x in log]


@CHECK.sub(linked(), quick=240, shards=8)
def linked_values(c, ctx):
    """the same for the models of links, which log the first iteration and every so many after it"""
    n, f = c["iters"], c["log"]
    mod = side.module(c)
    data, model, q, (iters, bounds, likes) = run_linked(c, n, f)
    ctx.label(c["kind"])
    ctx.check(len(iters) == len(bounds) == len(likes), "logged %d iterations, %d bounds and %d likelihoods" % (len(iters), len(bounds), len(likes)))
    want = [i for i in range(n) if i % f == 0]
    ctx.equal([int(i) for i in iters], want[:len(iters)], "logged iterations")
    if len(iters) < len(want):
        ctx.label("stopped early")
        ctx.check(len(iters) > 1, "stopped after one measurement")
    ctx.nontrivial(len(iters) > 1)
    for i, b, l in zip(iters, bounds, likes):
        if c["kind"] == "rtm" and i > 0 and i % mod.HyperParamUpdateInterval == 0:
            continue        # logged before the iteration's update of its hyper-parameters
        d, m, qq, _ = run_linked(c, int(i) + 1, f)     # logged alike: its rounding is not always damped
        with side.quiet(), np.errstate(all="ignore"):
            wl, wb = float(np.sum(mod.log_likelihood(d, m, qq))), float(np.sum(mod.var_bound(d, m, qq)))
        ctx.close(float(np.sum(l)), wl, 1e-6, 1e-6, "likelihood logged at iteration %d" % i)
        ctx.close(float(np.sum(b)), wb, 1e-6, 1e-6, "bound logged at iteration %d" % i)
