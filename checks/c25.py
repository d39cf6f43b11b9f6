"""C25: correlated and side-topic models: valid states, harmless logging, and inference document by document."""
import contextlib
import io

import numpy as np
import scipy.linalg as la
import scipy.sparse as ssp
from hypothesis import strategies as st

import gen
import side
from pbt import Check, Discard
from sidetopics.model.common import DataSet

CHECK = Check("C25", "documents differ in their words and there are two iterations or more (queries: two documents or more)",
              ["two documents or more, none empty, words and features of the model's type",
               "the Bohning side-topic model may find its covariance singular when there are three documents or fewer, or after hundreds of steps",
               "metamorphic relations use at most 12 iterations, before any run may stop early; queries of stm_yv_bohning, which always "
               "run until the perplexity of all documents settles, are repeated with documents reordered and duplicated only",
               "single precision: finite and valid results only"])

BOHNING = ["ctm_bohning", "ctm_bohning_fast", "ctm_grad_arb", "stm_yv_bohning", "stm_uv_vecy_bohning"]
BOUCHARD = ["ctm", "stm_yv"]
KINDS = BOUCHARD + BOHNING
SIDE = ["stm_yv", "stm_yv_bohning", "stm_uv_vecy_bohning"]


@st.composite
def case(draw, kinds=KINDS, max_iters=6, query=False):
    c = draw(side.config(kinds, max_t=7, max_iters=max_iters))
    c["log"] = draw(st.sampled_from([1, 2, 3, 0, 5, 50]))
    c["fast"], c["apart"] = draw(st.sampled_from([False, False, True])), draw(st.sampled_from([1, 30, 1000, 1e5]))
    if query:
        T = len(c["m"][0])
        c["q"] = draw(gen.counts(min_d=1, max_d=5, min_t=T, max_t=T))
        if "x" in c:
            c["qx"] = draw(gen.table(len(c["q"]), len(c["x"][0]), [0, 1, 0, 1, 1, 0, 2, 0, 1, 0, 1, 0, 1, 3, 0, 1]))
        c["qit"] = draw(st.integers(1, 12))
    return c


def copied(state):
    return type(state)(*[v.copy() if isinstance(v, np.ndarray) else v for v in state])


def start(c):
    np.random.seed(c["seed"] % 2 ** 31)
    data = side.dataset(c)
    with side.quiet():
        model = side.new_model(c, data)
        return data, model, side.module(c).newQueryState(data, model)


def run(c, data, model, query, iters=None, log=None, **kw):
    """trains copies, and says what was logged"""
    mod = side.module(c)
    plan = mod.newTrainPlan(c["iters"] if iters is None else iters, logFrequency=c["log"] if log is None else log, **kw)
    try:
        with side.quiet(), contextlib.redirect_stderr(io.StringIO()):
            return mod.train(data, mod.newModelFromExisting(model), copied(query), plan)
    except np.linalg.LinAlgError:
        if c["kind"] == "stm_yv_bohning" and (data.words.shape[0] <= 3 or (iters or 0) > 30):
            raise Discard()
        raise


def softmax(a):
    a = np.asarray(a, dtype=float)
    e = np.exp(a - a.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


def log_like(words, means, vocab):
    p = softmax(means) @ np.asarray(vocab, dtype=float)
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(words > 0, words * np.log(p), 0.0).sum(axis=1)


def valid(ctx, c, data, model, query):
    words = np.asarray(data.words.todense(), dtype=float)
    ctx.finite(query.means, "means of topics")
    ctx.finite(query.varcs, "variances of topics")
    ctx.check((query.varcs > 0).all(), "a variance of topics is not positive")
    ctx.check(query.means.shape == query.varcs.shape == (len(words), c["K"]), "topics have shape %r" % (query.means.shape,))
    ctx.close(query.docLens, words.sum(axis=1), what="document lengths")
    ctx.distribution(model.vocab, what="words of topics")
    ctx.check(model.vocab.shape == (c["K"], words.shape[1]), "words of topics have shape %r" % (model.vocab.shape,))
    sig = np.asarray(model.sigT, dtype=float)
    ctx.finite(sig, "covariance of topics")
    ctx.close(sig, sig.T, rtol=1e-5, atol=1e-9 * np.abs(sig).max(), what="covariance of topics, transposed")
    ctx.check(np.linalg.eigvalsh((sig + sig.T) / 2).min() > -1e-7 * np.abs(sig).max() and (np.diag(sig) > 0).all(),
              "the covariance of topics is not positive")
    for name in ("topicMean", "A", "Y", "V"):
        if hasattr(model, name):
            ctx.finite(getattr(model, name), name)


def reported(ctx, c, data, model, query):
    mod, words = side.module(c), np.asarray(data.words.todense(), dtype=float)
    tol = 1e-8 if c["dtype"] == "float64" else 1e-4
    want, got = log_like(words, query.means, model.vocab).sum(), float(mod.log_likelihood(data, model, query))
    ctx.check(abs(got - want) <= tol * max(1, abs(want)), "log likelihood %r, want %r" % (got, want))
    if hasattr(mod, "topicDists"):
        ctx.close(mod.topicDists(query), softmax(query.means), rtol=1e-5, what="topics of documents")
    if hasattr(mod, "wordDists"):
        ctx.close(mod.wordDists(model), model.vocab, what="words of topics")


def frozen(data):
    return data.words.copy(), None if data.feats is None else data.feats.copy()


def untouched(ctx, data, snap, what):
    for now, was, name in ((data.words, snap[0], "words"), (data.feats, snap[1], "features")):
        if was is not None:
            ctx.check(now.dtype == was.dtype and now.shape == was.shape and abs(now - was).sum() == 0, "%s changed the %s" % (what, name))


def same(ctx, a, b, what, rtol=1e-6, rows=None, cols=None, skip=()):
    """every field of state a is that of b, whose documents (rows) and words (cols) may be in another order"""
    for name in a._fields:
        x, y = getattr(a, name), getattr(b, name)
        if name in skip:
            continue
        if isinstance(y, np.ndarray):
            if rows is not None and name != "vocab":
                y = y[rows]
            if cols is not None and name == "vocab":
                y = y[:, cols]
            ctx.close(x, y, rtol=rtol, atol=rtol * max(1.0, np.abs(np.asarray(y)).max() if np.asarray(y).size else 0), what="%s: %s" % (what, name))


def busy(c):
    return len(set(map(tuple, c["m"]))) > 1 and c["iters"] > 1


@CHECK.sub(case(), quick=700, shards=8)
def training(c, ctx):
    ctx.nontrivial(busy(c))
    ctx.label(c["kind"])
    data, model, query = start(c)
    snap, mod = frozen(data), side.module(c)
    model, query, (its, bounds, likes) = run(c, data, model, query, fastButInaccurate=c["fast"])
    valid(ctx, c, data, model, query)
    reported(ctx, c, data, model, query)
    untouched(ctx, data, snap, "training")
    want = list(range(0, c["iters"], c["log"])) if c["log"] else []
    ctx.check([int(i) for i in its] == want, "logged at iterations %r, want %r" % (list(its), want))
    ctx.check(len(bounds) == len(likes) == len(want), "%d bounds and %d likelihoods logged" % (len(bounds), len(likes)))
    if c["dtype"] == "float64" and want and want[-1] == c["iters"] - 1:
        got = float(mod.log_likelihood(data, model, query))
        ctx.check(abs(float(likes[-1]) - got) <= 1e-7 * max(1, abs(got)), "last likelihood logged is %r, of the result %r" % (likes[-1], got))
    far = copied(query)._replace(means=query.means * c["apart"])
    was, mwas = copied(far), copied(model)
    with side.quiet(), np.errstate(all="ignore"):
        mod.var_bound(data, model, far)
        mod.log_likelihood(data, model, far)
    same(ctx, far, was, "documents after they were scored", 0, skip=("expMeans",))
    same(ctx, model, mwas, "model after scoring", 0)
    twin = mod.newModelFromExisting(model)
    before = copied(twin)
    same(ctx, twin, model, "copy of the model", rtol=0)
    with side.quiet(), contextlib.redirect_stderr(io.StringIO()), contextlib.suppress(np.linalg.LinAlgError):
        mod.train(data, model, copied(query), mod.newTrainPlan(1, logFrequency=1))
    same(ctx, twin, before, "copy of the model, after training the original", rtol=0)


@CHECK.sub(case(max_iters=8), quick=400, shards=8)
def logging(c, ctx):
    """how often a run reports does not change what it learns"""
    ctx.nontrivial(busy(c))
    ctx.label(c["kind"])
    data, model, query = start(c)
    m1, q1, logs = run(c, data, model, query, log=1)
    rtol = 1e-6 if c["dtype"] == "float64" else 1e-2
    for log in sorted({c["log"], 0}):
        m2, q2, other = run(c, data, model, query, log=log)
        same(ctx, m2, m1, "model, logging every %d" % log, rtol)
        same(ctx, q2, q1, "documents, logging every %d" % log, rtol, skip=("expMeans",))
        if log:
            ctx.close(np.array(other[2], dtype=float), np.array(logs[2], dtype=float)[::log], rtol=1e-5, what="likelihoods logged every %d" % log)
    for debug in (False, True):
        m2, q2, other = run(c, data, model, query, log=1, debug=debug)
        same(ctx, m2, m1, "model, with debug %s" % debug, rtol)
        same(ctx, q2, q1, "documents, with debug %s" % debug, rtol, skip=("expMeans",))
        ctx.close(np.array(other[1:], dtype=float), np.array(logs[1:], dtype=float), rtol=1e-5, what="values logged with debug %s" % debug)


@CHECK.sub(case(), quick=400, shards=8)
def renumbering(c, ctx):
    """the order of documents and words is of no importance"""
    c["dtype"] = "float64"
    ctx.nontrivial(busy(c))
    ctx.label(c["kind"])
    data, model, query = start(c)
    rng = np.random.RandomState(c["seed"] % 9973)
    D, T = data.words.shape
    rows, cols = rng.permutation(D), rng.permutation(T)
    m1, q1, _ = run(c, data, model, query)
    other = DataSet(ssp.csr_matrix(data.words.todense()[rows][:, cols]), None if data.feats is None else ssp.csr_matrix(data.feats.todense()[rows]))
    model2 = model._replace(vocab=np.ascontiguousarray(model.vocab[:, cols]))
    query2 = type(query)(*[np.ascontiguousarray(v[rows]) for v in query])
    m2, q2, _ = run(c, other, model2, query2)
    same(ctx, m2, m1, "model", 1e-5, cols=cols, skip=("R_Y", "Y", "V") if c["kind"] == "stm_yv_bohning" else ())
    same(ctx, q2, q1, "documents", 1e-5, rows=rows)


def parts(c, model, data, means):
    """prior precision, prior means, lengths"""
    isig = np.linalg.inv(np.asarray(model.sigT, dtype=float))
    if "x" in c:
        mu = np.asarray(data.feats.todense(), dtype=float) @ np.asarray(model.A, dtype=float).T
    else:
        mu = np.tile(np.asarray(model.topicMean, dtype=float), (len(means), 1))
    return isig, mu, np.asarray(data.words.sum(axis=1), dtype=float).reshape(-1)


def responsibilities(words, means, vocab):
    """expected number of words of each document given to each topic"""
    th = softmax(means)
    p = th @ vocab
    return th * (np.where(words > 0, words / np.where(p > 0, p, 1), 0) @ vocab.T)


def gains(ctx, words, model, prior, m0, m1):
    """a quadratic bound that touches the log posterior of a document's topics: one step gains at least half of g'H^-1 g"""
    isig, mu, n = prior
    K, vocab = m0.shape[1], np.asarray(model.vocab, dtype=float)

    def post(m):
        return log_like(words, m, vocab) - 0.5 * np.einsum("dk,kj,dj->d", m - mu, isig, m - mu)

    bound = 0.5 * (np.eye(K) - 1.0 / (K + 1))
    f0, f1 = post(m0), post(m1)
    g = responsibilities(words, m0, vocab) - n[:, None] * softmax(m0) - (m0 - mu) @ isig
    for d in range(len(words)):
        gain = 0.5 * g[d] @ np.linalg.solve(isig + n[d] * bound, g[d])
        slack = 1e-7 * max(1.0, abs(f0[d]), abs(f1[d]), np.linalg.cond(isig) * 1e-6)
        ctx.check(f1[d] >= f0[d] + gain - slack, "document %d: the log posterior of its topics went from %r to %r, want a gain of %r"
                  % (d, f0[d], f1[d], gain))


def settles(ctx, words, model, prior, m0, m1):
    """the slope of the posterior of a document's topics is no greater than the last steps, each as long as that slope made it, allow for"""
    isig, mu, n = prior
    g = responsibilities(words, m1, np.asarray(model.vocab, dtype=float)) - n[:, None] * softmax(m1) - (m1 - mu) @ isig
    for d in range(len(words)):
        steep = np.abs(isig).sum(axis=1).max() + n[d]
        ctx.check(np.abs(g[d]).max() <= steep * (10 * np.abs(m1 - m0).max() + 1e-6), "document %d: its topics have changed by %r, but the slope is %r"
                  % (d, np.abs(m1 - m0).max(), g[d]))


def tangent(ctx, words, vocab, prior, lxi, q0, q1, shift=False):
    """the quadratic bound given by state q0, and by words given to topics by vocab, is maximal at the means of q1"""
    isig, mu, n = prior
    s = np.asarray(q0.s, dtype=float)
    S = responsibilities(words, np.asarray(q0.means, dtype=float), np.asarray(vocab, dtype=float))
    for d in range(len(words)):
        want = np.linalg.solve(isig + np.diag(n[d] * lxi[d]), S[d] + n[d] * (s[d] * lxi[d] - 0.5) + isig @ mu[d])
        if shift:
            want = want - want[0]
        ctx.close(q1.means[d], want, rtol=1e-6, atol=1e-7 * max(1.0, np.abs(want).max()), what="means of document %d after a step" % d)
        ctx.close(q1.varcs[d], 1 / (n[d] * lxi[d] + np.diag(isig)), what="variances of document %d after a step" % d)


@CHECK.sub(case(query=True), quick=500, shards=8)
def querying(c, ctx):
    ctx.nontrivial(len(c["q"]) > 1 and len(set(map(tuple, c["q"]))) > 1)
    ctx.label(c["kind"])
    data, model, query = start(c)
    mod = side.module(c)
    model, trained, _ = run(c, data, model, query)
    f64 = c["dtype"] == "float64"

    def slice_of(rows):
        x = None if "x" not in c else [c["qx"][r] for r in rows]
        return side.dataset(c, [c["q"][r] for r in rows], x)

    everything = list(range(len(c["q"])))
    other = slice_of(everything)
    np.random.seed(c["seed"] % 9973)
    with side.quiet():
        first = mod.newQueryState(other, model)
    snap, msnap, tsnap = frozen(other), copied(model), copied(trained)

    def ask(rows, d):
        q = type(first)(*[np.array(v[rows]) for v in first])
        with side.quiet():
            return mod.query(d, model, q, mod.newTrainPlan(c["qit"]))

    m2, q2 = ask(everything, other)
    untouched(ctx, other, snap, "a query")
    same(ctx, model, msnap, "model after a query", 0)
    same(ctx, m2, msnap, "returned model after a query", 0)
    same(ctx, trained, tsnap, "training documents after a query", 0)
    valid(ctx, c, other, m2, q2)
    reported(ctx, c, other, m2, q2)
    _, q3 = ask(everything, slice_of(everything))
    same(ctx, q3, q2, "documents of a repeated query", 0)
    cut = 1 + c["seed"] % len(everything)
    groups = (everything[:cut], everything[cut:], everything[::-1])
    if c["kind"] == "stm_yv_bohning":
        # always runs until the perplexity of the whole query settles, which is that of all documents twice over
        groups = (everything[::-1], everything + everything[::-1], [r for r in everything for _ in range(3)])
    for rows in groups:
        if rows:
            _, q4 = ask(rows, slice_of(rows))
            same(ctx, q4, type(q2)(*[v[rows] for v in q2]), "documents asked for apart", 1e-6 if f64 else 2e-2, skip=("expMeans",))
    if not f64:
        return
    words = np.asarray(other.words.todense(), dtype=float)
    prior = parts(c, model, other, first.means)
    if c["kind"] in BOHNING:
        gains(ctx, words, model, prior, np.asarray(first.means, dtype=float), np.asarray(q2.means, dtype=float))
    else:
        q1 = first
        if c["qit"] > 1:
            with side.quiet():
                q1 = mod.query(other, model, copied(first), mod.newTrainPlan(c["qit"] - 1))[1]
        # the factor of two is taken by the state, or by its use; the first state of ctm has none
        lxi = np.asarray(q1.lxi, dtype=float) * (2 if c["kind"] == "stm_yv" else 1)
        tangent(ctx, words, model.vocab, prior, lxi, q1, q2)


@CHECK.sub(case(max_iters=5), quick=500, shards=8)
def steps(c, ctx):
    """a training iteration improves the topics, and fits the features to the documents"""
    c["dtype"] = "float64"
    ctx.nontrivial(busy(c))
    ctx.label(c["kind"])
    data, model, query = start(c)
    mod, words = side.module(c), np.array(data.words.todense(), dtype=float)
    m0, q0, _ = run(c, data, model, query, log=0)
    m1, q1, _ = run(c, data, model, query, iters=c["iters"] + 1, log=0)
    beta = float(m0.vocabPrior)

    def topics(means, vocab):
        return log_like(words, means, vocab).sum() + beta * np.log(vocab).sum()

    if c["kind"] != "stm_yv_bohning":
        a, b = topics(q0.means, m0.vocab), topics(q0.means, m1.vocab)
        ctx.check(b >= a - 1e-8 * max(1, abs(a)), "the words of topics went from a log posterior of %r to %r" % (a, b))
    if c["kind"] in SIDE:
        X = np.asarray(data.feats.todense(), dtype=float)
        if c["kind"] == "stm_yv_bohning":
            fit = la.lstsq(X, q0.means)[0]
            ctx.close(X @ m1.A.T, X @ fit, rtol=1e-4, atol=1e-4 * max(1.0, np.abs(q0.means).max()), what="fit of features to topics")
        else:
            slope = (m1.A - m1.Y @ m1.V) / m1.fv - (q0.means - X @ m1.A.T).T @ X
            ctx.check(np.abs(slope).max() <= 1e-7 * max(1.0, np.abs(q0.means).max() * X.sum(), np.abs(m1.A).max() / m1.fv),
                      "the weights of features do not minimise the error, slope %r" % slope)
    elif c["kind"] in BOHNING and not getattr(mod, "USE_NIW_PRIOR", False) and all(np.array_equal(m.sigT, np.eye(c["K"])) for m in (m0, m1)):
        def total(m, q):
            diff = q.means - m.topicMean
            return topics(q.means, m.vocab) - 0.5 * (diff * diff).sum()

        a, b = total(m0, q0), total(m1, q1)
        ctx.check(b >= a - 1e-8 * max(1, abs(a)), "the log posterior went from %r to %r" % (a, b))


@CHECK.sub(case(max_iters=5), quick=500, shards=8)
def documents(c, ctx):
    """a training iteration improves the topics of every document under the model it has learnt"""
    c["dtype"] = "float64"
    ctx.nontrivial(busy(c))
    ctx.label(c["kind"])
    data, model, query = start(c)
    words = np.asarray(data.words.todense(), dtype=float)
    iters = 40 if c["kind"] == "stm_yv_bohning" else c["iters"]
    m0, q0, _ = run(c, data, model, query, iters=iters, log=0)
    m1, q1, _ = run(c, data, model, query, iters=iters + 1, log=0)
    prior = parts(c, m1, data, q0.means)
    if c["kind"] == "stm_yv_bohning":
        settles(ctx, words, m1, prior, np.asarray(q0.means), np.asarray(q1.means))
    elif c["kind"] in BOHNING:
        gains(ctx, words, m1, prior, np.asarray(q0.means), np.asarray(q1.means))
    else:
        # words are given to topics before (stm_yv) or after (ctm) the words of topics are updated
        vocab = m0.vocab if c["kind"] == "stm_yv" else m1.vocab
        tangent(ctx, words, vocab, prior, np.asarray(q0.lxi), q0, q1, c["kind"] == "ctm")


@st.composite
def long(draw):
    c = draw(case())
    c.update(iters=draw(st.integers(25, 140)), log=draw(st.sampled_from([10, 7, 1, 20])), dtype="float64")
    return c


@CHECK.sub(long(), quick=80, shards=8)
def stopping(c, ctx):
    """a run that stops early returns the state and the values that it logged last"""
    ctx.nontrivial(busy(c))
    ctx.label(c["kind"])
    data, model, query = start(c)
    model, query, (its, bounds, likes) = run(c, data, model, query)
    valid(ctx, c, data, model, query)
    reported(ctx, c, data, model, query)
    its = [int(i) for i in its]
    ctx.check(its == list(range(0, its[-1] + 1, c["log"])), "logged at %r" % its)
    ctx.check(len(bounds) == len(likes) == len(its), "%d bounds and %d likelihoods for %d iterations" % (len(bounds), len(likes), len(its)))
    if its[-1] + c["log"] < c["iters"]:
        ctx.label("stopped early")
        got = float(side.module(c).log_likelihood(data, model, query))
        ctx.check(abs(float(likes[-1]) - got) <= 1e-7 * max(1, abs(got)), "stopped with a likelihood of %r, but last logged %r" % (got, likes[-1]))
