"""C28: Dirichlet-multinomial regression: gradient, samples and outputs."""
import itertools

import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st
from scipy.special import gammaln

import gen
import side
from pbt import Check
from sidetopics.model import dmr
from sidetopics.model.common import DataSet

CHECK = Check("C28", "documents differ in their features, and a document has two tokens or more",
              ["the constant of the objective is not looked at, only its differences",
               "the update interval is at least the thinning interval, and a run draws at least one sample",
               "posterior enumeration: corpora of at most seven tokens; an estimate is wrong when it is six standard errors "
               "(of 20 batches) and 0.01 away in two runs, the second four times as long (queries: 0.04, 100000 sweeps)"])

WEIGHTS = [0.0, 0.1, -0.1, 0.5, -0.5, 0.25, 1.0, -1.0, 0.05, 0.3, -0.3, 2.0, -2.0, 0.7, 0.01, -0.7]


def dataset(m, x):
    return DataSet(gen.csr(m, np.uint16), ssp.csr_matrix(np.array(x, dtype=float)))


@st.composite
def features(draw, D, values=(0, 1, 0, 1, 1, 0, 2, 0, 1, 0, 1, 0, 1, 3, 0, 1), F=None):
    x = draw(gen.table(D, F or draw(st.integers(1, 4)), list(values)))
    for row in x:
        row[0] = 1
    return x


@st.composite
def objective_case(draw):
    D, K, S = draw(st.integers(1, 6)), draw(st.integers(2, 4)), draw(st.integers(1, 4))
    x = draw(features(D, values=[0, 1, 0, 1, 0.5, 0, 2, -1, 1, 0, 1, 0, 1, 3, 0, -0.5]))
    return {"x": x, "K": K, "S": S, "extra": draw(st.integers(0, 2)), "k": draw(st.integers(0, K - 1)),
            "W": draw(gen.table(K, len(x[0]), WEIGHTS)), "w2": draw(gen.table(1, len(x[0]), WEIGHTS)),
            "n": draw(gen.table(D * K, S + 2, [0, 1, 2, 0, 3, 5, 0, 1, 10, 0, 40, 1, 0, 7, 300, 0])),
            "sigma": draw(st.sampled_from([0.01, 1.0, 0.1])), "tile": draw(st.sampled_from([1] * 24 + [1700]))}


def neg_log_posterior(w, c, X, n):
    """minus the log of the prior on w times the mean likelihood of the sampled counts"""
    W = np.array(c["W"], dtype=float)
    W[c["k"]] = w
    alpha = np.exp(X @ W.T)                                              # D x K
    total = 0.0
    for s in range(c["S"]):
        cnt = n[:, :, s]
        total += (gammaln(alpha.sum(1)) - gammaln(alpha.sum(1) + cnt.sum(1))
                  + (gammaln(alpha + cnt) - gammaln(alpha))[:, c["k"]]).sum()
    return -total / c["S"] + np.sum(w * w) / (2 * c["sigma"])


@CHECK.sub(objective_case(), quick=1600, shards=4)
def gradient(c, ctx):
    X = np.tile(np.array(c["x"], dtype=float), (c["tile"], 1))
    n = np.array(c["n"], dtype=np.uint16).reshape(len(c["x"]), c["K"], c["S"] + 2)[:, :, :c["S"] + c["extra"]]
    n = np.ascontiguousarray(np.tile(n, (c["tile"], 1, 1)))
    ctx.nontrivial(len(np.unique(X, axis=0)) > 1 and n[:, :, :c["S"]].sum(axis=(1, 2)).max() > 1)
    if c["tile"] > 1:
        ctx.label("more documents than a batch")
    W, w2 = np.array(c["W"], dtype=float), np.array(c["w2"][0], dtype=float)
    w1 = W[c["k"]].copy()
    args = (c["k"], W, c["S"], n, ssp.csr_matrix(X), c["sigma"])
    before = W.copy(), n.copy()
    with side.quiet():
        f1, f2 = dmr.objective(w1.copy(), *args), dmr.objective(w2.copy(), *args)
        g2 = np.asarray(dmr.gradient(w2.copy(), *args)).reshape(-1)
    o1, o2 = neg_log_posterior(w1, c, X, n), neg_log_posterior(w2, c, X, n)
    scale = max(1.0, abs(o1), abs(o2))
    ctx.check(abs((f2 - f1) - (o2 - o1)) <= 1e-8 * scale, "objective changes by %r, the log posterior by %r" % (f2 - f1, o2 - o1))
    ctx.check(g2.shape == w2.shape, "gradient has shape %r" % (g2.shape,))
    for f in range(len(w2)):
        h = 1e-4
        e = np.zeros(len(w2))
        e[f] = h
        d1 = (neg_log_posterior(w2 + e, c, X, n) - neg_log_posterior(w2 - e, c, X, n)) / (2 * h)
        d2 = (neg_log_posterior(w2 + 2 * e, c, X, n) - neg_log_posterior(w2 - 2 * e, c, X, n)) / (4 * h)
        want = (4 * d1 - d2) / 3
        ctx.check(abs(g2[f] - want) <= 1e-6 * max(1.0, abs(want)) + 1e-10 * scale / h, "derivative %d is %r, want %r" % (f, g2[f], want))
    ctx.equal(W, before[0], "weights after evaluating the objective")
    ctx.equal(n, before[1], "samples after evaluating the objective")


@CHECK.sub(objective_case(), quick=400, shards=4)
def update(c, ctx):
    """an update moves each topic's weights towards its optimum, given the others' old weights"""
    X = np.array(c["x"], dtype=float)
    n = np.array(c["n"], dtype=np.uint16).reshape(len(X), c["K"], c["S"] + 2)
    ctx.nontrivial(len(np.unique(X, axis=0)) > 1 and n[:, :, :c["S"]].sum(axis=(1, 2)).max() > 1)
    c = dict(c, sigma=dmr.Sigma)
    old = np.array(c["W"], dtype=float) * 0.2
    new, kept = old.copy(), n.copy()
    with side.quiet():
        dmr.updateWeights(n, c["S"], ssp.csr_matrix(X), new)
    ctx.equal(n, kept, "samples after the update")
    ctx.finite(new, "weights")
    for k in range(c["K"]):
        c.update(W=old.tolist(), k=k)
        a, b = neg_log_posterior(old[k], c, X, n), neg_log_posterior(new[k], c, X, n)
        ctx.check(b <= a + 1e-7 * max(1, abs(a)), "topic %d: the objective went from %r to %r" % (k, a, b))
        grad = np.array([(neg_log_posterior(new[k] + e, c, X, n) - neg_log_posterior(new[k] - e, c, X, n)) / 2e-5
                         for e in np.eye(X.shape[1]) * 1e-5])
        # curvature is at least 1/sigma minus that of the likelihood; a point this flat is an optimum
        ctx.check(np.abs(grad).max() <= 0.05 * max(1.0, np.sqrt(abs(b))), "topic %d: slope %r left after the update" % (k, grad))


# ---------------------------------------------------------------- training and querying

@st.composite
def runs(draw):
    m = draw(gen.counts(min_d=1, max_d=6, min_t=2, max_t=6, empty_rows=True))
    if not np.any(m):
        m[0][0] = 1
    x = draw(features(len(m)))
    K = draw(st.integers(2, 4))
    thin = draw(st.integers(1, 3))
    wui = thin + draw(st.integers(0, 6))
    q = draw(gen.counts(min_d=1, max_d=4, min_t=len(m[0]), max_t=len(m[0]), empty_rows=True))
    return {"m": m, "x": x, "K": K, "seed": draw(gen.seeds), "thin": thin, "wui": wui, "burn": draw(st.integers(0, 3)),
            "W": draw(gen.table(K, len(x[0]), WEIGHTS)), "sweeps": draw(st.integers(thin, 14)),
            "beta": draw(st.sampled_from([None, 0.5, 0.01, "vector"])), "debug": draw(st.booleans()),
            "wt": draw(st.sampled_from(["uint16", "int32", "float64"])),
            "q": q, "qx": draw(features(len(q), F=len(x[0])))}


def start(c, keep_weights=False):
    np.random.seed(c["seed"] % 2 ** 31)
    data = DataSet(gen.csr(c["m"], c["wt"]), ssp.csr_matrix(np.array(c["x"], dtype=float)))
    beta = c["beta"]
    if beta == "vector":
        beta = np.linspace(0.1, 1.5, len(c["m"][0]))
    elif beta is not None:
        beta = np.full(len(c["m"][0]), beta)
    model = dmr.newModelAtRandom(data, c["K"], vocabPrior=beta)
    model = model._replace(weights=np.array(c["W"], dtype=float) * (1.0 if keep_weights else 0.5))
    return data, model, dmr.newQueryState(data, model)


def copied(q):
    return dmr.QueryState(*[v.copy() if isinstance(v, np.ndarray) else v for v in q])


def tables(z, w, lens, K, T):
    ndk, nkt = np.zeros((len(lens), K)), np.zeros((K, T))
    docs = np.repeat(np.arange(len(lens)), lens)
    np.add.at(ndk, (docs, z), 1)
    np.add.at(nkt, (z, w), 1)
    return ndk, nkt


def smooth(n, prior):
    return (n + prior) / (n + prior).sum(axis=1, keepdims=True)


@CHECK.sub(runs(), quick=500, shards=6)
def training(c, ctx):
    """every sample kept is the assignment of that sweep, under the priors of its features"""
    words = np.array(c["m"])
    X = np.array(c["x"], dtype=float)
    ctx.nontrivial(len(np.unique(X, axis=0)) > 1 and words.sum(axis=1).max() > 1)
    data, first, q0 = start(c)
    K, T, thin, wui, burn = c["K"], words.shape[1], c["thin"], c["wui"], c["burn"]
    lens = words.sum(axis=1)
    toks = np.concatenate([np.repeat(np.arange(T), r) for r in words])
    ctx.equal(np.asarray(q0.docLens), lens, "document lengths")
    snap = data.words.copy(), data.feats.copy()

    def run(sweeps):
        model = dmr.newModelFromExisting(first)
        with side.quiet():
            m, q, _ = dmr.train(data, model, copied(q0), dmr.newTrainPlan(burn + sweeps, burnIn=burn, thin=thin, weightUpdateInterval=wui, debug=c["debug"]))
        return m, q

    kept = [s for s in range(1, c["sweeps"] + 1) if ((s - 1) % wui + 1) % thin == 0]
    theta, phi, states, weights = np.zeros((len(lens), K)), np.zeros((K, T)), [], {0: first.weights}
    for i, s in enumerate(kept):
        m, q = run(s)
        ctx.check(m.numSamples == q.numSamples == i + 1, "%r samples after %d sweeps, want %d" % (m.numSamples, s, i + 1))
        z, w = np.asarray(q.z_list), np.asarray(q.w_list)
        ctx.check(len(z) == lens.sum() and (z < K).all(), "assignments outside the topics")
        ends = np.cumsum(lens)
        for d in range(len(lens)):
            a = ends[d] - lens[d]
            ctx.equal(np.sort(w[a:ends[d]]), toks[a:ends[d]], "words of document %d" % d)
        ndk, nkt = tables(z, w, lens, K, T)
        states.append(ndk)
        j = (s - 1) // wui
        if j not in weights:
            weights[j] = run(j * wui)[0].weights
        theta += smooth(ndk, np.exp(X @ weights[j].T))
        phi += smooth(nkt, first.vocabPrior)
        ctx.equal(np.asarray(m.n_dk_samples[:, :, :i + 1], dtype=float), np.stack(states, axis=2), "topic counts sampled")
        ctx.close(dmr.topicDists(q), theta / (i + 1), what="topics of documents")
        ctx.close(dmr.wordDists(m), phi / (i + 1), what="words of topics")
        ctx.distribution(dmr.topicDists(q), what="topics of documents")
        ctx.distribution(dmr.wordDists(m), what="words of topics")
        ctx.finite(m.weights, "weights")
    if not kept:
        return
    m, q = run(c["sweeps"])
    ctx.check(m.numSamples == len(kept), "%r samples, want %d" % (m.numSamples, len(kept)))
    ctx.check(abs(data.words - snap[0]).sum() == 0 and abs(data.feats - snap[1]).sum() == 0, "training changed the data")
    like = dmr.log_likelihood(data, m, q)
    want = (words * np.log(dmr.topicDists(q) @ dmr.wordDists(m))).sum()
    ctx.check(abs(like - want) <= 1e-8 * max(1, abs(want)), "log likelihood %r, want %r" % (like, want))


@CHECK.sub(runs(), quick=500, shards=6)
def querying(c, ctx):
    words, qw = np.array(c["m"]), np.array(c["q"])
    X, qx = np.array(c["x"], dtype=float), np.array(c["qx"], dtype=float)
    ctx.nontrivial(len(np.unique(qx, axis=0)) > 1 and qw.sum(axis=1).max() > 1)
    data, model, q0 = start(c)
    thin, burn, lens = c["thin"], c["burn"], qw.sum(axis=1)
    with side.quiet():
        model, tq, _ = dmr.train(data, model, q0, dmr.newTrainPlan(8, burnIn=2, thin=2, weightUpdateInterval=4))
    other = dataset(c["q"], c["qx"])
    snap = dmr.newModelFromExisting(model)
    w0, t0 = dmr.wordDists(model), dmr.topicDists(tq)
    s0 = dmr.newQueryState(other, model)
    alpha = np.exp(qx @ model.weights.T)
    kept = [s for s in range(1, c["sweeps"] + 1) if s % thin == 0]
    theta = np.zeros((len(lens), c["K"]))
    for i, s in enumerate(kept):
        with side.quiet():
            m2, q = dmr.query(other, model, copied(s0), dmr.newTrainPlan(burn + s, burnIn=burn, thin=thin))
        ctx.check(q.numSamples == i + 1, "%r samples after %d sweeps, want %d" % (q.numSamples, s, i + 1))
        theta += smooth(tables(np.asarray(q.z_list), np.asarray(q.w_list), lens, c["K"], qw.shape[1])[0], alpha)
        ctx.close(dmr.topicDists(q), theta / (i + 1), what="topics of query documents")
        for name in model._fields:
            for mm, who in ((model, "model"), (m2, "returned model")):
                a, b = getattr(mm, name), getattr(snap, name)
                ctx.check(np.array_equal(a, b) if isinstance(b, np.ndarray) else a == b, "%s of the %s after a query" % (name, who))
        ctx.equal(dmr.wordDists(m2), w0, "words of topics after a query")
    ctx.equal(dmr.topicDists(tq), t0, "topics of the training documents after a query")
    if kept:
        like, want = dmr.log_likelihood(other, m2, q), (qw * np.log(dmr.topicDists(q) @ w0)).sum()
        ctx.check(abs(like - want) <= 1e-8 * max(1, abs(want)), "log likelihood %r, want %r" % (like, want))


# ---------------------------------------------------------------- exact posteriors

@st.composite
def tiny(draw):
    T, D, K = draw(st.integers(2, 4)), draw(st.integers(1, 3)), draw(st.integers(2, 3))
    docs = [[0] * T for _ in range(D)]
    for d in range(D):
        docs[d][draw(st.integers(0, T - 1))] += 1
    for _ in range(draw(st.integers(0, 7 - D))):
        docs[draw(st.integers(0, D - 1))][draw(st.integers(0, T - 1))] += 1
    F = draw(st.integers(1, 3))
    x = draw(features(D, values=[0, 1] * 8, F=F))
    W = draw(gen.table(K, F, [0.0, 0.3, -0.3, 0.4, -0.4, 0.2, -0.2, 0.1] * 2))
    q = [[min(n, 2) for n in r] for r in draw(gen.counts(min_d=1, max_d=2, min_t=T, max_t=T))]
    return {"m": docs, "x": x, "K": K, "W": W, "seed": draw(gen.seeds), "wt": "uint16",
            "beta": draw(st.sampled_from([0.5, 1.0, 0.3, "vector"])), "thin": draw(st.sampled_from([1, 2, 5])),
            "q": q, "qx": draw(features(len(q), values=[0, 1] * 8, F=F))}


def weight(n, prior):
    return gammaln(n + prior).sum() - gammaln((n + prior).sum())


def normal(logs):
    p = np.exp(np.array(logs) - max(logs))
    return p / p.sum()


@CHECK.sub(tiny(), quick=64, thorough=640, shards=8)
def posterior(c, ctx):
    words, X, K = np.array(c["m"]), np.array(c["x"], dtype=float), c["K"]
    if K ** words.sum() > 2200:
        K = c["K"] = 2
        c["W"] = c["W"][:2]
    ctx.nontrivial(len(np.unique(X, axis=0)) > 1 and words.sum(axis=1).max() > 1)
    data, model, _ = start(c, True)
    alpha, beta, lens = np.exp(X @ model.weights.T), model.vocabPrior, words.sum(axis=1)
    toks = np.concatenate([np.repeat(np.arange(words.shape[1]), r) for r in words])
    logs, th, ph = [], [], []
    for z in itertools.product(range(K), repeat=len(toks)):
        ndk, nkt = tables(np.array(z), toks, lens, K, words.shape[1])
        logs.append(sum(weight(n, a) for n, a in zip(ndk, alpha)) + sum(weight(n, beta) for n in nkt))
        th.append(smooth(ndk, alpha).ravel())
        ph.append(smooth(nkt, beta).ravel())
    p = normal(logs)
    wt, wp = p @ np.array(th), p @ np.array(ph)
    bad = None
    for attempt in range(2):
        c["seed"] += attempt
        data, model, q = start(c, True)
        n = 40000 * (1 + 3 * attempt)
        with side.quiet():
            m, q, _ = dmr.train(data, model, q, dmr.newTrainPlan(n + 200, burnIn=200, thin=c["thin"], weightUpdateInterval=n))
        s = np.asarray(m.n_dk_samples[:, :, :m.numSamples], dtype=float)
        s = (s + alpha[:, :, None]) / (s + alpha[:, :, None]).sum(axis=1, keepdims=True)
        rows = np.array([b.mean(axis=2).ravel() for b in np.array_split(s, 20, axis=2)])
        se = rows.std(axis=0, ddof=1) / np.sqrt(20)
        e1, e2 = np.abs(dmr.topicDists(q).ravel() - wt), np.abs(dmr.wordDists(m).ravel() - wp)
        if (e1 <= 6 * se + 0.01).all() and (e2 <= 6 * se.max() + 0.03).all():
            return
        bad = "topics of documents are off by %.4f (standard error %.4f), words of topics by %.4f" % (e1.max(), se.max(), e2.max())
    ctx.fail(bad)


@CHECK.sub(tiny(), quick=64, thorough=640, shards=8)
def query_posterior(c, ctx):
    qw, qx, K = np.array(c["q"]), np.array(c["qx"], dtype=float), c["K"]
    if (K ** qw.sum(axis=1)).max() > 2200:
        qw = np.minimum(qw, 1)
        c["q"] = qw.tolist()
    ctx.nontrivial(len(np.unique(qx, axis=0)) > 1 and qw.sum(axis=1).max() > 1)
    data, model, q = start(c, True)
    with side.quiet():
        model, _, _ = dmr.train(data, model, q, dmr.newTrainPlan(20, burnIn=5, thin=5, weightUpdateInterval=5))
    model = model._replace(weights=np.array(c["W"], dtype=float))
    alpha, phi = np.exp(qx @ model.weights.T), dmr.wordDists(model)
    wants = []
    for row, a in zip(qw, alpha):
        toks = np.repeat(np.arange(len(row)), row)
        logs, th = [], []
        for z in itertools.product(range(K), repeat=len(toks)):
            n = np.bincount(np.array(z, dtype=int), minlength=K)
            logs.append(weight(n, a) + sum(np.log(phi[k, t]) for k, t in zip(z, toks)))
            th.append((n + a) / (n + a).sum())
        wants.append(normal(logs) @ np.array(th))
    other = dataset(c["q"], c["qx"])
    for attempt in range(2):
        np.random.seed((c["seed"] + attempt) % 2 ** 31)
        _, q = dmr.query(other, model, dmr.newQueryState(other, model),
                         dmr.newTrainPlan(100000 * (1 + 3 * attempt) + 200, burnIn=200, thin=c["thin"]))
        err = np.abs(dmr.topicDists(q) - np.array(wants)).max()
        if err <= 0.04:
            return
    ctx.fail("topics of query documents are off by %.4f" % err)


@CHECK.sub(runs(), quick=200, shards=2)
def copies(c, ctx):
    """a copied model trains apart from the original"""
    ctx.nontrivial(len(np.unique(c["x"], axis=0)) > 1 and np.sum(c["m"], axis=1).max() > 1)
    data, model, q = start(c)
    if c["debug"]:
        with side.quiet():
            model, q, _ = dmr.train(data, model, q, dmr.newTrainPlan(6, burnIn=2, thin=2, weightUpdateInterval=4))
    snap = {k: np.array(v) for k, v in model._asdict().items() if isinstance(v, np.ndarray)}
    twin = dmr.newModelFromExisting(model)
    for name in model._fields:
        a, b = getattr(model, name), getattr(twin, name)
        ctx.check(np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b, "%s of the copy differs" % name)
    with side.quiet():
        dmr.train(data, twin, copied(q), dmr.newTrainPlan(8, burnIn=2, thin=2, weightUpdateInterval=2))
    for name, v in snap.items():
        ctx.equal(getattr(model, name), v, "%s of the original after training the copy" % name)
