"""C06: the Gibbs samplers estimate what enumeration of the posterior gives."""
import io
import itertools
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st
from scipy.special import gammaln

import gen
import models
from pbt import Check, Discard
from sidetopics.model import lda_gibbs, mom_gibbs
from sidetopics.model.common import DataSet

CHECK = Check("C06", "two documents or more share a word, or the priors differ between topics or words",
              ["corpora of at most seven tokens (LDA) or five documents (mixture), so that the posterior can be enumerated",
               "an estimate is wrong when it is six standard errors and 0.01 away in two independent runs, the second of "
               "them four times as long; standard errors come from 20 consecutive batches",
               "queries use topics scaled to integers by 1e6, as the sampler does; they agree within 0.01"])


@st.composite
def tiny(draw, max_tokens, max_d, max_k=3, vectors=True):
    T = draw(st.integers(2, 4))
    D = draw(st.integers(1, max_d))
    K = draw(st.integers(2, max_k))
    docs = [[0] * T for _ in range(D)]
    left = max_tokens - D
    for d in range(D):
        docs[d][draw(st.integers(0, T - 1))] += 1
    for _ in range(draw(st.integers(0, left))):
        docs[draw(st.integers(0, D - 1))][draw(st.integers(0, T - 1))] += 1
    vals = [0.5, 1.0, 0.3, 2.0, 1.5]
    return {"m": docs, "K": K, "seed": draw(gen.seeds),
            "alpha": [draw(st.sampled_from(vals)) for _ in range(K)],
            "beta": [draw(st.sampled_from(vals)) for _ in range(T)] if vectors and draw(st.booleans())
            else draw(st.sampled_from(vals)),
            "burn": draw(st.sampled_from([0, 10])), "thin": draw(st.sampled_from([1, 2, 5]))}


def interesting(c, ctx):
    w = np.array(c["m"])
    ctx.nontrivial(((w > 0).sum(axis=0) > 1).any() or len(set(c["alpha"])) > 1 or isinstance(c["beta"], list))


def compare(ctx, c, run, wants, what, floor=0.01):
    """run(seed, scale) returns batches of estimates, one row per batch"""
    bad = None
    for attempt, scale in enumerate((1, 4)):
        got = np.array(run(c["seed"] + attempt, scale))
        mean, se = got.mean(axis=0), got.std(axis=0, ddof=1) / np.sqrt(len(got))
        err = np.abs(mean - wants)
        out = err > 6 * se + floor
        if not out.any():
            return
        i = int(np.argmax(np.where(out, err, 0)))
        bad = "%s, statistic %d: sampled %.4f (standard error %.4f), exact %.4f" % (what, i, mean[i], se[i], wants[i])
    ctx.fail(bad)


def normal(logs):
    p = np.exp(logs - logs.max())
    return p / p.sum()


def dm(counts, prior):
    """log of the Dirichlet-multinomial weight of one table row"""
    return gammaln(counts + prior).sum() - gammaln((counts + prior).sum())


def prior_of(c):
    T = len(c["m"][0])
    return np.array(c["alpha"]), np.array(c["beta"]) if isinstance(c["beta"], list) else np.full(T, float(c["beta"]))


def lda_exact(c):
    alpha, beta = prior_of(c)
    K, T, D = c["K"], len(beta), len(c["m"])
    toks = [(d, t) for d, row in enumerate(c["m"]) for t, n in enumerate(row) for _ in range(n)]
    logs, theta, phi = [], [], []
    for z in itertools.product(range(K), repeat=len(toks)):
        ndk, nkt = np.zeros((D, K)), np.zeros((K, T))
        for (d, t), k in zip(toks, z):
            ndk[d, k] += 1
            nkt[k, t] += 1
        logs.append(sum(dm(r, alpha) for r in ndk) + sum(dm(r, beta) for r in nkt))
        theta.append(((ndk + alpha) / (ndk + alpha).sum(axis=1, keepdims=True)).ravel())
        phi.append(((nkt + beta) / (nkt + beta).sum(axis=1, keepdims=True)).ravel())
    p = normal(np.array(logs))
    return p @ np.array(theta), p @ np.array(phi)


def lda_model(c):
    alpha, beta = prior_of(c)
    data = DataSet(gen.csr(c["m"]))
    return data, lda_gibbs.newModelAtRandom(data, c["K"], topicPrior=alpha.copy(),
                                            vocabPrior=beta.copy() if isinstance(c["beta"], list) else c["beta"])


@CHECK.sub(tiny(7, 3), quick=160, thorough=1600, shards=8)
def lda_posterior(c, ctx):
    interesting(c, ctx)
    if c["K"] ** int(np.sum(c["m"])) > 2200:
        c["K"], c["alpha"] = 2, c["alpha"][:2]
    theta, phi = lda_exact(c)

    def run(seed, scale):
        lda_gibbs.seed_rng(seed % 2 ** 31)
        data, model = lda_model(c)
        q = lda_gibbs.newQueryState(data, model)
        out = []
        for b in range(20):
            model, q, _ = lda_gibbs.train(data, model, q, lda_gibbs.newTrainPlan(
                4000 * scale, burnIn=200 if b == 0 else 0, thin=c["thin"]))
            out.append(np.concatenate([lda_gibbs.topicDists(q).ravel(), lda_gibbs.wordDists(model).ravel()]))
        return out

    compare(ctx, c, run, np.concatenate([theta, phi]), "topics of documents, then words of topics")


@st.composite
def with_query(draw, base):
    c = draw(base)
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=1, max_d=2, min_t=T, max_t=T))
    c["q"] = [[min(n, 2) for n in r] for r in c["q"]]
    return c


@CHECK.sub(with_query(tiny(7, 3)), quick=160, thorough=1600, shards=8)
def lda_query(c, ctx):
    """documents given fixed topics"""
    interesting(c, ctx)
    alpha, _ = prior_of(c)
    K = c["K"]
    if any(K ** sum(r) > 2200 for r in c["q"]):
        c["q"] = [[min(n, 1) for n in r] for r in c["q"]]
    lda_gibbs.seed_rng(c["seed"] % 2 ** 31)
    data, model = lda_model(c)
    model, _, _ = lda_gibbs.train(data, model, lda_gibbs.newQueryState(data, model), lda_gibbs.newTrainPlan(20, burnIn=5, thin=5))
    phi = lda_gibbs.wordDists(model)
    wants = []
    for row in c["q"]:
        toks = [t for t, n in enumerate(row) for _ in range(n)]
        logs, th = [], []
        for z in itertools.product(range(K), repeat=len(toks)):
            n = np.bincount(np.array(z), minlength=K)
            logs.append(dm(n, alpha) + sum(np.log(phi[k, t]) for k, t in zip(z, toks)))
            th.append((n + alpha) / (n + alpha).sum())
        wants.append(normal(np.array(logs)) @ np.array(th))
    other = DataSet(gen.csr(c["q"]))

    def run(seed, scale):
        lda_gibbs.seed_rng(seed % 2 ** 31)
        q = lda_gibbs.newQueryState(other, model)
        out = []
        for b in range(20):
            _, q = lda_gibbs.query(other, model, q, lda_gibbs.newTrainPlan(
                4000 * scale, burnIn=200 if b == 0 else 0, thin=c["thin"]))
            out.append(lda_gibbs.topicDists(q).ravel())
        return out

    compare(ctx, c, run, np.concatenate(wants), "topics of the documents queried")


@st.composite
def bookkeeping_case(draw):
    c = draw(models.config(kinds=["lda_gibbs"], max_iters=12))
    c["burn"] = draw(st.sampled_from([0, 1, 5, -1]))
    c["thin"] = draw(st.sampled_from([1, 2, 3, 5, -1]))
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=1, max_d=4, min_t=T, max_t=T))
    return c


def tables(c, m, q):
    K, T = c["K"], len(m[0])
    ndk, nkt = np.zeros((len(m), K)), np.zeros((K, T))
    lens, n = np.asarray(q.docLens), 0
    for d in range(len(m)):
        for _ in range(lens[d]):
            ndk[d, q.z_list[n]] += 1
            nkt[q.z_list[n], q.w_list[n]] += 1
            n += 1
    return ndk, nkt, n


@CHECK.sub(bookkeeping_case(), quick=5000, shards=4)
def bookkeeping(c, ctx):
    """samples kept, assignments, and a single sample read back from the assignments"""
    models.seed_all(c)
    data = models.dataset(c)
    ctx.nontrivial(c["iters"] > 1 and len(c["m"]) > 1)
    model = models.new_model(c, data)
    alpha = models.alpha_vector(c, model)
    beta = np.zeros(len(c["m"][0])) + model.vocabPrior
    q = lda_gibbs.newQueryState(data, model)
    iters = c["iters"]
    thin = c["thin"]
    if 0 < thin and iters < thin:
        iters = thin
    pl = lda_gibbs.newTrainPlan(iters, burnIn=c["burn"], thin=thin)
    model, q, _ = lda_gibbs.train(data, model, q, pl)
    if thin > 0:
        ctx.equal(int(model.numSamples), iters // thin, "number of samples kept")
    ctx.equal(int(q.numSamples), int(model.numSamples), "number of samples kept for the documents")
    for state, m, d in ((q, c["m"], data), (None, c["q"], models.dataset(c, c["q"]))):
        if state is None:
            state = lda_gibbs.newQueryState(d, model)
            _, state = lda_gibbs.query(d, model, state, pl)
            if thin > 0:
                ctx.equal(int(state.numSamples), iters // thin, "number of samples kept by a query")
        ndk, nkt, n = tables(c, m, state)
        ctx.equal(n, int(np.sum(m)), "number of tokens")
        ctx.equal(len(state.z_list), n, "number of assignments")
        ctx.check(int(np.max(state.z_list)) < c["K"], "an assignment to a topic that does not exist")
        ctx.equal(nkt.sum(axis=0), np.sum(m, axis=0).astype(float), "tokens of each word")
        ctx.equal(ndk.sum(axis=1), np.sum(m, axis=1).astype(float), "tokens of each document")
    # one sample, the last one made
    single = lda_gibbs.newTrainPlan(max(1, thin), burnIn=max(0, c["burn"]), thin=max(1, thin))
    model, q, _ = lda_gibbs.train(data, model, q, single)
    ndk, nkt, _ = tables(c, c["m"], q)
    ctx.equal(int(model.numSamples), 1, "number of samples kept of one")
    ctx.close(lda_gibbs.topicDists(q), (ndk + alpha) / (ndk + alpha).sum(axis=1, keepdims=True), 1e-9, 1e-12,
              "topics of the documents from the last sample")
    ctx.close(lda_gibbs.wordDists(model), (nkt + beta) / (nkt + beta).sum(axis=1, keepdims=True), 1e-9, 1e-12,
              "words of the topics from the last sample")


def pairs(z, K):
    """statistics of a membership vector: the topic of each document, and who shares one"""
    return [float(k == x) for x in z for k in range(K)] + [float(a == b) for a, b in itertools.combinations(z, 2)]


def mixture_exact(m, K, alpha, beta=None, phi=None):
    m = np.array(m)
    logs, stats = [], []
    for z in itertools.product(range(K), repeat=len(m)):
        n = np.bincount(np.array(z), minlength=K)
        l = dm(n, alpha)
        if phi is None:
            for k in range(K):
                l += dm(m[[x == k for x in z]].sum(axis=0), beta)
        else:
            l += sum(m[d] @ np.log(phi[k]) for d, k in enumerate(z))
        logs.append(l)
        stats.append(pairs(z, K))
    return normal(np.array(logs)) @ np.array(stats)


def mixture_model(c):
    alpha, _ = prior_of(c)
    data = DataSet(gen.csr(c["m"]))
    scaled = DataSet(gen.csr(np.array(c["m"]) * 50))       # the random start draws a thousand tokens
    with redirect_stdout(io.StringIO()):
        return data, mom_gibbs.newModelAtRandom(scaled, c["K"], topicPrior=alpha.copy(), vocabPrior=c["beta"])


@CHECK.sub(tiny(9, 4, 2, vectors=False), quick=160, thorough=1600, shards=8)
def mixture_posterior(c, ctx):
    interesting(c, ctx)
    alpha, beta = prior_of(c)
    K, D = c["K"], len(c["m"])
    want = mixture_exact(c["m"], K, alpha, beta)

    def run(seed, scale):
        np.random.seed(seed % 2 ** 32)
        data, model = mixture_model(c)
        q = mom_gibbs.newQueryState(data, model)
        out = []
        one = mom_gibbs.newTrainPlan(iterations=1, logFrequency=0, burnIn=0, thinning=1)
        for b in range(20):
            acc, n = 0.0, 100 * scale
            for i in range(n + (50 if b == 0 else 0)):
                model, q, _ = mom_gibbs.train(data, model, q, one)
                z = np.asarray(q.topicDists)
                ctx.check(np.array_equal(np.sort(z, axis=1)[:, -1], np.ones(D)) and z.sum() == D,
                          "a document is not in exactly one topic")
                acc = acc + np.array(pairs(list(z.argmax(axis=1)), K)) * (i >= (50 if b == 0 else 0))
            out.append(acc / n)
        return out

    compare(ctx, c, run, want, "memberships and shared memberships", floor=0.02)


@CHECK.sub(with_query(tiny(9, 4, 3, vectors=False)), quick=80, thorough=800, shards=8)
def mixture_query(c, ctx):
    interesting(c, ctx)
    alpha, _ = prior_of(c)
    K = c["K"]
    np.random.seed(c["seed"] % 2 ** 32)
    data, model = mixture_model(c)
    model, _, _ = mom_gibbs.train(data, model, mom_gibbs.newQueryState(data, model),
                                  mom_gibbs.newTrainPlan(iterations=5, logFrequency=0, burnIn=2, thinning=1))
    phi = mom_gibbs.wordDists(model)
    if phi.min() < 1e-9:
        raise Discard()
    want = mixture_exact(c["q"], K, alpha, phi=phi)[:len(c["q"]) * K]
    other = DataSet(gen.csr(c["q"]))

    def run(seed, scale):
        np.random.seed(seed % 2 ** 32)
        out = []
        for b in range(20):
            q = mom_gibbs.newQueryState(other, model)
            _, q = mom_gibbs.query(other, model, q, mom_gibbs.newTrainPlan(
                iterations=200 * scale, logFrequency=0, burnIn=20, thinning=c["thin"]))
            out.append(np.asarray(mom_gibbs.topicDists(q)).ravel())
        return out

    compare(ctx, c, run, want, "memberships of the documents queried", floor=0.02)
