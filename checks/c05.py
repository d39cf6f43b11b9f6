"""C05: variational LDA and the variational mixture make their textbook updates."""
import io
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st
from scipy.special import digamma, gammaln

import gen
import models
from pbt import Check
from sidetopics.model import lda_vb_python, mom_em

CHECK = Check("C05", "at least two documents, and a word that occurs in one of them only",
              ["double precision (the only one these trainers accept), steps of mini-batches that fall with time",
               "the mixture trainer may stop once memberships move by less than 0.001 on average, as it documents"])


def softmax(x, axis):
    e = np.exp(x - x.max(axis=axis, keepdims=True))
    return e / e.sum(axis=axis, keepdims=True)


def quiet():
    return redirect_stdout(io.StringIO())


@st.composite
def case(draw, kind):
    c = draw(models.config(kinds=[kind], max_iters=6))
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=1, max_d=4, min_t=T, max_t=T))
    if draw(st.booleans()):
        c["beta"] = [draw(st.sampled_from([0.1, 0.5, 1.1, 2.0])) for _ in range(T)]
    return c


def setup(c, ctx):
    models.seed_all(c)
    w = np.array(c["m"])
    ctx.nontrivial(w.shape[0] > 1 and ((w > 0).sum(axis=0) == 1).any())
    ctx.label("word that never occurs", (w.sum(axis=0) == 0).any())
    data = models.dataset(c)
    mod = models.module(c)
    beta = np.array(c["beta"]) if isinstance(c["beta"], list) else c["beta"]
    with quiet():
        model = mod.newModelAtRandom(data, c["K"], topicPrior=models.prior(c), vocabPrior=beta)
    return mod, data, model, mod.newQueryState(data, model), w * float(c.get("scale", 1))


def vb_iterations(w, lam, gamma, alpha, beta, iters, learn):
    """the reference: one pass over the documents, then the topics"""
    lam, gamma = lam.copy(), gamma.copy()
    for _ in range(iters):
        lnphi = digamma(lam) - digamma(lam.sum(axis=1, keepdims=True))
        new = np.zeros(lam.shape) + beta
        for d in range(len(w)):
            z = softmax(lnphi + digamma(gamma[d])[:, None], 0) * w[d]
            gamma[d] = alpha + z.sum(axis=1)
            new += z
        if learn:
            lam = new
    return lam, gamma


def lda_elbo(w, lam, gam, alpha, beta):
    """the bound, with each word's topics the best there are for the parameters of documents and topics"""
    lnphi = digamma(lam) - digamma(lam.sum(axis=1, keepdims=True))
    lntheta = digamma(gam) - digamma(gam.sum(axis=1, keepdims=True))
    b = -sum(divergence(g, alpha) for g in gam) - sum(divergence(l, np.zeros(lam.shape[1]) + beta) for l in lam)
    for d in range(len(w)):
        z = softmax(lnphi + lntheta[d][:, None], 0)
        h = -np.where(z > 0, z * np.log(np.maximum(z, 1e-300)), 0)
        b += ((z * (lnphi + lntheta[d][:, None]) + h) * w[d]).sum()
    return b


@CHECK.sub(case("lda_vb_python"), quick=900, shards=8)
def variational_lda(c, ctx):
    mod, data, model, q, w = setup(c, ctx)
    alpha = models.alpha_vector(c, model)
    lam0, gam0 = np.array(model.wordDists), np.array(q.topicDists)
    ctx.close(np.asarray(gam0).sum(axis=1), w.sum(axis=1) + alpha.sum(), 1e-9, 1e-9, "initial topic assignments")
    bound = mod.var_bound(data, model, q)
    ctx.close(bound, lda_elbo(w, lam0, gam0, alpha, np.asarray(model.vocabPrior, float)), 1e-7, 1e-6, "the bound before training")
    with quiet():
        model, q = mod.train(data, model, q, models.plan(c))[:2]
    got = mod.var_bound(data, model, q)
    ctx.close(got, lda_elbo(w, model.wordDists, q.topicDists, alpha, np.asarray(model.vocabPrior, float)), 1e-7, 1e-6, "the bound after training")
    ctx.check(got >= bound - 1e-7 * abs(bound) - 1e-6, lambda: "the bound fell from %r to %r" % (bound, got))
    lam, gam = vb_iterations(w, lam0, gam0, alpha, np.asarray(model.vocabPrior, float), c["iters"], True)
    ctx.close(model.wordDists, lam, 1e-6, 1e-9, "parameters of the topics after training")
    ctx.close(q.topicDists, gam, 1e-6, 1e-9, "parameters of the documents after training")
    ctx.close(mod.wordDists(model), lam / lam.sum(axis=1, keepdims=True), 1e-6, 1e-12, "word distributions")
    ctx.close(mod.topicDists(q), gam / gam.sum(axis=1, keepdims=True), 1e-6, 1e-12, "topic distributions")
    other = models.dataset(c, c["q"])
    q2 = mod.newQueryState(other, model)
    g0 = np.array(q2.topicDists)
    with quiet():
        m2, q2 = mod.query(other, model, q2, models.plan(c))
    _, gam = vb_iterations(np.array(c["q"]) * float(c.get("scale", 1)), lam, g0, alpha, 0.0, c["iters"], False)
    ctx.close(q2.topicDists, gam, 1e-6, 1e-9, "parameters of the documents queried")
    ctx.close(m2.wordDists, lam, 1e-6, 1e-9, "topics after a query")


@st.composite
def online(draw):
    c = draw(models.config(kinds=["lda_vb_python"], max_iters=4, batch=True, min_d=2))
    if draw(st.integers(0, 3)) == 0:
        c["beta"] = [draw(st.sampled_from([0.1, 0.5, 1.1, 2.0])) for _ in c["m"][0]]
    c.setdefault("batch", 2)
    c.setdefault("delay", draw(st.sampled_from([0.6, 1.0, 2.5])))
    c.setdefault("forget", draw(st.sampled_from([0.6, 0.0, 1.0])))
    return c


@CHECK.sub(online(), quick=500, shards=4)
def mini_batches(c, ctx):
    """every step blends the topics with those that the batch, taken for the whole corpus, would give"""
    mod, data, model, q, w = setup(c, ctx)
    alpha, beta, D, S = models.alpha_vector(c, model), np.asarray(model.vocabPrior, float), len(w), c["batch"]
    lam0, gam0 = np.array(model.wordDists), np.array(q.topicDists)
    with quiet():
        model, q = mod.train(data, model, q, models.plan(c))[:2]

    def steps(n):
        lam, gam, d = lam0.copy(), gam0.copy(), 0
        for b in range(n):
            lnphi = digamma(lam) - digamma(lam.sum(axis=1, keepdims=True))
            new = np.zeros(lam.shape)
            for _ in range(S):
                z = softmax(lnphi + digamma(gam[d])[:, None], 0) * w[d]
                gam[d] = alpha + z.sum(axis=1)
                new += z
                d = (d + 1) % D
            rate = min(1, (b + c["delay"]) ** -c["forget"])
            lam = (1 - rate) * lam + rate * (beta + new * D / S)
        return lam, gam

    # a pass is as many batches as it takes, or one more
    runs = [steps(c["iters"] * n) for n in {D // S + 1, -(-D // S)}]
    lam, gam = min(runs, key=lambda r: np.abs(r[0] - model.wordDists).max())
    ctx.close(model.wordDists, lam, 1e-6, 1e-9, "parameters of the topics after training")
    ctx.close(q.topicDists, gam, 1e-6, 1e-9, "parameters of the documents after training")


def memberships(w, phi, theta):
    lnphi = digamma(phi) - digamma(phi.sum(axis=1, keepdims=True))
    lntheta = digamma(theta) - digamma(theta.sum())
    return softmax(w @ lnphi.T + lntheta, 1)


def divergence(post, prior):
    e = digamma(post) - digamma(post.sum())
    return gammaln(post.sum()) - gammaln(post).sum() - gammaln(prior.sum()) + gammaln(prior).sum() + ((post - prior) * e).sum()


def elbo(w, z, phi, theta, alpha, beta):
    lnphi = digamma(phi) - digamma(phi.sum(axis=1, keepdims=True))
    lntheta = digamma(theta) - digamma(theta.sum())
    b = (z * (w @ lnphi.T + lntheta)).sum() - (z[z > 0] * np.log(z[z > 0])).sum()
    return b - divergence(theta, alpha) - sum(divergence(p, beta) for p in phi)


@CHECK.sub(case("mom_em"), quick=1000, shards=8)
def mixture(c, ctx):
    mod, data, model, q, w = setup(c, ctx)
    alpha, T = models.alpha_vector(c, model), w.shape[1]
    beta = np.zeros(T) + model.vocabPrior
    one = models.plan(c, 1, 0)
    first = mod.newModelFromExisting(model)
    start = type(q)(*[np.array(f) if isinstance(f, np.ndarray) else f for f in q])
    phi0, theta0 = np.array(model.wordDistParam), np.array(model.corpusTopicDistParam)
    last, stopped = None, False
    for i in range(c["iters"]):
        z0 = np.array(q.topicDists)
        with quiet():
            model, q = mod.train(data, model, q, one)[:2]
        z = memberships(w, phi0, theta0)
        ctx.close(q.topicDists, z, 1e-7, 1e-10, "memberships after iteration %d" % i)
        phi, theta = np.asarray(model.wordDistParam), np.asarray(model.corpusTopicDistParam)
        phi1, theta1 = z.T @ w + beta, z.sum(axis=0) + alpha
        unmoved = np.abs(z - z0).mean() < 1.0001e-3
        if unmoved and np.array_equal(phi, phi0) and np.array_equal(theta, theta0):
            stopped = True
            break
        ctx.close(phi, phi1, 1e-7, 1e-10, "parameters of the topics after iteration %d" % i)
        ctx.close(theta, theta1, 1e-7, 1e-10, "parameters of the corpus topics after iteration %d" % i)
        b = elbo(w, z, phi, theta, alpha, beta)
        ctx.close(mod.var_bound(data, model, q), b, 1e-7, 1e-7, "the bound")
        if last is not None:
            ctx.check(b >= last - 1e-7 * abs(last) - 1e-7, lambda: "the bound fell from %r to %r" % (last, b))
        last = b
        phi0, theta0 = phi.copy(), theta.copy()
    ctx.label("stopped early", stopped)
    with quiet():
        m, s = mod.train(data, first, start, models.plan(c))[:2]
    ctx.close(m.wordDistParam, phi0, 1e-6, 1e-9, "topics of one run of many iterations")
    ctx.close(m.corpusTopicDistParam, theta0, 1e-6, 1e-9, "corpus topics of one run of many iterations")
    ctx.close(s.topicDists, q.topicDists, 1e-6, 1e-9, "memberships of one run of many iterations")
    ctx.close(mod.wordDists(m), phi0 / phi0.sum(axis=1, keepdims=True), 1e-6, 1e-12, "word distributions")
    ctx.close(mod.corpusTopicDist(m), theta0 / theta0.sum(), 1e-6, 1e-12, "topic distribution of the corpus")
    ctx.close(mod.topicDists(s), s.topicDists, 1e-12, 1e-12, "topic distributions")
    other = models.dataset(c, c["q"])
    q2 = mod.newQueryState(other, m)
    m2, q2 = mod.query(other, m, q2, models.plan(c))
    ctx.close(q2.topicDists, memberships(np.array(c["q"]) * float(c.get("scale", 1)), phi0, theta0), 1e-6, 1e-9,
              "memberships of the documents queried")
    ctx.close(m2.wordDistParam, phi0, 1e-6, 1e-9, "topics after a query")


@CHECK.sub(models.config(kinds=["lda_vb_python", "mom_em", "mom_gibbs"], max_k=3, min_d=1), quick=600, shards=4)
def initial_topics(c, ctx):
    """a topic starts from one of each word, plus whole documents, drawn until they have a thousand words"""
    from scipy.optimize import linprog
    w = np.array(c["m"], dtype=float)
    w = np.hstack([w, np.zeros((len(w), 1))])          # a word that never occurs tells the scale
    c = dict(c, m=w.astype(int).tolist())
    w *= float(c.get("scale", 1))
    models.seed_all(c)
    with quiet():
        model = models.new_model(c, models.dataset(c))
    lam = np.asarray(model.wordDistParam if c["kind"] == "mom_em" else model.wordDists, dtype=np.float64)
    ctx.label(c["kind"])
    ctx.nontrivial(len(w) > 1 and c["K"] > 1)
    for k in range(c["K"]):
        ctx.check(lam[k, -1] > 0, "no mass for a word that never occurs")
        got = lam[k] / lam[k, -1] - 1
        if c["kind"] == "mom_em":
            ctx.close(lam[k, -1], 1.0, 1e-9, 0, "pseudo-count")
        else:
            ctx.close(lam[k].sum(), 1.0, 1e-9, 0, "sum of topic %d" % k)
        total = got.sum()
        ctx.check(1000 - 1e-6 <= total < 1000 + w.sum(axis=1).max() - 1e-6,
                  "topic %d starts from %r words, of documents of %r" % (k, total, w.sum(axis=1).tolist()))
        counts = np.round(got)
        ctx.close(got, counts, 0, 1e-6 * total, "counts of words in topic %d" % k)
        ctx.check(linprog(np.zeros(len(w)), A_eq=w.T, b_eq=counts).status == 0, "topic %d is no sum of documents: %r" % (k, got.tolist()))
