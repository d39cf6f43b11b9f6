"""C37: the models of linked documents learn proper distributions, score them truly and only read what they are queried with."""
import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st
from scipy.special import digamma, logsumexp
from scipy.stats import norm

import gen
import side
from pbt import Check
from sidetopics.model import lda_vb_python as lda
from sidetopics.model import lro_vb, mtm3, rtm, sim_based_rec
from sidetopics.model.common import DataSet

CHECK = Check("C37", "corpora of 3 to 6 documents with links, trained for up to 6 iterations, and other documents to query; "
              "non-trivial = two or more links between different documents",
              ["double precision; documents have words", "LRO's offsets are judged for unit noise; the link weights of RTM are not judged here (C27 judges "
               "what is predicted from them)"])

KINDS = ["rtm", "mtm3", "lro_vb", "sim_lda", "sim_tfidf"]
MODS = {"rtm": rtm, "mtm3": mtm3, "lro_vb": lro_vb, "sim_lda": sim_based_rec, "sim_tfidf": sim_based_rec}


@st.composite
def corpora(draw, kinds=KINDS, max_iters=6):
    m = draw(gen.counts(min_d=3, max_d=6, min_t=2, max_t=7))
    D, T = len(m), len(m[0])
    q = draw(gen.counts(min_d=1, max_d=4, min_t=T, max_t=T))
    links = draw(gen.table(D, D, [0, 1, 0, 0, 1, 0, 0, 2, 0, 0, 0, 1, 0, 1, 0, 0]))
    if not any(map(any, links)):
        links[1][0] = 1
    return {"kind": draw(st.sampled_from(kinds)), "m": m, "q": q, "l": links, "K": draw(st.integers(2, 4)), "seed": draw(gen.seeds),
            "iters": draw(st.integers(1, max_iters)), "log": draw(st.sampled_from([1, 2, 3])), "scale": draw(st.sampled_from([1, 1, 10])),
            "messy": draw(st.booleans())}


def links_of(c, messy=None):
    l = gen.messy_csr(c["l"], np.float64, False, c["seed"] % 2 ** 31) if (c["messy"] if messy is None else messy) else gen.csr(c["l"])
    return l


def corpus(c, which="m"):
    words = gen.csr(np.array(c[which], dtype=float) * c["scale"])
    n = words.shape[0]
    return DataSet(words, links=links_of(c) if which == "m" else ssp.csr_matrix((n, n)))


def plan(c, iters=None):
    mod, n = MODS[c["kind"]], iters or c["iters"]
    if c["kind"] == "lro_vb":
        return mod.newTrainPlan(n, ldaIterations=n, logFrequency=c["log"])
    return mod.newTrainPlan(n, logFrequency=c["log"])


def new(c, data, **kw):
    mod = MODS[c["kind"]]
    if c["kind"].startswith("sim"):
        kw["method"] = mod.LDA if c["kind"] == "sim_lda" else mod.TF_IDF
    return mod.newModelAtRandom(data, c["K"], dtype=np.float64, **kw)


def trained(c, data, **kw):
    mod = MODS[c["kind"]]
    np.random.seed(c["seed"] % 2 ** 31)
    with side.quiet(), np.errstate(all="ignore"):
        model = new(c, data, **kw)
        query = mod.newQueryState(data, model)
        return mod.train(data, model, query, plan(c))[:2]


def flat(x, out=None, name=""):
    """every array and number in a state, however nested"""
    out = {} if out is None else out
    if hasattr(x, "_fields"):
        for f in x._fields:
            flat(getattr(x, f), out, name + "." + f)
    elif ssp.issparse(x):
        out[name] = x.toarray()
    elif isinstance(x, np.ndarray):
        out[name] = x.copy()
    elif isinstance(x, (int, float, str)):
        out[name] = x
    return out


def kept(ctx, before, after, what, rtol=0.0):
    a, b = before, flat(after)
    ctx.equal(sorted(b), sorted(a), "fields of " + what)
    for k in a:
        if rtol and isinstance(a[k], np.ndarray):
            ctx.close(b[k], a[k], rtol, rtol, what + k)
        elif isinstance(a[k], np.ndarray):
            ctx.check(np.array_equal(b[k], a[k], equal_nan=True), what + k + " has changed")
        else:
            ctx.equal(b[k], a[k], what + k)


def topics(c, query):
    """the topic distributions a state stands for"""
    if c["kind"] == "rtm":
        return rtm.topicDists(query)
    if c["kind"] == "mtm3":
        return mtm3.topicDists(query)
    if c["kind"] == "lro_vb":
        return lda.topicDists(query.ldaQuery)
    return np.asarray(query.reps) ** 2


def vocab(c, model):
    return lda.wordDists(model.ldaModel) if c["kind"].startswith("sim") else MODS[c["kind"]].wordDists(model)


def softmax(x, axis):
    return np.exp(x - logsumexp(x, axis=axis, keepdims=True))


def likelihood(c, data, model, query):
    w = data.words.toarray()
    p = topics(c, query) @ vocab(c, model)
    total = np.sum(np.where(w > 0, w * np.log(np.where(w > 0, p, 1)), 0))
    if c["kind"] == "mtm3":
        l = data.links.toarray()
        r = softmax(query.outMeans, 1) @ softmax(query.inMeans, 0).T
        total += np.sum(np.where(l > 0, l * np.log(np.where(l > 0, r, 1)), 0))
    return total


def tfidf(words):
    w = words.toarray()
    df = (w > 0).sum(axis=0)
    return w / w.sum(axis=1, keepdims=True) * np.log(w.shape[0] / (df + 1.0))


def judge(ctx, c, data, model, query):
    mod = MODS[c["kind"]]
    D, K, T = data.doc_count, c["K"], data.words.shape[1]
    if c["kind"] == "sim_tfidf":
        ctx.close(query.reps.toarray(), tfidf(data.words), 1e-9, 1e-12, "the weights of the words")
        return
    th, be = topics(c, query), vocab(c, model)
    ctx.equal(th.shape, (D, K), "shape of the topics")
    ctx.equal(be.shape, (K, T), "shape of the vocabularies")
    ctx.distribution(th, "topics of a document", tol=1e-8)
    ctx.distribution(be, "words of a topic", tol=1e-8, strict=True)
    with side.quiet(), np.errstate(all="ignore"):
        got = float(np.sum(mod.log_likelihood(data, model, query)))
    ctx.close(got, likelihood(c, data, model, query), 1e-7, 1e-7, "log likelihood")
    if c["kind"] == "rtm":
        n = np.asarray(data.words.sum(axis=1)).ravel()
        ctx.close(query.topicDists[:, :K].sum(axis=1), n + model.topicPrior[:K].sum(), 1e-8, 1e-8, "prior and words of a document")
        ctx.check(np.all(query.topicDists[:, :K] >= model.topicPrior[:K] * (1 - 1e-9)), "fewer than no words of a topic")
        ctx.check(np.all(model.topicPrior[:K] > 0) and model.topicPrior[K] == 0, "topic prior is %r" % model.topicPrior)
        ctx.finite(model.weights, "weights")
    if c["kind"] == "mtm3":
        ctx.check(np.all(query.outVarcs > 0) and np.all(query.inVarcs > 0), "a variance is not positive")
        ctx.close(model.topicCov, model.topicCov.T, 1e-7, 1e-10, "covariance of the topics and its transpose")
        ctx.check(np.linalg.eigvalsh((model.topicCov + model.topicCov.T) / 2).min() > 0, "covariance of the topics is not positive definite")
        ctx.check(np.all(query.inDocCov > 0), "a document's covariance is not positive")
    if c["kind"] == "lro_vb":
        ctx.finite(query.offsetTopicDists, "offsets")
        ctx.equal(query.offsetTopicDists.shape, (D, K), "shape of the offsets")


def nontrivial(ctx, c):
    ctx.label(c["kind"])
    ctx.nontrivial(sum(1 for i, r in enumerate(c["l"]) for j, v in enumerate(r) if v and i != j) > 1)


@CHECK.sub(corpora(), quick=700, shards=8)
def training(c, ctx):
    nontrivial(ctx, c)
    data = corpus(c)
    words, links = data.words.toarray(), data.links.toarray()
    model, query = trained(c, data)
    ctx.equal(data.words.toarray(), words, "the words")
    ctx.equal(data.links.toarray(), links, "the links")
    judge(ctx, c, data, model, query)
    if c["kind"] == "rtm":
        ctx.close(model.wordDists.sum(axis=0), c["K"] * model.vocabPrior + words.sum(axis=0), 1e-8, 1e-8, "prior and occurrences of a word")
    # judging changes nothing, and the same start gives the same result
    again = trained(c, corpus(c))
    kept(ctx, flat(model), again[0], "the model trained again", 1e-9)
    kept(ctx, flat(query), again[1], "the documents trained again", 1e-9)


@CHECK.sub(corpora(), quick=700, shards=8)
def querying(c, ctx):
    nontrivial(ctx, c)
    mod = MODS[c["kind"]]
    model, _ = trained(c, corpus(c))
    data = corpus(c, "q")
    words = data.words.toarray()
    before = flat(model)
    with side.quiet(), np.errstate(all="ignore"):
        q = mod.newQueryState(data, model)
        kept(ctx, before, model, "the model a query state was made for")
        start = flat(q)
        p = plan(c)
        if c["kind"] == "lro_vb":
            p = p._replace(iterations=0)        # its offsets are those of link targets, and nothing links here
        after, got = mod.query(data, model, q, p)
    kept(ctx, before, model, "the model queried")
    kept(ctx, before, after, "the model returned")
    ctx.equal(data.words.toarray(), words, "the words")
    judge(ctx, c, data, model, got)
    if c["kind"] in ("rtm", "mtm3"):
        # documents that are not linked do not see one another
        for d in range(data.doc_count):
            one = DataSet(data.words[d, :], links=ssp.csr_matrix((1, 1)))
            state = q._replace(**{k[1:]: (v[[d]].copy() if isinstance(v, np.ndarray) else v) for k, v in start.items()})
            with side.quiet(), np.errstate(all="ignore"):
                _, alone = mod.query(one, model, state, plan(c))
            ctx.close(topics(c, alone)[0], topics(c, got)[d], 1e-7, 1e-9, "topics of document %d by itself" % d)


@CHECK.sub(corpora(["rtm", "mtm3"]), quick=240, shards=8)
def stored_order(c, ctx):
    """links are the same in whatever order the matrix stores them"""
    nontrivial(ctx, c)
    mod = MODS[c["kind"]]
    words = gen.csr(np.array(c["m"], dtype=float) * c["scale"])
    out = []
    for messy in (False, True):
        data = DataSet(words.copy(), links=links_of(c, messy))
        np.random.seed(c["seed"] % 2 ** 31)
        with side.quiet(), np.errstate(all="ignore"):
            model = new(c, data)
            query = mod.newQueryState(data, model)
            value = [float(np.sum(f(data, model, query))) for f in (mod.var_bound, mod.log_likelihood)]
            model, query = mod.train(data, model, query, plan(c, 1))[:2]
        out.append((value, vocab(c, model), topics(c, query)))
    for got, want, what in zip(out[1], out[0], ("bound and likelihood", "words of the topics", "topics of the documents")):
        ctx.close(got, want, 1e-7, 1e-7, what)


@CHECK.sub(corpora(["rtm"]), quick=240, shards=4)
def relational_update(c, ctx):
    """one sweep of the relational model: each document's words in turn, by its topics and those of its neighbours"""
    nontrivial(ctx, c)
    data = corpus(c)
    K = c["K"]
    np.random.seed(c["seed"] % 2 ** 31)
    model = new(c, data)
    query = rtm.newQueryState(data, model)
    model.weights[:] = np.random.RandomState(c["seed"] % 1000).randn(K + 1)
    w0, b, prior = model.weights.copy(), model.wordDists.copy(), model.topicPrior.copy()
    n, params = query.docLens.astype(float).copy(), query.topicDists.copy()
    with side.quiet(), np.errstate(all="ignore"):
        model, query = rtm.train(data, model, query, plan(c, 1))[:2]
    means = np.hstack([(params[:, :K] - prior[:K]) / n[:, None], np.ones((len(n), 1))])
    elog = digamma(b) - digamma(b.sum(axis=1))[:, None]
    want = np.full_like(b, model.vocabPrior)
    W, L = data.words.toarray(), np.array(c["l"])
    for d in range(len(n)):
        score = digamma(prior[:K] + n[d] * means[d, :K])
        for p in np.flatnonzero(L[d]):
            x = (means[d] * means[p]) @ w0
            score = score + norm.pdf(x) / (norm.cdf(x) + 1e-30) / n[d] * w0[:K] * means[p, :K]
        z = softmax(elog + score[:, None], 0)
        means[d, :K] = (z * W[d]).sum(axis=1) / n[d]
        want += z * W[d]
    ctx.close(query.topicDists[:, :K], means[:, :K] * n[:, None] + prior[:K], 1e-6, 1e-8, "topics of the documents")
    ctx.close(model.wordDists, want, 1e-6, 1e-8, "words of the topics")


@CHECK.sub(corpora(["rtm"], 4), quick=160, shards=4)
def sweep_by_sweep(c, ctx):
    """the last sweep of training is what one more sweep would have done to what came before"""
    nontrivial(ctx, c)
    out = []
    for parts in ([c["iters"] + 1], [c["iters"], 1]):
        data = corpus(c)
        np.random.seed(c["seed"] % 2 ** 31)
        model = new(c, data)
        query = rtm.newQueryState(data, model)
        with side.quiet(), np.errstate(all="ignore"):
            for n in parts:
                model, query = rtm.train(data, model, query, plan(c, n))[:2]
        out.append((model.wordDists, query.topicDists[:, :c["K"]]))
    for got, want, what in zip(out[1], out[0], ("words of the topics", "topics of the documents")):
        ctx.close(got, want, 1e-5, 1e-6, what)


@CHECK.sub(corpora(["mtm3"], 12), quick=240, shards=4)
def matrix_variate_query(c, ctx):
    """every iteration of a query raises the posterior of a document's topics"""
    nontrivial(ctx, c)
    model, _ = trained(c, corpus(c))
    data = corpus(c, "q")
    W = data.words.toarray()
    prec = np.linalg.inv(model.topicCov) / model.outDocCov

    def posterior(out):
        like = W * np.log(softmax(out, 1) @ model.vocab)
        off = out - model.topicMean
        return like.sum(axis=1) - 0.5 * np.einsum("dk,kj,dj->d", off, prec, off)
    with side.quiet(), np.errstate(all="ignore"):
        q = mtm3.newQueryState(data, model)
        last = posterior(q.outMeans)
        for _ in range(6):
            _, q = mtm3.query(data, model, q, plan(c, 1))
            now = posterior(q.outMeans)
            ctx.check(np.all(now >= last - 1e-7 * (1 + np.abs(last))), "the posterior fell from %r to %r" % (last, now))
            last = now
        _, q = mtm3.query(data, model, q, mtm3.newTrainPlan(3000, logFrequency=0))
    # at the end nothing nearby is better
    best = posterior(q.outMeans)
    rng = np.random.RandomState(c["seed"] % 2 ** 31)
    for step in (0.3, 0.03):
        for _ in range(12):
            other = posterior(q.outMeans + step * rng.randn(*q.outMeans.shape))
            ctx.check(np.all(other <= best + 1e-5 * (1 + np.abs(best))), "the posterior near the end is %r, above %r" % (other, best))


@CHECK.sub(corpora(["mtm3"]), quick=200, shards=2)
def matrix_variate_words(c, ctx):
    """the first update of the words of topics is by their expected counts"""
    nontrivial(ctx, c)
    data = corpus(c)
    np.random.seed(c["seed"] % 2 ** 31)
    model = new(c, data)
    query = mtm3.newQueryState(data, model)
    th, be = softmax(query.outMeans, 1), model.vocab.copy()
    W = data.words.toarray()
    z = th.T[:, :, None] * be[:, None, :]
    z /= z.sum(axis=0)
    want = (z * W[None]).sum(axis=1) + mtm3.VocabPrior
    with side.quiet(), np.errstate(all="ignore"):
        model, _ = mtm3.train(data, model, query, plan(c, 1))[:2]
    ctx.close(mtm3.wordDists(model), want / want.sum(axis=1, keepdims=True), 1e-7, 1e-10, "words of the topics")


@CHECK.sub(corpora(["mtm3", "lro_vb", "sim_lda"]), quick=300, shards=4)
def from_topics(c, ctx):
    """started from a topic model that is already trained, they take over its topics and leave it alone"""
    nontrivial(ctx, c)
    mod = MODS[c["kind"]]
    data = corpus(c)
    np.random.seed(c["seed"] % 2 ** 31)
    with side.quiet(), np.errstate(all="ignore"):
        lm = lda.newModelAtRandom(data, c["K"], dtype=np.float64)
        lm, lq, _ = lda.train(data, lm, lda.newQueryState(data, lm), lda.newTrainPlan(5, logFrequency=0))
        th, be = lda.topicDists(lq), lda.wordDists(lm)
        before = flat(lm), flat(lq)
        if c["kind"] == "mtm3":
            model = mod.newModelAtRandom(data, c["K"], dtype=np.float64, withLdaModel=lm)
        else:
            model = new(c, data, ldaModel=lm)
        query = mod.newQueryState(data, model, withLdaTopics=lq)
        ctx.close(vocab(c, model), be, 1e-9, 1e-12, "words of the topics")
        if c["kind"] == "mtm3":
            ctx.close(topics(c, query), th, 1e-7, 1e-10, "topics of the documents")
        model, query = mod.train(data, model, query, plan(c))[:2]
    kept(ctx, before[0], lm, "the topic model")
    kept(ctx, before[1], lq, "its documents")
    if c["kind"] != "mtm3":
        ctx.close(vocab(c, model), be, 1e-9, 1e-12, "words of the topics after training")
        ctx.close(topics(c, query), th, 1e-7, 1e-10, "topics of the documents after training")
    judge(ctx, c, data, model, query)


@CHECK.sub(st.fixed_dictionaries({"c": corpora(["lro_vb"], max_iters=6), "no": st.floats(0.001, 0.9), "yes": st.floats(0.1, 3),
                                  "eps": st.one_of(st.none(), st.sampled_from([0.1, 0.01, 1e-4, 1.0]))}), quick=350, shards=4)
def lro_sweeps(v, ctx):
    """A sweep of LRO finds the scale, and then the offset of every document, that best explain who links to it:
    weighted least squares over all other documents, drawn to the document's own topics."""
    c = v["c"]
    D = len(c["m"])
    links = np.array(c["l"], dtype=float)
    np.fill_diagonal(links, 0)
    if not links.any():
        links[1][0] = 1
    c = dict(c, l=links.astype(int).tolist())
    data = corpus(c)
    np.random.seed(c["seed"] % 2 ** 31)
    with side.quiet(), np.errstate(all="ignore"):
        lm = lda.newModelAtRandom(data, c["K"], dtype=np.float64)
        lm, lq, _ = lda.train(data, lm, lda.newQueryState(data, lm), lda.newTrainPlan(5, logFrequency=0))
        th = lda.topicDists(lq).copy()
        run = []
        for n in range(1, c["iters"] + 1):
            model = new(c, data, ldaModel=lm, noiseVar=1, predVar=np.array([v["no"], v["yes"]]))
            query = lro_vb.newQueryState(data, model, withLdaTopics=lq)
            model, query = lro_vb.train(data, model, query, lro_vb.newTrainPlan(n, epsilon=0, ldaIterations=1))[:2]
            run.append((float(model.scale), np.array(query.offsetTopicDists)))
    ctx.close(lda.topicDists(lq), th, 0, 0, "topics of the documents")
    L = (links != 0).astype(float)                    # L[d, p]: d links to p
    wt = np.where(L > 0, v["yes"], v["no"])
    np.fill_diagonal(wt, 0)
    offs = th
    for n, (scale, got) in enumerate(run):
        x = th @ offs.T                               # x[d, p]: what d makes of p
        s = (wt * L * x).sum() / (wt * x * x).sum()
        ctx.close(scale, s, 1e-6, 1e-9, "scale after %d sweeps" % (n + 1))
        want = np.empty_like(th)
        for p in range(D):
            a = np.vstack([np.sqrt(wt[:, p])[:, None] * s * th, np.eye(c["K"])])
            b = np.concatenate([np.sqrt(wt[:, p]) * L[:, p], th[p]])
            want[p] = np.linalg.lstsq(a, b, rcond=None)[0]
        ctx.close(got, want, 1e-6, 1e-8, "offsets after %d sweeps" % (n + 1))
        offs = got
    norms = [np.linalg.norm(th)] + [np.linalg.norm(o / s) for s, o in run]
    eps = 0.01 * D * c["K"] if v["eps"] is None else v["eps"]
    moves = [abs(a - b) for a, b in zip(norms, norms[1:])]
    if min(abs(m - eps) for m in moves) > 1e-6 * eps:
        last = next((n for n, m in enumerate(moves) if m < eps), len(moves) - 1)
        with side.quiet(), np.errstate(all="ignore"):
            model = new(c, data, ldaModel=lm, noiseVar=1, predVar=np.array([v["no"], v["yes"]]))
            query = lro_vb.newQueryState(data, model, withLdaTopics=lq)
            model, query = lro_vb.train(data, model, query, lro_vb.newTrainPlan(len(run), epsilon=v["eps"], ldaIterations=1))[:2]
        ctx.close(query.offsetTopicDists, run[last][1], 1e-9, 1e-12, "offsets when they stop moving")
        ctx.label("stopped early", last < len(moves) - 1)
    ctx.label("several sweeps", len(run) > 1)
    ctx.nontrivial(D > 2 and len(run) > 1 and L.sum() > 1)
