"""C07: scores, likelihoods and perplexities are the probability of the words under the reported topics."""
import inspect
import io
from contextlib import redirect_stdout
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st
from scipy.special import gammaln, logsumexp

import gen
import models
from pbt import Check, Discard, need
from sidetopics.model.common import DataSet
from sidetopics.model.evals import perplexity_from_like, word_perplexity
from sidetopics.model.sklearn import ScoreMethod, TopicModel, TopicModelType, WrappedScikitHdp, WrappedSckitLda

CHECK = Check("C07", "at least two documents and a word counted twice or more",
              ["point estimates; single-precision models are compared within 1e-4 relative",
               "CVB and CVB0: topic proportions include the prior, as their likelihood functions state",
               "every word observed has a probability above 1e-290 (1e-30 in single precision)"])


def admixture(w, theta, phi):
    p = theta @ phi
    return np.array([(row[row > 0] * np.log(np.maximum(pp[row > 0], 1e-300))).sum() for row, pp in zip(w, p)])


def mixture(w, theta, phi):
    ll = w @ np.log(np.maximum(phi, 1e-300)).T + np.log(np.maximum(theta, 1e-300))
    return logsumexp(ll, axis=1)


def expected(kind, w, theta, phi, single=False):
    theta, phi = np.asarray(theta, float), np.asarray(phi, float)
    if kind not in models.MIXTURES and (w > 0).any() and (theta @ phi)[w > 0].min() < (1e-30 if single else 1e-290):
        raise Discard()         # a word the model says is impossible: the floor is the code's own business
    return (mixture if kind in models.MIXTURES else admixture)(w, theta, phi)


def quiet():
    return redirect_stdout(io.StringIO())


def mark(c, ctx, w):
    ctx.nontrivial(w.shape[0] > 1 and (w > 1).any())
    ctx.label(c["kind"])


@st.composite
def trained(draw):
    c = draw(models.config(max_iters=5))
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=1, max_d=5, min_t=T, max_t=T))
    c["some"] = draw(st.lists(st.integers(0, len(c["q"]) - 1), min_size=1, max_size=len(c["q"]), unique=True))
    return c


@CHECK.sub(trained(), quick=1000, shards=8)
def modules(c, ctx):
    """the likelihood functions of the trainers"""
    models.seed_all(c)
    mod = models.module(c)
    data, other = models.dataset(c), models.dataset(c, c["q"])
    with quiet():
        model, q = models.train(c, data, models.new_model(c, data), models.new_query(c, data, models.new_model(c, data)))
        _, q2 = mod.query(other, model, models.new_query(c, other, model), models.plan(c))
    mark(c, ctx, np.array(c["m"]))
    fn = getattr(mod, "log_likelihood_point", None) or mod.log_likelihood
    single = models.dtype(c) == np.float32
    for d, s, m in ((data, q, c["m"]), (other, q2, c["q"])):
        w = np.array(m, dtype=float) * (c.get("scale", 1))
        phi = np.asarray(mod.wordDists(model), float)
        theta = np.asarray(mod.topicDists(s), float)
        if c["kind"] in ("lda_cvb", "lda_cvb0"):
            theta = np.asarray(s.n_dk, float) + models.alpha_vector(c, model)
            theta /= theta.sum(axis=1, keepdims=True)
            phi = np.asarray(model.n_kt, float) + float(model.vocabPrior)
            phi /= phi.sum(axis=1, keepdims=True)
        want = expected(c["kind"], w, theta, phi, single).sum()
        got = float(fn(d, model, s))
        ctx.close(got, want, 1e-4 if single else 1e-7, 1e-3 if single else 1e-7, "log likelihood")
        ctx.close(mod.perplexity_from_like(got, d.word_count), np.exp(-want / w.sum()), 1e-4 if single else 1e-7, 0, "perplexity")
        ctx.close(word_perplexity(lambda a, b, c_: fn(a, b, c_), model, s, d), np.exp(-want / w.sum()),
                  1e-4 if single else 1e-7, 0, "perplexity of the words")
    if "topicDistOverride" in inspect.signature(fn).parameters:
        given = gen.dirichlet(c["seed"] % 1000, len(w), c["K"])
        was = given.copy()
        want = expected(c["kind"], w, given, phi, single).sum()
        ctx.close(float(fn(other, model, q2, given)), want, 1e-7, 1e-7, "log likelihood with other assignments")
        ctx.equal(given, was, "the assignments given")
    if hasattr(mod, "pruneQueryState"):
        some = c["some"]
        less = mod.pruneQueryState(q2, np.array(some))
        ctx.close(mod.topicDists(less), theta[some], 1e-12, 1e-12, "topics of some documents")
        ctx.close(float(fn(DataSet(other.words[some]), model, less)), expected(c["kind"], w[some], theta[some], phi).sum(),
                  1e-7, 1e-7, "log likelihood of some documents")
        ctx.close(mod.topicDists(q2), theta, 0, 0, "topics of all documents")
    if c["kind"] == "mom_em":
        w = np.array(c["q"], dtype=float) * c.get("scale", 1)
        a, b = np.asarray(model.corpusTopicDistParam), np.asarray(model.wordDistParam)
        ll = np.log(a / a.sum()) + np.array([[gammaln(bk.sum()) - gammaln((bk + r).sum()) + (gammaln(bk + r) - gammaln(bk)).sum()
                                              for bk in b] for r in w])
        ctx.close(float(mod.log_likelihood_expected(other, model, None)), logsumexp(ll, axis=1).sum(), 1e-8, 1e-8,
                  "likelihood with the parameters integrated out")


@st.composite
def constructed(draw):
    D, T, K = draw(st.integers(1, 6)), draw(st.integers(2, 7)), draw(st.integers(1, 4))
    m = draw(gen.counts(min_d=D, max_d=D, min_t=T, max_t=T, big=True))
    return {"m": m, "K": K, "seed": draw(gen.seeds), "kind": draw(st.sampled_from(models.KINDS)),
            "conc": draw(st.sampled_from([0.7, 5.0, 0.05])), "floor": draw(st.sampled_from([1e-4, 1e-12, 1e-2])),
            "wt": draw(st.sampled_from(["float64", "float32", "int32", "int64"])),
            "shared": draw(st.booleans()), "cut": draw(st.integers(0, D))}


@CHECK.sub(constructed(), quick=6000, shards=4)
def weights_and_components(c, ctx):
    """the estimator's score of any topic assignments under any components"""
    w = np.array(c["m"], dtype=float)
    mark(c, ctx, w)
    score = need(TopicModel, "_log_likelihood_score_point")
    kind = TopicModelType[models.TYPE_NAMES[c["kind"]]]
    D, T = w.shape
    phi = gen.dirichlet(c["seed"], c["K"], T, c["conc"], c["floor"])
    theta = gen.dirichlet(c["seed"] + 1, D, c["K"], c["conc"], c["floor"])
    want = expected(c["kind"], w, theta, phi)
    data = DataSet(gen.csr(c["m"], c["wt"]))
    th, ph = theta.copy(), phi.copy()
    got = np.asarray(score(kind, X=data, weightings=th, components=ph))
    ctx.equal(got.shape, (D,), "one figure for each document")
    ctx.close(got, want, 1e-7, 1e-7, "log likelihood of the documents")
    ctx.equal(th, theta, "the weights given")
    ctx.equal(ph, phi, "the components given")
    if kind.is_mixture() and c["shared"]:
        got = np.asarray(score(kind, X=data, weightings=theta[0], components=phi))
        ctx.close(got, mixture(w, np.tile(theta[0], (D, 1)), phi), 1e-7, 1e-7, "log likelihood with weights for the corpus")
    cut = c["cut"]
    parts = [np.asarray(score(kind, X=DataSet(gen.csr(w[s], c["wt"])), weightings=theta[s], components=phi)).sum()
             for s in (slice(0, cut), slice(cut, D)) if len(w[s])]
    ctx.close(sum(parts), want.sum(), 1e-7, 1e-7, "sum of the parts")


@CHECK.sub(constructed(), quick=2500, shards=2)
def wrapped(c, ctx):
    """the wrappers of other libraries' models score the same way"""
    w = np.array(c["m"], dtype=float)
    mark(c, ctx, w)
    D, T = w.shape
    K = max(2, c["K"])
    lam = gen.dirichlet(c["seed"], K, T, c["conc"], c["floor"]) * (3.0 + np.arange(K))[:, None]
    theta = gen.dirichlet(c["seed"] + 1, D, K, c["conc"], c["floor"])
    want = admixture(w, theta, lam / lam.sum(axis=1, keepdims=True))
    lda = WrappedSckitLda(n_components=K)
    lda.components_ = lam.copy()
    hdp = WrappedScikitHdp(dictionary=None, n_components=K)
    hdp.gensim_model = SimpleNamespace(m_lambda=lam.copy(), m_lambda_sum=lam.sum(axis=1))
    rtol = 1e-4 if c["wt"] == "float32" else 1e-7
    for name, m in (("scikit", lda), ("gensim", hdp)):
        data = DataSet(gen.csr(c["m"], c["wt"]))
        for X in (data, data.words):
            for method in (ScoreMethod.LogLikelihoodPoint, "log_likelihood_point"):
                ctx.close(m.score(X, y=theta.copy(), method=method), want.sum(), rtol, rtol, name + " log likelihood")
            ctx.close(m.score(X, y=theta.copy(), method=ScoreMethod.PerplexityPoint), np.exp(-want.sum() / w.sum()), rtol, 0,
                      name + " perplexity")


@st.composite
def scored(draw):
    c = draw(models.config(max_iters=4, f32=False, batch=True))
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=1, max_d=5, min_t=T, max_t=T))
    c["on"] = draw(st.sampled_from(["q", "m"]))
    c["array"] = draw(st.booleans())
    c["cut"] = draw(st.integers(0, 5))
    return c


@CHECK.sub(scored(), quick=800, shards=8)
def estimators(c, ctx):
    mark(c, ctx, np.array(c["m"]))
    tm = TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], doc_topic_prior=models.prior(c),
                    topic_word_prior=c["beta"], iterations=c["iters"], burn_in=0, thin=1, seed=c["seed"],
                    default_scoring_method=ScoreMethod.PerplexityPoint, **models.batch_plan(c))
    data = models.dataset(c)
    with quiet():
        tm.fit(data)
        X = data if c["on"] == "m" else models.dataset(c, c["q"])
        w = np.asarray(X.words.todense(), dtype=float)
        y = np.asarray(tm.transform(X, persist_query_state=True))
        state = tm.query_state_
        phi = np.asarray(tm.components_, dtype=float)
    single = c["kind"] in ("lda_cvb", "lda_cvb0")
    want = expected(c["kind"], w, y, phi, single)
    tol = 2e-4 if c["kind"] in ("lda_cvb", "lda_cvb0") else 1e-7
    arg = X.words if c["array"] else X
    perp = np.exp(-want.sum() / w.sum())
    L, P = ScoreMethod.LogLikelihoodPoint, ScoreMethod.PerplexityPoint
    with quiet():
        by_state = tm.score(arg, y_query_state=state, method=L)
        ctx.close(by_state, want.sum(), tol, tol, "score with the query state")
        ctx.close(tm.score(arg, y_query_state=state, method=P), perp, tol, 0, "perplexity with the query state")
        ctx.close(tm.score(arg, y_query_state=state), perp, tol, 0, "score by the default method")
        ctx.close(tm.score(arg, y_query_state=state, method=L.value), want.sum(), tol, tol, "score by the name of the method")
        ctx.close(tm.score(arg, y_query_state=state, method=" %s " % P.value.upper()), perp, tol, 0, "perplexity by its name")
        ctx.close(tm.score(X, y_query_state=state, method=ScoreMethod.DocCompletionPerplexityPoint), perp, tol, 0,
                  "perplexity of given assignments by document completion")
        ctx.close(tm.score(X, y_query_state=state, method=ScoreMethod.DocCompletionLogLikelihoodPoint), want.sum(), tol, tol,
                  "score of given assignments by document completion")
        if c["kind"] != "lda_gibbs":
            ctx.close(tm.score(arg, y=y.copy(), method=L), want.sum(), tol, tol, "score with the assignments")
            ctx.close(tm.score(arg, y=y.copy(), method=P), perp, tol, 0, "perplexity with the assignments")
            other = gen.dirichlet(c["seed"] % 1000, len(w), c["K"])
            ctx.close(tm.score(arg, y=other, method=L), expected(c["kind"], w, other, phi).sum(), tol, tol, "score with other assignments")
            cut = min(c["cut"], len(w))
            parts = [tm.score(models.matrix(c, c[c["on"]])[s], y=y[s], method=L)
                     for s in (slice(0, cut), slice(cut, len(w))) if len(w[s])]
            ctx.close(sum(parts), want.sum(), tol, tol, "sum of the scores of the parts")
        per_doc = np.asarray(tm.log_likelihood_score_point(X, y))
        ctx.close(per_doc.reshape(-1), want, tol, tol, "scores of the documents")
        # no assignments: those inferred by a query from the same state of the random numbers
        for method in (L, ScoreMethod.DocCompletionLogLikelihoodPoint, ScoreMethod.DocCompletionPerplexityPoint):
            infer, ev = (X, X) if method is L else X.doc_completion_split()
            if method is not L and (infer.doc_count == 0 or (np.asarray(infer.doc_lens) < 1).any()):
                continue
            tm.seed = c["seed"]
            yy = np.asarray(tm.transform(infer))
            we = np.asarray(ev.words.todense(), dtype=float)
            ll = expected(c["kind"], we, yy, phi).sum()
            tm.seed = c["seed"]
            got = tm.score(X, method=method)
            if method is ScoreMethod.DocCompletionPerplexityPoint:
                if we.sum() > 0:
                    ctx.close(got, np.exp(-ll / we.sum()), tol, 0, "perplexity by document completion")
            else:
                ctx.close(got, ll, tol, tol, "score without assignments by " + method.value)
