"""C09: the estimator's life cycle, compared with the trainers called directly in the documented order."""
import copy

import numpy as np
from hypothesis import strategies as st

import gen
import models
from pbt import Check, need
from sidetopics.model.common import DataSet
from sidetopics.model.sklearn import ScoreMethod, TopicModel

CHECK = Check("C09", "a history with at least two accepted calls after the first fit",
              ["one estimator history at a time; every call is seeded, so the reference makes the same random choices",
               "a resumed fit of CVB/CVB0 recounts the corpus (known finding of C03): its numbers are not compared"])

VALID = ["log_likelihood_point", "perplexity_point"]
OPS = ["fit", "fit", "fit_transform", "transform", "transform", "resume_fit", "resume_transform", "score", "score_y",
       "score_q", "copy", "switch", "bad_resume_fit", "bad_resume_transform", "bad_array_resume", "bad_both",
       "bad_method", "bad_expect", "bad_fit"]


@st.composite
def history(draw):
    c = draw(models.config(max_iters=4, f32=False, max_d=5, max_t=6, max_k=3, batch=True))
    c.pop("wdtype", None)
    T = len(c["m"][0])
    c["other"] = draw(gen.counts(min_d=1, max_d=4, min_t=T, max_t=T))
    c["qit"] = draw(st.sampled_from([None, 1, 3]))
    c["burn"] = draw(st.sampled_from([0, 2, -1]))
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.sampled_from([False, False, False, True]),
                                       st.sampled_from([True, True, False]),
                                       st.sampled_from([None, None, 1, 3]), st.sampled_from(VALID)),
                             min_size=1, max_size=9))
    if draw(st.integers(0, 3)):
        c["ops"].insert(0, ("fit", False, True, None, VALID[0]))
    return c


def clone(x):
    return copy.deepcopy(x)


class Reference:
    """what one estimator should hold: a model, perhaps a kept query state, and the data it belongs to"""

    def __init__(self, c):
        self.c, self.mod = c, models.module(c)
        self.model = self.kept = self.kept_for = self.log = None
        self.extra = {}

    def plan(self, iters):
        c = self.c
        if c["kind"] == "lda_gibbs":
            return self.mod.newTrainPlan(iters, burnIn=self.extra.get("burn_in", c["burn"]), thin=self.extra.get("thin", -1),
                                         logFrequency=c["log"])
        return self.mod.newTrainPlan(iterations=iters, epsilon=0.1, logFrequency=c["log"], **models.batch_plan(c))

    def query_iters(self):
        return self.c["qit"] or max(1, self.c["iters"] // 10)

    def fit(self, X, resume, persist, iters):
        if self.model is None:
            self.model = self.mod.newModelAtRandom(X, self.c["K"], topicPrior=models.prior(self.c), vocabPrior=self.c["beta"])
        q = self.kept if resume else self.mod.newQueryState(X, self.model)
        self.model, q, self.log = self.mod.train(X, self.model, q, self.plan(iters or self.c["iters"]))
        self.kept, self.kept_for = (q, X) if persist else (None, None)

    def transform(self, X, resume, persist, iters):
        q = self.kept if resume else self.mod.newQueryState(X, self.model)
        self.model, q = self.mod.query(X, self.model, q, self.plan(iters or self.query_iters()))
        self.kept, self.kept_for = (q, X) if persist else (None, None)
        return self.mod.topicDists(q)


def compare(ctx, tm, ref, what):
    if ref.model is None:
        try:
            tm.components_
        except Exception:
            pass
        else:
            ctx.fail("an estimator that was never fitted has components after %s" % what)
    else:
        ctx.equal(np.asarray(tm.components_), np.asarray(ref.mod.wordDists(ref.model)), "components after %s" % what)
    if ref.kept is None:
        ctx.check(tm.query_state_ is None, lambda: "a query state is kept after %s" % what)
    else:
        ctx.check(tm.query_state_ is not None, lambda: "no query state is kept after %s" % what)
        models.same(ctx, tm.query_state_, models.freeze(ref.kept), "kept state after %s" % what)


def refused(ctx, what, fn):
    try:
        r = fn()
    except Exception:
        return
    ctx.fail("%s was accepted and returned %r" % (what, r if not hasattr(r, "kind") else "the estimator"))


@CHECK.sub(history(), quick=1100, shards=6)
def lifecycle(c, ctx):
    ctx.label(c["kind"])
    cvb = c["kind"] in ("lda_cvb", "lda_cvb0")
    sets = [models.dataset(c), models.dataset(c, c["other"])]
    bad = np.array(c["m"], dtype=np.float64)
    bad[0, :] = 0
    bad = DataSet(gen.csr(np.vstack([bad, np.ones((1, bad.shape[1]))])))
    tm = TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], doc_topic_prior=models.prior(c),
                    topic_word_prior=c["beta"], iterations=c["iters"], query_iterations=c["qit"], burn_in=c["burn"],
                    log_frequency=c["log"], seed=c["seed"], **models.batch_plan(c))
    pairs, now, done = [(tm, Reference(c))], 0, 0
    for i, (op, second, persist, iters, method) in enumerate(c["ops"]):
        tm, ref = pairs[now]
        X, seed = sets[second], (c["seed"] + 7 * i) % 2 ** 31
        kw = {} if iters is None else {"iterations": iters}
        ref.extra = {}
        if c["kind"] == "lda_gibbs" and iters == 3 and seed % 2 and op not in ("score", "score_y", "score_q"):
            ref.extra = {"burn_in": 1, "thin": 1 + seed // 2 % 2}
            kw.update(ref.extra)
        what = "call %d (%s)" % (i, op)
        before = clone((ref.model, ref.kept))
        models.seed_all(c, seed)
        accepted = True
        if ref.model is None and op not in ("fit", "fit_transform", "copy", "switch") and not op.startswith("bad_"):
            if op == "resume_fit":
                refused(ctx, "resuming an unfitted estimator", lambda: tm.fit(X, resume=True))
            elif op.endswith("transform"):
                refused(ctx, "transforming with an unfitted estimator", lambda: tm.transform(X, resume=op != "transform"))
            elif op == "score_y":
                y = np.ones((X.doc_count, c["K"])) / c["K"]
                refused(ctx, "scoring with an unfitted estimator", lambda: tm.score(X, y=y, method=method))
            else:
                refused(ctx, "scoring with an unfitted estimator", lambda: tm.score(X, method=method))
            accepted = False
        elif op == "fit":
            got = tm.fit(X, persist_query_state=persist, **kw)
            ctx.check(got is tm, "fit does not return the estimator")
            models.seed_all(c, seed)
            ref.fit(X, False, persist, iters)
            if isinstance(ref.log, tuple) and len(ref.log) == 3:
                for have, want in zip((tm.fit_metrics_.iters, tm.fit_metrics_.bound_values, tm.fit_metrics_.likelihood_values), ref.log):
                    ctx.equal(np.asarray(have, dtype=np.float64), np.asarray(want, dtype=np.float64), "what training logged, after " + what)
        elif op == "fit_transform":
            if cvb:
                got = tm.fit_transform(X)
                models.seed_all(c, seed)
                ref.fit(X, False, True, None)
                want = ref.transform(X, True, False, None)
            else:
                got = tm.fit_transform(X, **kw)
                models.seed_all(c, seed)
                ref.fit(X, False, True, iters)
                want = ref.transform(X, True, False, iters)
            ctx.equal(np.asarray(got), np.asarray(want), "topics from %s" % what)
        elif op == "transform":
            got = tm.transform(X, persist_query_state=persist, **kw)
            models.seed_all(c, seed)
            ctx.equal(np.asarray(got), np.asarray(ref.transform(X, False, persist, iters)), "topics from %s" % what)
        elif op == "resume_fit":
            if ref.kept_for is not X:
                refused(ctx, "resuming a fit without its kept state", lambda: tm.fit(X, resume=True, persist_query_state=persist))
                accepted = False
            else:
                tm.fit(X, resume=True, persist_query_state=persist, **kw)
                if cvb:
                    ref.model, ref.kept = clone(tm._model_state), clone(tm.query_state_)
                    ref.kept_for = X if persist else None
                    ctx.check((ref.kept is not None) == persist, "state kept after a resumed fit: %s" % (ref.kept is not None))
                else:
                    models.seed_all(c, seed)
                    ref.fit(X, True, persist, iters)
                    ctx.label("resumed fit")
        elif op == "resume_transform":
            if ref.kept_for is not X:
                refused(ctx, "resuming a transform without its kept state",
                        lambda: tm.transform(X, resume=True, persist_query_state=persist))
                accepted = False
            else:
                got = tm.transform(X, resume=True, persist_query_state=persist, **kw)
                models.seed_all(c, seed)
                ctx.equal(np.asarray(got), np.asarray(ref.transform(X, True, persist, iters)), "topics from %s" % what)
                ctx.label("resumed transform")
        elif op == "score":
            got = tm.score(X, method=method if second else ScoreMethod.from_str(method))
            models.seed_all(c, seed)
            held, kept_for = clone(ref.kept), ref.kept_for
            y = ref.transform(X, False, False, None)
            ref.kept, ref.kept_for = held, kept_for
            ctx.close(got, tm.score(X, y_query_state=y_state(c, X, ref, seed), method=method), 1e-9, 1e-9, "score of %s" % what)
        elif op == "score_y":
            y = gen.dirichlet(seed, X.doc_count, c["K"])
            if c["kind"] == "lda_gibbs":
                refused(ctx, "scoring sampled topics given as y", lambda: tm.score(X, y=y, method=method))
            else:
                got = tm.score(X, y=y, method=method)
                ctx.finite(got, "score of %s" % what)
        elif op == "score_q" and ref.kept is not None:
            D = sets[0] if ref.kept_for is sets[0] else sets[1]
            ctx.finite(tm.score(D, y_query_state=tm.query_state_, method=method), "score of %s" % what)
        elif op == "copy":
            other = tm.copy()
            if persist and len(pairs) < 3:
                r = Reference(c)
                r.model, r.kept, r.kept_for = clone(ref.model), clone(ref.kept), ref.kept_for
                pairs.append((other, r))
                ctx.label("copied")
            compare(ctx, other, ref, what)
            for k, v in tm.get_params().items():
                if isinstance(v, np.ndarray):
                    ctx.equal(np.asarray(other.get_params()[k]), v, "parameter %s of the copy" % k)
                else:
                    ctx.equal(other.get_params()[k], v, "parameter %s of the copy" % k)
        elif op == "switch":
            now = (now + 1) % len(pairs)
        elif op == "bad_resume_fit":
            wrong = sets[1 - sets.index(ref.kept_for)] if ref.kept_for is not None else X
            refused(ctx, "resuming a fit with other data", lambda: tm.fit(wrong, resume=True))
        elif op == "bad_resume_transform":
            wrong = sets[1 - sets.index(ref.kept_for)] if ref.kept_for is not None else X
            refused(ctx, "resuming a transform with other data", lambda: tm.transform(wrong, resume=True))
        elif op == "bad_array_resume":
            refused(ctx, "resuming with a bare matrix", lambda: tm.transform(X.words, resume=True))
        elif op == "bad_both" and ref.model is not None:
            y = gen.dirichlet(seed, X.doc_count, c["K"])
            q = ref.kept if ref.kept is not None else ref.mod.newQueryState(X, ref.model)
            refused(ctx, "scoring with both y and a query state", lambda: tm.score(X, y=y, y_query_state=q, method=method))
        elif op == "bad_method":
            refused(ctx, "an unknown score method", lambda: tm.score(X, method="likelihood_of_nothing"))
        elif op == "bad_expect" and ref.model is not None:
            y = gen.dirichlet(seed, X.doc_count, c["K"])
            for name in ("log_likelihood_expectation", "perplexity_expectation"):
                refused(ctx, "an expected score of point topics", lambda: tm.score(X, y=y, method=name))
        elif op == "bad_fit" and c["kind"] in ("lda_vb_python", "mom_em", "mom_gibbs"):
            refused(ctx, "fitting documents without words", lambda: tm.fit(bad))
        else:
            accepted = False
        if op.startswith("bad_") or not accepted:
            now_ref = clone((ref.model, ref.kept))
            for a, b in zip(before, now_ref):
                if a is not None:
                    models.same(ctx, b, models.freeze(a), "HARNESS")
        else:
            done += 1
        compare(ctx, *pairs[now], what)
    for tm, ref in pairs:
        compare(ctx, tm, ref, "the whole history")
    ctx.nontrivial(done >= 3)


def y_state(c, X, ref, seed):
    models.seed_all(c, seed)
    q = ref.mod.newQueryState(X, ref.model)
    _, q = ref.mod.query(X, ref.model, q, ref.plan(ref.query_iters()))
    return q


@st.composite
def stretch(draw):
    c = draw(models.config(kinds=["lda_vb_python", "mom_em", "lda_gibbs", "mom_gibbs"], max_iters=5, single_log=True))
    c["more"] = draw(st.integers(1, 5))
    return c


@CHECK.sub(stretch(), quick=400, shards=4)
def training_in_two_stretches(c, ctx):
    """n iterations and then m more from the kept state are n + m iterations"""
    ctx.label(c["kind"])
    ctx.nontrivial()
    data = models.dataset(c)
    runs = []
    for parts in ([c["iters"], c["more"]], [c["iters"] + c["more"]]):
        models.seed_all(c)
        tm = TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], doc_topic_prior=models.prior(c),
                        topic_word_prior=c["beta"], iterations=1, thin=1, burn_in=0, seed=c["seed"])
        if c["kind"] == "lda_gibbs":
            need(models.lda_gibbs, "newTrainPlan")
            model = models.new_model(c, data)
            q = models.new_query(c, data, model)
            for n in parts:
                model, q = models.train(c, data, model, q, models.lda_gibbs.newTrainPlan(n, burnIn=0, thin=1))
            runs.append((np.array(q.z_list), np.array(q.z_list)))
        elif c["kind"] == "mom_gibbs":
            model = models.new_model(c, data)
            q = models.new_query(c, data, model)
            for n in parts:
                model, q = models.train(c, data, model, q, models.mom_gibbs.newTrainPlan(n, burnIn=0))
            runs.append((np.array(models.mom_gibbs.topicDists(q)), np.array(models.mom_gibbs.wordDists(model))))
        else:
            for i, n in enumerate(parts):
                tm.fit(data, iterations=n, resume=i > 0, persist_query_state=True)
            runs.append((np.array(models.module(c).topicDists(tm.query_state_)), np.array(tm.components_)))
    ctx.close(runs[0][0], runs[1][0], 1e-6, 1e-9, "topics after %d + %d iterations" % (c["iters"], c["more"]))
    ctx.close(runs[0][1], runs[1][1], 1e-6, 1e-9, "words after %d + %d iterations" % (c["iters"], c["more"]))


@st.composite
def queries(draw):
    c = draw(models.config(kinds=["lda_cvb0", "lda_cvb", "lda_vb_python", "mom_em", "lda_gibbs"], max_iters=4, f32=False, single_log=True))
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=1, max_d=4, min_t=T, max_t=T))
    c["n"], c["more"] = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return c


@CHECK.sub(queries(), quick=400, shards=4)
def transform_in_two_stretches(c, ctx):
    ctx.label(c["kind"])
    ctx.nontrivial()
    data, other = models.dataset(c), models.dataset(c, c["q"])
    tm = TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], doc_topic_prior=models.prior(c),
                    topic_word_prior=c["beta"], iterations=c["iters"], burn_in=1, thin=1, seed=c["seed"])
    tm.fit(data)
    outs = []
    for parts in ([c["n"], c["more"]], [c["n"] + c["more"]]):
        models.seed_all(c, 5)
        if c["kind"] == "lda_gibbs":
            q = models.new_query(c, other, tm._model_state)
            for n in parts:
                _, q = models.lda_gibbs.query(other, tm._model_state, q, models.lda_gibbs.newTrainPlan(n, burnIn=0, thin=1))
            outs.append(np.array(q.z_list, dtype=np.float64))
        else:
            for i, n in enumerate(parts):
                y = tm.transform(other, iterations=n, resume=i > 0, persist_query_state=True)
            outs.append(np.array(y))
    tol = 2e-4 if c["kind"] in ("lda_cvb0", "lda_cvb") else 1e-6     # single precision in the first two
    ctx.close(outs[0], outs[1], tol, tol / 1000, "topics after %d + %d query iterations" % (c["n"], c["more"]))
