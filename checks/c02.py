"""C02: queries and scores leave the model, earlier results and the caller's data alone."""
import numpy as np
import numpy.random as rd
from hypothesis import strategies as st

import gen
import models
from pbt import Check

CHECK = Check("C02", "at least two operations after training",
              ["a query state handed to a direct query call is that call's own working state and may change",
               "documents have at least one word"])

LIKES = {"lda_cvb": ["log_likelihood", "var_bound"], "lda_cvb0": ["log_likelihood_point", "log_likelihood_expected"],
         "lda_gibbs": ["log_likelihood"], "lda_vb_python": ["log_likelihood", "var_bound"],
         "mom_em": ["log_likelihood_point", "var_bound"], "mom_gibbs": ["log_likelihood_point", "var_bound"]}


@st.composite
def direct(draw):
    c = draw(models.config(max_iters=4, batch=True))
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(["query", "like", "bound", "words", "topics", "again"]),
                                       st.booleans()), min_size=1, max_size=6))
    c["other"] = draw(gen.counts(min_d=1, max_d=4, min_t=len(c["m"][0]), max_t=len(c["m"][0])))
    return c


@CHECK.sub(direct(), quick=1400, shards=6)
def trainers(c, ctx):
    models.seed_all(c)
    mod = models.module(c)
    data, other = models.dataset(c), models.dataset(c, c["other"])
    ctx.nontrivial(len(c["ops"]) > 1)
    ctx.label(c["kind"])
    model = models.new_model(c, data)
    q0 = models.new_query(c, data, model)
    frozen_data = [models.freeze_csr(data.words), models.freeze_csr(other.words)]
    model, q0 = models.train(c, data, model, q0)
    frozen = models.freeze(model)
    states = [(data, q0, models.freeze(q0))]
    first = {}

    def unchanged(what):
        models.same(ctx, model, frozen, "model after %s" % what)
        for i, (_, q, f) in enumerate(states):
            models.same(ctx, q, f, "query state %d after %s" % (i, what))
        for d, f in zip((data, other), frozen_data):
            models.same_csr(ctx, d.words, f, "word counts after %s" % what)

    unchanged("training")
    for op, use_other in c["ops"]:
        d = other if use_other else data
        if op in ("query", "again"):
            models.seed_all(c, 77)
            q = models.new_query(c, d, model)
            _, q = mod.query(d, model, q, models.plan(c))
            got = np.array(mod.topicDists(q))
            if use_other in first:
                ctx.equal(got, first[use_other], "the same query, repeated")
            first.setdefault(use_other, got)
            states.append((d, q, models.freeze(q)))
        elif op in ("like", "bound"):
            names = LIKES[c["kind"]]
            fn = getattr(mod, names[0] if op == "like" or len(names) == 1 else names[1], None)
            if fn is None:
                continue
            dd, q, _ = next(s for s in reversed(states) if s[0] is d or s[0] is data)
            a = fn(dd, model, q)
            b = fn(dd, model, q)
            ctx.equal(np.asarray(a), np.asarray(b), "a likelihood evaluated twice")
        elif op == "words":
            w = mod.wordDists(model)
            w *= 0.5         # the caller's own array
        elif op == "topics":
            mod.topicDists(states[-1][1])
        unchanged(op)


METHODS = ["log_likelihood_point", "perplexity_point", "doc_completion_log_likelihood_point",
           "doc_completion_perplexity_point"]


@st.composite
def estimator(draw):
    c = draw(models.config(max_iters=4, f32=False, batch=True))
    c.pop("wdtype", None)
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(["transform", "score", "score_y", "score_q", "components", "persist", "resume", "resume", "fit"]),
                                       st.booleans(), st.sampled_from(METHODS)), min_size=1, max_size=6))
    c["other"] = draw(gen.counts(min_d=1, max_d=4, min_t=len(c["m"][0]), max_t=len(c["m"][0])))
    c["array"] = draw(st.booleans())
    return c


@CHECK.sub(estimator(), quick=900, shards=6)
def estimators(c, ctx):
    from sidetopics.model.sklearn import TopicModel
    mod = models.module(c)
    data, other = models.dataset(c), models.dataset(c, c["other"])
    ctx.nontrivial(len(c["ops"]) > 1)
    ctx.label(c["kind"])
    tm = TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], doc_topic_prior=models.prior(c),
                    topic_word_prior=c["beta"], iterations=c["iters"], query_iterations=2, seed=c["seed"],
                    **models.batch_plan(c))
    tm.fit(data, persist_query_state=True)
    frozen = models.freeze(tm._model_state)
    frozen_data = [models.freeze_csr(data.words), models.freeze_csr(other.words)]
    comps = np.array(tm.components_)
    kept, kept_frozen = tm.query_state_, models.freeze(tm.query_state_)
    outs = []
    for op, use_other, method in c["ops"]:
        d = other if use_other else data
        try:
            if op == "transform":
                y = tm.transform(d)
                outs.append((y, y.copy()))
            elif op == "persist":
                y = tm.transform(d, persist_query_state=True)
                outs.append((y, y.copy()))
                kept, kept_frozen = tm.query_state_, models.freeze(tm.query_state_)
            elif op == "resume":
                if tm._last_X is None:
                    continue
                keep = use_other
                y = tm.transform(tm._last_X, resume=True, persist_query_state=keep)
                outs.append((y, y.copy()))
                kept = tm.query_state_ if keep else None
                kept_frozen = models.freeze(kept)
            elif op == "fit":        # the model of the queries that follow
                tm.fit(data, persist_query_state=True, resume=use_other and tm._last_X is data)
                frozen, comps = models.freeze(tm._model_state), np.array(tm.components_)
                kept, kept_frozen = tm.query_state_, models.freeze(tm.query_state_)
            elif op == "score":
                arg = d
                if c["array"] and "doc_comp" not in method:
                    arg = d.words
                tm.score(arg, method=method)
            elif op == "score_y" and c["kind"] != "lda_gibbs":
                y = gen.dirichlet(c["seed"], d.doc_count, c["K"]).astype(comps.dtype)
                was = y.copy()
                tm.score(d, y=y, method=method)
                ctx.equal(y, was, "the assignments given to score")
            elif op == "score_q" and kept is not None and len(kept.docLens) == d.doc_count:
                tm.score(d, y_query_state=kept, method=method)
            elif op == "components":
                w = tm.components_
                w *= 0.5
        except ValueError as e:
            if "doc_comp" not in method or "no words" not in str(e):
                raise
        models.same(ctx, tm._model_state, frozen, "model after %s" % op)
        ctx.equal(np.asarray(tm.components_), comps, "components after %s" % op)
        for w, f in zip((data, other), frozen_data):
            models.same_csr(ctx, w.words, f, "word counts after %s" % op)
        for y, was in outs:
            ctx.equal(y, was, "assignments returned earlier, after %s" % op)
        if kept is not None:
            models.same(ctx, kept, kept_frozen, "persisted query state after %s" % op)
        if op == "transform":
            kept = None       # documented: dropped unless asked to keep it
        elif op not in ("transform", "persist"):
            ctx.check(tm.query_state_ is kept, "the persisted query state was replaced by %s" % op)
