"""C01: every distribution a trainer or an estimator reports is one."""
import numpy as np
from hypothesis import strategies as st

import gen
import models
from pbt import Check

CHECK = Check("C01", "at least two documents, or two iterations, and more than one distinct word",
              ["documents have at least one word (trainers refuse others)",
               "single-precision results: entries may sum to one within 2e-4"])


@st.composite
def direct(draw):
    c = draw(models.config(batch=True))
    ops = draw(st.lists(st.sampled_from(["train", "train_new", "query", "query_other", "requery"]), min_size=0, max_size=4))
    c["ops"] = ["train"] + ops
    c["other"] = draw(gen.counts(min_d=1, max_d=4, min_t=len(c["m"][0]), max_t=len(c["m"][0])))
    return c


def check_model(c, ctx, model, step):
    mod = models.module(c)
    W = len(c["m"][0])
    phi = np.asarray(mod.wordDists(model))
    ctx.equal(phi.shape, (c["K"], W), "shape of the topics after %s" % step)
    ctx.distribution(phi, "word distribution after %s" % step, tol=models.tol(c))
    if hasattr(mod, "corpusTopicDist"):
        th = np.asarray(mod.corpusTopicDist(model))
        ctx.equal(th.shape, (c["K"],), "shape of the corpus topics")
        ctx.distribution(th, "corpus topics after %s" % step, tol=models.tol(c))


def check_query(c, ctx, query, D, step):
    th = np.asarray(models.module(c).topicDists(query))
    ctx.equal(th.shape, (D, c["K"]), "shape of the topic assignments after %s" % step)
    ctx.distribution(th, "topic distribution after %s" % step, tol=models.tol(c))


@CHECK.sub(direct(), quick=1600, shards=6)
def trainers(c, ctx):
    models.seed_all(c)
    data, other = models.dataset(c), models.dataset(c, c["other"])
    mod = models.module(c)
    ctx.nontrivial((len(c["m"]) > 1 or c["iters"] > 1) and sum(1 for t in zip(*c["m"]) if any(t)) > 1)
    ctx.label(c["kind"])
    ctx.label("mini-batches", "batch" in c)
    ctx.label("one document", len(c["m"]) == 1)
    ctx.label("word that never occurs", any(not any(t) for t in zip(*c["m"])))
    model = models.new_model(c, data)
    query = models.new_query(c, data, model)
    last = None
    for op in c["ops"]:
        if op in ("train", "train_new"):
            if op == "train_new" or (c["kind"] in ("lda_cvb", "lda_cvb0") and model.n_kt is not None):
                query = models.new_query(c, data, model)
            model, query = models.train(c, data, model, query)
            check_query(c, ctx, query, len(c["m"]), op)
        elif op == "requery" and last is not None:
            _, last = mod.query(other, model, last, models.plan(c))
            check_query(c, ctx, last, len(c["other"]), op)
        else:
            d = other if op == "query_other" else data
            q = models.new_query(c, d, model)
            m2, q = mod.query(d, model, q, models.plan(c))
            check_model(c, ctx, m2, op)
            check_query(c, ctx, q, d.doc_count, op)
            if op == "query_other":
                last = q
        check_model(c, ctx, model, op)


@st.composite
def estimator(draw):
    c = draw(models.config(vector_prior=True, f32=False, batch=True))
    c.pop("wdtype", None)
    c["ops"] = draw(st.lists(st.sampled_from(["fit", "resume", "fit_transform", "transform", "other", "again"]),
                             min_size=1, max_size=4))
    c["other"] = draw(gen.counts(min_d=1, max_d=4, min_t=len(c["m"][0]), max_t=len(c["m"][0])))
    c["qiters"] = draw(st.sampled_from([None, 1, 3]))
    c["burn"] = draw(st.sampled_from([-1, 0, 2]))
    return c


@CHECK.sub(estimator(), quick=900, shards=6)
def estimators(c, ctx):
    from sidetopics.model.sklearn import TopicModel
    data, other = models.dataset(c), models.dataset(c, c["other"])
    ctx.nontrivial(len(c["m"]) > 1 or c["iters"] > 1)
    ctx.label(c["kind"])
    tm = TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], doc_topic_prior=models.prior(c),
                    topic_word_prior=c["beta"], iterations=c["iters"], query_iterations=c["qiters"],
                    burn_in=c["burn"], seed=c["seed"], **models.batch_plan(c))
    cc = dict(c)
    if c["kind"] in ("lda_cvb", "lda_cvb0"):
        cc["dtype"] = "float32"          # what the estimator uses
    fitted = False
    kept = False

    def assignments(th, D, step):
        ctx.equal(np.asarray(th).shape, (D, c["K"]), "shape after %s" % step)
        ctx.distribution(th, "topics after %s" % step, tol=models.tol(cc))

    for op in c["ops"]:
        if op == "resume" and not (kept and c["kind"] not in ("lda_cvb", "lda_cvb0")):
            op = "fit"
        if op in ("transform", "other", "again") and not fitted:
            op = "fit"
        if op == "again" and not kept:
            op = "transform"
        if op == "fit":
            ctx.check(tm.fit(data, persist_query_state=True) is tm, "fit returns another object")
            fitted = kept = True
        elif op == "resume":
            tm.fit(data, resume=True, persist_query_state=True)
        elif op == "fit_transform":
            assignments(tm.fit_transform(data), len(c["m"]), op)
            fitted, kept = True, False
        elif op == "transform":
            assignments(tm.transform(data, persist_query_state=True), len(c["m"]), op)
            kept = True
        elif op == "again":
            assignments(tm.transform(data, resume=True, persist_query_state=True), len(c["m"]), op)
        elif op == "other":
            assignments(tm.transform(other), len(c["other"]), op)
            kept = False
        ctx.equal(np.asarray(tm.components_).shape, (c["K"], len(c["m"][0])), "shape of the components")
        ctx.distribution(tm.components_, "components after %s" % op, tol=models.tol(cc))
