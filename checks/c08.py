"""C08: the same seed, data and parameters give the same result, whatever happened before."""
import io
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st

import gen
import models
from pbt import Check
from sidetopics.model.sklearn import ScoreMethod, TopicModel

CHECK = Check("C08", "something random was done between the two runs",
              ["a run constructs the estimator, fits, transforms and scores before anything else draws random numbers"])


@st.composite
def case(draw):
    c = draw(models.config(max_iters=5, f32=False, batch=True))
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=1, max_d=4, min_t=T, max_t=T))
    c["qit"] = draw(st.sampled_from([None, 1, 3]))
    c["burn"] = draw(st.sampled_from([0, 2, -1]))
    c["steps"] = draw(st.lists(st.sampled_from(["fit", "refit", "resume", "transform", "again", "other", "score", "fit_transform"]),
                               min_size=1, max_size=4))
    c["noise"] = draw(st.lists(st.tuples(st.sampled_from(["numpy", "crand", "shuffle", "seed", "interleave"] + models.KINDS),
                                         st.integers(0, 50)), min_size=0, max_size=3))
    c["clone"] = draw(st.booleans())
    return c


def estimator(c, seed=None):
    return TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], doc_topic_prior=models.prior(c),
                      topic_word_prior=c["beta"], iterations=c["iters"], query_iterations=c["qit"], burn_in=c["burn"],
                      log_frequency=c["log"], seed=c["seed"] if seed is None else seed, **models.batch_plan(c))


def run(c, data, other, tm=None, seed=None):
    out = []
    tm = tm or estimator(c, seed)
    tm.fit(data, persist_query_state=True)
    out.append(np.array(tm.components_))
    kept = data
    for s in c["steps"]:
        if s in ("fit", "refit"):
            tm.fit(data, persist_query_state=True)
            kept = data
        elif s == "resume" and kept is data and c["kind"] not in ("lda_cvb", "lda_cvb0"):
            tm.fit(data, resume=True, persist_query_state=True)
        elif s == "transform":
            out.append(np.array(tm.transform(data, persist_query_state=True)))
            kept = data
        elif s == "again":
            out.append(np.array(tm.transform(kept, resume=True, persist_query_state=True)))
        elif s == "other":
            out.append(np.array(tm.transform(other, persist_query_state=True)))
            kept = other
        elif s == "score":
            out.append(np.array([tm.score(data, method=ScoreMethod.LogLikelihoodPoint)]))
        else:
            out.append(np.array(tm.fit_transform(data)))
            tm.transform(data, persist_query_state=True)
            kept = data
        out.append(np.array(tm.components_))
    out.append(np.array(tm.transform(other)))
    out.append(np.array([tm.score(other), tm.score(other, method=ScoreMethod.PerplexityPoint)]))
    return out


def disturb(c, noise, data):
    for what, n in noise:
        if what == "numpy":
            np.random.rand(n + 1)
        elif what == "seed":
            np.random.seed(n)
        elif what == "crand":
            models.lda_gibbs.seed_rng(n)
        elif what == "shuffle":
            data.copy().cross_valid_split(0, 2) if data.doc_count > 1 else np.random.permutation(n + 1)
        elif what == "interleave":
            np.random.dirichlet(np.ones(3), size=n + 1)
        else:
            d = dict(c, kind=what, dtype="float64", alpha=None, scale=20)
            q = models.dataset(d)
            tm = TopicModel(kind=models.TYPE_NAMES[what], n_components=2, iterations=2, seed=n)
            tm.fit(q)
            tm.transform(q)


def same(ctx, a, b, what):
    ctx.check(len(a) == len(b), "different number of results")
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.check(x.dtype == y.dtype, "%s: result %d has another type" % (what, i))
        ctx.equal(y, x, "%s: result %d" % (what, i))


@CHECK.sub(case(), quick=700, shards=8)
def repeated(c, ctx):
    data, other = models.dataset(c), models.dataset(c, c["q"])
    ctx.nontrivial(len(c["noise"]) > 0)
    ctx.label(c["kind"])
    with redirect_stdout(io.StringIO()):
        tm = estimator(c)
        params = tm.get_params()
        first = run(c, data, other, tm)
        disturb(c, c["noise"], models.dataset(c))
        second = run(c, data, other)
        same(ctx, first, second, "second run")
        disturb(c, c["noise"][:1], models.dataset(c))
        if c["clone"]:
            same(ctx, first, run(c, models.dataset(c), models.dataset(c, c["q"]), TopicModel(**params)),
                 "run of an estimator with the parameters of the first, on equal data")


@st.composite
def seeded(draw):
    c = draw(models.config(max_iters=3, f32=False, min_d=2))
    c["seeds"] = draw(st.lists(gen.seeds, min_size=6, max_size=6, unique=True))
    c["qit"], c["burn"], c["steps"], c["log"] = 1, 0, [], 0
    return c


@CHECK.sub(seeded(), quick=240, shards=4)
def seeds(c, ctx):
    """six seeds do not all lead to one and the same model"""
    if np.sum(c["m"]) < 6 or (np.sum(c["m"], axis=1) < 2).any():
        c["m"] = (np.array(c["m"]) + 1).tolist()
    data = models.dataset(c)
    ctx.nontrivial()
    ctx.label(c["kind"])
    with redirect_stdout(io.StringIO()):
        outs = []
        for s in c["seeds"]:
            tm = estimator(c, s)
            th = np.array(tm.fit(data, persist_query_state=True).components_)
            outs.append((th, np.array(tm.query_state_.z_list) if c["kind"] == "lda_gibbs" else th))
    ctx.check(any(not (np.array_equal(o[0], outs[0][0]) and np.array_equal(o[1], outs[0][1])) for o in outs[1:]),
              "six different seeds gave the same model")
