"""C10: a model created from another is equal to it and shares nothing with it."""
import copy
import warnings

import numpy as np
import numpy.random as rd
from hypothesis import strategies as st

import gen
import models
import side
from pbt import Check, Discard
from sidetopics.model.sklearn import TopicModel

CHECK = Check("C10", "the copied model was trained first",
              ["fields are compared by value; a model whose trainer refuses the generated corpus is copied untrained"])


def arrays(x, path=""):
    """every array reachable from a model, with its path"""
    if isinstance(x, np.ndarray):
        yield path, x
    elif hasattr(x, "_fields"):
        for f in x._fields:
            yield from arrays(getattr(x, f), path + "." + f)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from arrays(v, "%s[%d]" % (path, i))


def equal(ctx, a, b, what):
    """b equals a in every field"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        ctx.check(isinstance(a, np.ndarray) and isinstance(b, np.ndarray), "%s: an array became %r" % (what, type(b)))
        ctx.check(a.dtype == b.dtype, "%s: type %s became %s" % (what, a.dtype, b.dtype))
        ctx.equal(b, a, what)
    elif hasattr(a, "_fields"):
        ctx.check(type(a).__name__ == type(b).__name__ and a._fields == b._fields, "%s: fields differ" % what)
        for f in a._fields:
            equal(ctx, getattr(a, f), getattr(b, f), "%s.%s" % (what, f))
    elif isinstance(a, (list, tuple)):
        ctx.check(len(a) == len(b), "%s: length" % what)
        for i in range(len(a)):
            equal(ctx, a[i], b[i], "%s[%d]" % (what, i))
    else:
        ctx.check(a is b or bool(a == b), lambda: "%s: %r became %r" % (what, a, b))


def scribble(x):
    for _, a in arrays(x):
        if a.flags.writeable and a.size:
            if a.dtype.kind == "f":
                a += 1.5
            else:
                a += a.dtype.type(1)


def independent(ctx, original, copied, what):
    was = copy.deepcopy(original)
    scribble(copied)
    equal(ctx, was, original, "%s after changing its copy" % what)


@st.composite
def trainer(draw):
    c = draw(models.config(max_iters=3, batch=True))
    c["train"] = draw(st.sampled_from([True, True, True, False]))
    if c["kind"] in models.BOOTSTRAP and draw(st.integers(0, 2)) == 0:
        c["beta"] = [draw(st.sampled_from([0.1, 0.6, 1.1, 2.0])) for _ in c["m"][0]]
    return c


@CHECK.sub(trainer(), quick=500, shards=4)
def trainers(c, ctx):
    ctx.label(c["kind"])
    ctx.nontrivial(c["train"])
    mod, data = models.module(c), models.dataset(c)
    models.seed_all(c)
    model = models.new_model(c, data)
    if c["train"]:
        model, _ = models.train(c, data, model, models.new_query(c, data, model))
    first = mod.newModelFromExisting(model)
    equal(ctx, model, first, c["kind"])
    # training the copy further leaves the original alone, and the other way round
    was = copy.deepcopy(model)
    q = models.new_query(c, data, first)
    models.seed_all(c, 3)
    trained, _ = models.train(c, data, first, q)
    equal(ctx, was, model, "the original after training its copy")
    second = mod.newModelFromExisting(model)
    was = copy.deepcopy(second)
    q = models.new_query(c, data, model)
    models.seed_all(c, 3)
    models.train(c, data, mod.newModelFromExisting(model), q)
    equal(ctx, was, second, "a copy after training another copy")
    independent(ctx, second, mod.newModelFromExisting(second), c["kind"])
    third = mod.newModelFromExisting(model)
    independent(ctx, third, model, "a copy of " + c["kind"])


SIDE = ["ctm", "ctm_bohning", "ctm_bohning_fast", "ctm_grad_arb", "stm_yv", "stm_yv_bohning", "stm_uv_vecy_bohning",
        "dmr", "lro_vb", "sim_based_rec", "mtm", "mtm2", "mtm3", "rtm", "lda_vb", "lda_svb", "self_lda_vb_python"]


@st.composite
def research(draw):
    c = draw(side.config(SIDE, max_d=5, max_iters=2))
    c["train"] = draw(st.booleans())
    return c


@CHECK.sub(research(), quick=500, shards=4)
def research_models(c, ctx):
    ctx.label(c["kind"])
    rd.seed(c["seed"] % 2 ** 31)
    mod = side.module(c)
    if not hasattr(mod, "newModelFromExisting"):
        raise Discard()
    with side.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = side.dataset(c)
        model = side.new_model(c, data)
        if c["train"]:
            try:
                keep = copy.deepcopy(model)
                model, _ = side.train(c, data, model, mod.newQueryState(data, model))
                ctx.nontrivial()
                ctx.label("trained " + c["kind"])
            except Exception:
                model = keep
        copied = mod.newModelFromExisting(model)
        equal(ctx, model, copied, c["kind"])
        independent(ctx, model, mod.newModelFromExisting(model), c["kind"])
        independent(ctx, copied, model, "a copy of " + c["kind"])


@st.composite
def estimator(draw):
    c = draw(models.config(max_iters=3, f32=False, batch=True))
    c.pop("wdtype", None)
    c["train"] = draw(st.sampled_from([True, True, False]))
    c["persist"] = draw(st.booleans())
    c["ops"] = draw(st.lists(st.sampled_from(["fit", "resume", "transform", "scribble"]), min_size=1, max_size=3))
    c["side"] = draw(st.booleans())
    return c


@CHECK.sub(estimator(), quick=300, shards=3)
def estimators(c, ctx):
    ctx.label(c["kind"])
    ctx.nontrivial(c["train"])
    data = models.dataset(c)
    tm = TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], doc_topic_prior=models.prior(c),
                    topic_word_prior=c["beta"], iterations=c["iters"], seed=c["seed"], **models.batch_plan(c))
    if c["train"]:
        tm.fit(data, persist_query_state=c["persist"])
    other = tm.copy()
    for k, v in tm.get_params().items():
        if isinstance(v, np.ndarray):
            ctx.equal(np.asarray(other.get_params()[k]), v, "parameter " + k)
        else:
            ctx.equal(other.get_params()[k], v, "parameter " + k)
    if not c["train"]:
        return
    equal(ctx, tm._model_state, other._model_state, "the copied estimator's model")
    if tm.query_state_ is None:
        ctx.check(other.query_state_ is None, "the copy has a query state")
    else:
        equal(ctx, tm.query_state_, other.query_state_, "the copied estimator's query state")
    changed, kept = (tm, other) if c["side"] else (other, tm)
    was = copy.deepcopy((kept._model_state, kept.query_state_))
    for op in c["ops"]:
        if op == "fit":
            changed.fit(data, persist_query_state=c["persist"])
        elif op == "transform":
            changed.transform(data, persist_query_state=c["persist"])
        elif op == "resume" and changed.query_state_ is not None:
            changed.transform(data, resume=True, persist_query_state=True)
        elif op == "scribble":
            scribble(changed._model_state)
            if changed.query_state_ is not None:
                scribble(changed.query_state_)
            break
    equal(ctx, was[0], kept._model_state, "the other estimator's model")
    if was[1] is not None:
        equal(ctx, was[1], kept.query_state_, "the other estimator's query state")
