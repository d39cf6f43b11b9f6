"""A uniform view of the topic-model trainers, and generators of corpora and configurations."""
import numpy as np
import numpy.random as rd
from hypothesis import strategies as st

import gen
from sidetopics.model import lda_cvb, lda_cvb0, lda_gibbs, lda_vb_python, mom_em, mom_gibbs
from sidetopics.model.common import DataSet

MODULES = {"lda_cvb": lda_cvb, "lda_cvb0": lda_cvb0, "lda_gibbs": lda_gibbs,
           "lda_vb_python": lda_vb_python, "mom_em": mom_em, "mom_gibbs": mom_gibbs}
KINDS = ["lda_cvb0", "lda_cvb", "lda_vb_python", "lda_gibbs", "mom_em", "mom_gibbs"]
TYPE_NAMES = {"lda_cvb": "LDA_CVB", "lda_cvb0": "LDA_CVB0", "lda_gibbs": "LDA_GIBBS",
              "lda_vb_python": "LDA_VB_PYTHON_IMPL", "mom_em": "MOM_VB", "mom_gibbs": "MOM_GIBBS"}
MIXTURES = ("mom_em", "mom_gibbs")
SAMPLERS = ("lda_gibbs", "mom_gibbs")
# trainers whose initial model is made of sampled documents: slow when documents are short
BOOTSTRAP = ("lda_vb_python", "mom_em", "mom_gibbs")


@st.composite
def config(draw, kinds=KINDS, max_d=6, max_t=8, max_k=4, max_iters=6, vector_prior=True, f32=True,
           empty_cols=True, scale=True, min_d=1, single_log=False, wide=130, batch=False):
    kind = draw(st.sampled_from(kinds))
    m = draw(gen.counts(min_d=min_d, max_d=max_d, min_t=2, max_t=max_t, empty_cols=empty_cols,
                        empty_rows=False, wide=wide))
    K = draw(st.integers(2, max_k))
    if wide and gen.rare(draw):        # the kinds left out take seconds to draw so many topics
        K = draw(st.sampled_from([9, 5, 7] if kind in BOOTSTRAP else [9, 5, 17, 33, 65]))
    prior = draw(st.sampled_from(["none", "scalar", "vector"] if vector_prior else ["scalar", "none"]))
    alpha = None if prior == "none" else \
        draw(st.sampled_from([0.1, 0.5, 1.0, 1.7, 5.0])) if prior == "scalar" else \
        [draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 4.0])) for _ in range(K)]
    c = {"kind": kind, "m": m, "K": K, "alpha": alpha,
         "beta": draw(st.sampled_from([None, 0.01, 0.1, 0.6, 1.1, 3.0])),
         "iters": draw(st.integers(1, max_iters)), "seed": draw(gen.seeds),
         "log": draw(st.sampled_from([0] if single_log else [0, 0, 1, 2, 3]))}
    if draw(st.integers(0, 4)) == 4:
        c["debug"] = True
    if kind in BOOTSTRAP and scale:
        c["scale"] = draw(st.sampled_from([10, 1, 40]))
    if kind == "lda_vb_python" and batch and draw(st.booleans()):
        c["batch"] = draw(st.sampled_from([1, 2, 3, len(m), len(m) + 2]))      # mini-batches, with falling steps
        c["delay"], c["forget"] = draw(st.sampled_from([0.6, 1.0, 3.5])), draw(st.sampled_from([0.6, 0.0, 1.0]))
    if kind in ("lda_cvb", "lda_cvb0"):
        c["dtype"] = draw(st.sampled_from(["float64", "float32"])) if f32 else "float64"
        c["wdtype"] = draw(st.sampled_from(["float64", "float32", "int32"]))
    if wide and gen.rare(draw) and len(m) * len(m[0]) * K < 1500 and kind != "lda_cvb" and c.get("dtype") != "float32":
        # more segments and sweeps than the rest (in the models left out, a last bit may grow to much more)
        c["iters"] = draw(st.sampled_from([17, 12, 33, 48]))
    return c


def dtype(c):
    return np.dtype(c.get("dtype", "float64")).type


def matrix(c, m=None):
    return gen.csr(np.array(c["m"] if m is None else m, dtype=np.float64) * c.get("scale", 1),
                   np.dtype(c.get("wdtype", "float64")))


def dataset(c, m=None):
    return DataSet(matrix(c, m))


def module(c):
    return MODULES[c["kind"]]


def prior(c):
    a = c["alpha"]
    return np.array(a, dtype=dtype(c)) if isinstance(a, list) else a


def alpha_vector(c, model):
    """the topic prior as a vector, as the model itself would read it"""
    a = model.topicPrior
    return np.ones(model.K) * float(a) if np.ndim(a) == 0 else np.array(a, dtype=np.float64)


def new_model(c, data):
    return module(c).newModelAtRandom(data, c["K"], topicPrior=prior(c), dtype=dtype(c),
                                      vocabPrior=np.array(c["beta"]) if isinstance(c["beta"], list) else c["beta"])


def new_query(c, data, model):
    return module(c).newQueryState(data, model)


def plan(c, iters=None, log=None, **kw):
    iters = c["iters"] if iters is None else iters
    log = c.get("log", 0) if log is None else log
    kw.setdefault("debug", bool(c.get("debug")))
    if c["kind"] == "lda_gibbs":
        kw.setdefault("burnIn", iters // 2)
        kw.setdefault("thin", 1)
        return lda_gibbs.newTrainPlan(iters, **kw)
    return module(c).newTrainPlan(iterations=iters, logFrequency=log, **batch_plan(c), **kw)


def batch_plan(c):
    """the parameters, of plans and estimators alike, that ask for mini-batches"""
    if not c.get("batch"):
        return {}
    return {"batchSize": c["batch"], "rate_delay": c["delay"], "forgetting_rate": c["forget"]}


def seed_all(c, seed=None):
    seed = c["seed"] if seed is None else seed
    rd.seed(seed % 2 ** 32)
    if c["kind"] == "lda_gibbs":
        lda_gibbs.seed_rng(seed % 2 ** 31)


def train(c, data, model, query, pl=None):
    r = module(c).train(data, model, query, pl or plan(c))
    return r[0], r[1]


def tol(c):
    return 2e-4 if dtype(c) == np.float32 else 1e-8


def freeze(x):
    """A deep copy of a named tuple of arrays and scalars."""
    if x is None:
        return None
    return {f: (np.array(getattr(x, f)) if isinstance(getattr(x, f), np.ndarray) else getattr(x, f))
            for f in x._fields}


def same(ctx, x, frozen, what, skip=()):
    for f in x._fields:
        if f in skip:
            continue
        a, b = getattr(x, f), frozen[f]
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            ctx.equal(np.asarray(a), np.asarray(b), "%s.%s" % (what, f))
        else:
            ctx.check(a == b or a is b, lambda: "%s.%s: %r, expected %r" % (what, f, a, b))


def freeze_csr(w):
    return w.data.copy(), w.indices.copy(), w.indptr.copy()


def same_csr(ctx, w, frozen, what="the word counts given"):
    for a, b in zip((w.data, w.indices, w.indptr), frozen):
        ctx.equal(a, b, what)
