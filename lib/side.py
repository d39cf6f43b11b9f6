"""The research trainers outside the estimator interface: how to build data and models for each."""
import contextlib
import importlib
import io

import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import gen
from sidetopics.model.common import DataSet

# name -> (needs features, needs links, dtypes that work, word dtype override)
SPECS = {
    "ctm": (False, False, ["float64", "float32"], None),
    "ctm_bohning": (False, False, ["float64", "float32"], None),
    "ctm_bohning_fast": (False, False, ["float64", "float32"], None),
    "ctm_grad_arb": (False, False, ["float64", "float32"], None),
    "stm_yv": (True, False, ["float64"], None),
    "stm_yv_bohning": (True, False, ["float64"], None),
    "stm_uv_vecy_bohning": (True, False, ["float64"], None),
    "dmr": (True, False, ["float64"], "uint16"),
    "lro_vb": (False, True, ["float64"], None),
    "sim_based_rec": (False, True, ["float64"], None),
    "mtm": (False, True, ["float64"], None),
    "mtm2": (False, True, ["float64"], None),
    "mtm3": (False, True, ["float64"], None),
    "rtm": (False, True, ["float64"], None),
    "self_lda_vb_python": (False, False, ["float64"], None),
    "lda_vb": (False, False, ["float32"], None),
    "lda_svb": (False, False, ["float32"], None),
}


@st.composite
def config(draw, names, min_d=2, max_d=7, max_t=8, max_k=4, max_iters=6, scale=False, wide=33):
    name = draw(st.sampled_from(names))
    feats, links, dtypes, _ = SPECS[name]
    m = draw(gen.counts(min_d=min_d, max_d=max_d, min_t=2, max_t=max_t, wide=wide))
    D = len(m)
    c = {"kind": name, "m": m, "K": draw(st.integers(2, max_k)) if not gen.rare(draw) else 7, "seed": draw(gen.seeds),
         "iters": draw(st.integers(1, max_iters)), "log": draw(st.sampled_from([1, 2, 3])),
         "dtype": draw(st.sampled_from(dtypes)), "beta": draw(st.sampled_from([None, 0.1, 1.1, 0.01])),
         "var": draw(st.sampled_from([1.0, 0.1, 5.0])), "P": draw(st.integers(1, 3)),
         "scale": draw(st.sampled_from([10, 1, 40]))}
    if feats:
        F = draw(st.integers(1, 4))
        x = draw(gen.table(D, F, [0, 1, 0, 1, 1, 0, 2, 0, 1, 0, 1, 0, 1, 3, 0, 1]))
        for row in x:
            row[0] = 1
        c["x"] = x
    if links:
        c["l"] = draw(gen.table(D, D, [0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 0]))
    return c


def dataset(c, m=None, x=None, l=None):
    spec = SPECS[c["kind"]]
    dt = np.dtype(spec[3] or c["dtype"])
    words = ssp.csr_matrix((np.array(c["m"] if m is None else m, dtype=np.float64) * c.get("scale", 1)).astype(dt))
    x = c.get("x") if x is None else x
    l = c.get("l") if l is None else l
    feats = None if x is None else ssp.csr_matrix(np.array(x, dtype=c["dtype"]))
    links = None if l is None else ssp.csr_matrix(np.array(l, dtype=c["dtype"]))
    return DataSet(words, feats, links)


def module(c):
    return importlib.import_module("sidetopics.model." + c["kind"])


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def new_model(c, data):
    mod, dt = module(c), np.dtype(c["dtype"]).type
    k = c["kind"]
    if k in ("stm_yv", "stm_yv_bohning", "stm_uv_vecy_bohning"):
        return mod.newModelAtRandom(data, c["P"], c["K"], c["var"], c["var"], vocabPrior=c["beta"] or mod.VocabPrior, dtype=dt)
    if k == "mtm":
        return mod.newModelAtRandom(data, c["K"], min(c["P"], c["K"] - 1), dtype=dt)
    if k in ("dmr", "rtm", "self_lda_vb_python", "lda_vb", "lda_svb"):
        return mod.newModelAtRandom(data, c["K"], dtype=dt)
    if k in ("mtm2", "mtm3", "lro_vb", "sim_based_rec"):
        return mod.newModelAtRandom(data, c["K"], dtype=dt)
    return mod.newModelAtRandom(data, c["K"], vocabPrior=c["beta"] or mod.VocabPrior, dtype=dt)


def plan(c, iters=None, log=None):
    mod = module(c)
    iters = iters or c["iters"]
    if c["kind"] == "dmr":
        return mod.newTrainPlan(iters * 4, burnIn=2, thin=2, weightUpdateInterval=4)
    return mod.newTrainPlan(iters, logFrequency=c["log"] if log is None else log)


def train(c, data, model, query, pl=None):
    r = module(c).train(data, model, query, pl or plan(c))
    return r[0], r[1]
