"""C27: the link predictors report exactly the candidates that reach a document's minimum, with their scores."""
import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st
from scipy.stats import norm

import gen
import side
from pbt import Check
from sidetopics.model import lda_vb_python, lro_vb, mtm3, rtm, sim_based_rec
from sidetopics.model.common import DataSet

CHECK = Check("C27", "a document has a known link and a candidate below the lowest of its known links",
              ["a score within rounding (1e-8, or 1e-5 relative in single precision) of the minimum may be reported or not, "
               "unless it belongs to a known link",
               "RTM predicts links among the documents of one set; the others from query documents to training documents"])

KINDS = ["tfidf", "sim_lda", "lro", "rtm", "mtm3"]
SQRT2 = np.sqrt(2.0)


@st.composite
def states(draw):
    kind = draw(st.sampled_from(KINDS))
    D, K = draw(st.integers(1, 7)), draw(st.integers(2, 4))
    Q = D if kind == "rtm" else draw(st.integers(1, 5))
    c = {"kind": kind, "D": D, "Q": Q, "K": K, "seed": draw(gen.seeds), "conc": draw(st.sampled_from([0.7, 0.05, 5.0])),
         "twins": draw(st.lists(st.tuples(st.integers(0, Q - 1), st.integers(0, D - 1)), max_size=2)),
         "links": draw(gen.table(Q, D, [0, 1, 0, 0, 1, 0, 0, 2, 0, 0, 0, 1, 0, 1, 0, 0])),
         "subset": draw(st.one_of(st.none(), st.lists(st.integers(0, Q - 1), min_size=1, max_size=6))),
         "min": draw(st.sampled_from(["known", "known", "known", "score", "low", "high"])),
         "dt": "float64" if kind in ("rtm", "mtm3") else draw(st.sampled_from(["float64", "float32"])),
         "spread": draw(st.sampled_from([1.0, 5.0, 0.01]))}
    if kind == "rtm":
        c["subset"] = None
    if kind == "tfidf":
        T = draw(st.integers(2, 6))
        c["m"], c["q"] = (draw(gen.counts(min_d=n, max_d=n, min_t=T, max_t=T, empty_rows=True)) for n in (D, Q))
        c["wt"] = draw(st.sampled_from(["float64", "float32", "int32"]))
    return c


def build(c):
    """model, train state, query state, and the matrix of scores under them"""
    rng = np.random.RandomState(c["seed"] % 2 ** 31)
    dt = np.dtype(c["dt"]).type
    D, Q, K = c["D"], c["Q"], c["K"]
    theta = gen.dirichlet(c["seed"] % 10 ** 6, D, K, c["conc"])
    other = gen.dirichlet(c["seed"] % 10 ** 6 + 1, Q, K, c["conc"])
    for q, d in c["twins"]:
        other[q] = theta[d]
    if c["kind"] == "tfidf":
        model = sim_based_rec.ModelState(lda_vb_python.ModelState(*[K if f == "K" else None for f in lda_vb_python.ModelState._fields]),
                                         K, sim_based_rec.TF_IDF, dt, "sim/tfidf")
        plan = sim_based_rec.newTrainPlan(1)
        empty = sim_based_rec.QueryState(None, None)
        links = ssp.csr_matrix((D, D))
        with np.errstate(divide="ignore"):
            model, train, _ = sim_based_rec.train(DataSet(gen.csr(c["m"], c["wt"]), links=links), model, empty, plan)
            _, query = sim_based_rec.query(DataSet(gen.csr(c["q"], c["wt"])), model, empty, plan)
        a, b = np.asarray(query.reps.todense(), dtype=float), np.asarray(train.reps.todense(), dtype=float)
        n = np.sqrt((a * a).sum(axis=1))[:, None] * np.sqrt((b * b).sum(axis=1))[None, :]
        scores = np.where(n > 0, (a @ b.T) / np.where(n > 0, n, 1), 0)
        return sim_based_rec, model, train, query, scores
    if c["kind"] == "sim_lda":
        model = sim_based_rec.ModelState(None, K, sim_based_rec.LDA, dt, "sim/lda")
        a, b = np.sqrt(other), np.sqrt(theta)
        dist = np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(axis=2))
        return sim_based_rec, model, sim_based_rec.QueryState(b, None), sim_based_rec.QueryState(a, None), SQRT2 / np.maximum(dist, 1e-30)
    if c["kind"] == "lro":
        scale = float(rng.choice([1.0, 0.3, -0.5, 4.0]))
        model = lro_vb.ModelState(None, K, 9, np.array([0.01, 1]), scale, dt, "lro/vb")
        lens = rng.randint(1, 30, Q).astype(float)
        lda = lda_vb_python.QueryState(lens, other * (lens + 2.0)[:, None], True)
        offs = theta + rng.randn(D, K) * c["spread"]
        return lro_vb, model, lro_vb.QueryState(None, offs), lro_vb.QueryState(lda, None), scale * (other @ offs.T)
    if c["kind"] == "mtm3":
        fields = dict.fromkeys(mtm3.ModelState._fields)
        fields.update(K=K, dtype=dt)
        model = mtm3.ModelState(**fields)
        out, in_ = rng.randn(Q, K) * c["spread"], rng.randn(D, K) * c["spread"]

        def state(out, in_):
            f = dict.fromkeys(mtm3.QueryState._fields)
            f.update(outMeans=out, inMeans=in_)
            return mtm3.QueryState(**f)
        p = np.exp(out - out.max(axis=1, keepdims=True))
        p /= p.sum(axis=1, keepdims=True)
        r = np.exp(in_ - in_.max(axis=0))
        r /= r.sum(axis=0)
        return mtm3, model, state(rng.randn(D, K), in_), state(out, rng.randn(Q, K)), p @ r.T
    fields = dict.fromkeys(rtm.ModelState._fields)
    prior = np.append(rng.choice([0.1, 0.5, 1.0, 5.0], K), 0.0)
    w = rng.randn(K + 1) * 3 * c["spread"]
    fields.update(K=K, topicPrior=prior, weights=w, dtype=dt)
    model = rtm.ModelState(**fields)
    lens = rng.randint(1, 40, D).astype(float)
    means = np.hstack([theta, np.ones((D, 1))])
    q = rtm.QueryState(lens, means * lens[:, None] + prior[None, :])
    real = (q.topicDists - prior) / lens[:, None]
    return rtm, model, q, q, norm.cdf((real * w) @ real.T)


def copies(state):
    return {f: (getattr(state, f).copy() if hasattr(getattr(state, f), "copy") else None) for f in state._fields}


def unchanged(ctx, state, kept, what, loose):
    for f, v in kept.items():
        now = getattr(state, f)
        if isinstance(v, np.ndarray):
            if loose:
                ctx.close(now, v, 1e-10, 1e-10, what + " " + f)
            else:
                ctx.equal(now, v, what + " " + f)
        elif ssp.issparse(v):
            ctx.equal(now.toarray(), v.toarray(), what + " " + f)


@CHECK.sub(states(), quick=5000, shards=4)
def reported_links(c, ctx):
    mod, model, train, query, scores = build(c)
    is_rtm = mod is rtm
    links = ssp.csr_matrix(np.array(c["links"], dtype=float))
    subset = c["subset"]
    rows = list(range(c["Q"])) if subset is None else subset
    f32 = c["dt"] == "float32"
    rel, absolute = (1e-5, 1e-6) if f32 else (1e-9, 1e-8)
    kept = copies(train), copies(query)
    with side.quiet():
        mins = mod.min_link_probs(model, query, links) if is_rtm else mod.min_link_probs(model, train, query, links, subset)
    mins = np.asarray(mins, dtype=float)
    ctx.equal(mins.shape, (len(rows),), "one minimum for each document")
    known = [np.flatnonzero(np.array(c["links"])[r]) for r in rows]
    none = (1e-300,) if is_rtm else (-1.0,)
    near = 1e-6 if c["kind"] == "sim_lda" else rel      # a distance close to zero is known to few digits
    for i, r in enumerate(rows):
        if len(known[i]):
            ctx.close(mins[i], scores[r, known[i]].min(), max(near, rel), 0 if is_rtm else absolute, "lowest score of the known links")
        else:
            ctx.check(mins[i] in none or np.all(scores[r] > mins[i]), lambda: "minimum of a document without links: %r" % mins[i])
    given = mins.astype(model.dtype)
    how = c["min"]
    if how == "low":
        given = np.full_like(given, 1e-300 if is_rtm else -1e3)
    elif how == "high":
        given = np.full_like(given, 1e35)
    elif how == "score":
        given = np.array([np.median(scores[r]) for r in rows]).astype(model.dtype)
    before = given.copy()
    with side.quiet():
        got = mod.link_probs(model, query, given) if is_rtm else mod.link_probs(model, train, query, given, subset)
    ctx.equal(given, before, "the minima given")
    got = got.tocoo()
    ctx.equal(got.shape, (len(rows), c["D"]), "shape of the links")
    seen = set(zip(got.row.tolist(), got.col.tolist()))
    ctx.check(len(seen) == got.nnz, "a link is reported twice")
    val = {(a, b): v for a, b, v in zip(got.row.tolist(), got.col.tolist(), got.data.tolist())}
    ctx.label(c["kind"])
    for i, r in enumerate(rows):
        m = float(given[i])
        slack = absolute + max(near, rel) * abs(m)
        if is_rtm:
            slack = 1e-8 * abs(m)
        ctx.nontrivial(how == "known" and len(known[i]) and np.any(scores[r] < m - slack))
        for d in range(c["D"]):
            s = scores[r, d]
            if (i, d) in seen:
                ctx.check(s >= m - slack, lambda: "document %d: link %d of score %r reported though the minimum is %r" % (r, d, s, m))
                ctx.close(val[i, d], s, max(near, 1e-6 if f32 else rel), absolute, "score of a link")
            else:
                ctx.check(s <= m + slack, lambda: "document %d: link %d of score %r not reported though the minimum is %r" % (r, d, s, m))
                ctx.check(how != "known" or d not in known[i], lambda: "document %d: its known link %d is not reported" % (r, d))
    unchanged(ctx, train, kept[0], "train state", is_rtm)
    unchanged(ctx, query, kept[1], "query state", is_rtm)


@st.composite
def runs(draw):
    c = draw(side.config(["lro_vb", "rtm", "mtm3", "sim_based_rec"], min_d=3, max_d=6, max_iters=3))
    c["lda"] = draw(st.booleans())
    if not any(map(any, c["l"])):
        c["l"][1][0] = 1
    return c


@CHECK.sub(runs(), quick=120, shards=4)
def trained(c, ctx):
    """the same from a trained model: no known link of the training documents is missed"""
    np.random.seed(c["seed"] % 2 ** 31)
    data = side.dataset(c)
    mod = side.module(c)
    ctx.label(c["kind"])
    with side.quiet(), np.errstate(all="ignore"):
        if c["kind"] == "sim_based_rec":
            model = mod.newModelAtRandom(data, c["K"], method=mod.LDA if c["lda"] else mod.TF_IDF, dtype=np.float64)
        else:
            model = side.new_model(c, data)
        model, q = side.train(c, data, model, mod.newQueryState(data, model))
        if c["kind"] == "rtm":
            mins = mod.min_link_probs(model, q, data.links)
            got = mod.link_probs(model, q, mins)
        else:
            mins = mod.min_link_probs(model, q, q, data.links)
            got = mod.link_probs(model, q, q, mins)
    ctx.finite(mins, "minima")
    ctx.finite(got.data, "scores")
    got = got.tocoo()
    seen = set(zip(got.row.tolist(), got.col.tolist()))
    D = data.doc_count
    ctx.nontrivial(0 < len(seen) < D * D)
    for d, p in zip(*np.nonzero(np.array(c["l"]))):
        ctx.check((d, p) in seen, lambda: "the known link %d -> %d is not reported" % (d, p))
    for d, p in seen:
        ctx.check(got.tocsr()[d, p] >= mins[d] - 1e-6 * (1 + abs(mins[d])), "a reported link lies below the minimum")
