"""C03: the collapsed variational trainers neither lose nor invent a token."""
import io
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st

import gen
import models
from pbt import Check

CHECK = Check("C03", "at least two iterations in all over a corpus with a repeated or shared word",
              ["each training run starts from a query state of its own (see the known finding for re-used states)",
               "single precision: counts may drift by 2e-4 of the largest count"])


@st.composite
def case(draw):
    c = draw(models.config(kinds=["lda_cvb0", "lda_cvb"], max_iters=8))
    T = len(c["m"][0])
    c["ops"] = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["train", "query", "train", "requery"]), "it": st.integers(0, 7),
        "log": st.sampled_from([0, 1, 2, 3, 10]), "same": st.booleans()}), min_size=1, max_size=4))
    c["others"] = [draw(gen.counts(min_d=1, max_d=4, min_t=T, max_t=T)) for _ in c["ops"]]
    return c


def tolerance(c, total):
    return (3e-4 if models.dtype(c) == np.float32 else 1e-8) * (1 + total)


def check_query(c, ctx, q, m, kt_extra, when):
    """every table of the query state equals what its responsibilities say"""
    m = np.array(m, dtype=np.float64)
    D, T = m.shape
    K = c["K"]
    tol = tolerance(c, m.sum() + kt_extra)
    lens = np.asarray(q.docLens)
    ctx.equal(lens.astype(np.float64), m.sum(axis=1), "document lengths " + when)
    z = np.asarray(q.z_dnk, dtype=np.float64)
    W = np.asarray(q.W_list)
    dk, kt, vdk, vkt = np.zeros((D, K)), np.zeros((K, T)), np.zeros((D, K)), np.zeros((K, T))
    for d in range(D):
        ctx.equal(np.bincount(W[d, :lens[d]], minlength=T).astype(np.float64), m[d], "tokens of document %d %s" % (d, when))
        for n in range(lens[d]):
            zz = z[d, n]
            dk[d] += zz
            kt[:, W[d, n]] += zz
            vdk[d] += zz * (1 - zz)
            vkt[:, W[d, n]] += zz * (1 - zz)
        if lens[d]:
            ctx.distribution(z[d, :lens[d]], "responsibilities %s" % when, tol=models.tol(c))
    ctx.close(q.n_dk, dk, 0, tol, "topic counts of the documents " + when)
    ctx.close(np.asarray(q.n_dk).sum(axis=1), m.sum(axis=1), 0, tol, "document lengths from the topic counts " + when)
    if c["kind"] == "lda_cvb":
        ctx.close(q.v_dk, vdk, 0, tol, "topic variances of the documents " + when)
    return kt, vkt, tol


def check_kt(c, ctx, s, kt, vkt, freq, tol, when):
    ctx.close(s.n_kt, kt, 0, tol, "topic-word counts " + when)
    ctx.close(np.asarray(s.n_kt).sum(axis=0), freq, 0, tol, "word frequencies from the topic counts " + when)
    ctx.close(s.n_k, kt.sum(axis=1), 0, tol, "topic counts " + when)
    if c["kind"] == "lda_cvb":
        ctx.close(s.v_kt, vkt, 0, tol, "topic-word variances " + when)
        ctx.close(s.v_k, vkt.sum(axis=1), 0, tol, "topic variances " + when)


@CHECK.sub(case(), quick=5000, shards=8)
def histories(c, ctx):
    models.seed_all(c)
    m0 = c["m"]
    model = models.new_model(c, models.dataset(c))
    freq = np.zeros(len(m0[0]))                       # what the model has been trained on
    kt, vkt, dks, vdks = 0.0, 0.0, [], []
    iters, last = 0, None
    ops = [{"op": "train", "it": c["iters"], "log": c["log"], "same": True}] + c["ops"]
    others = [m0] + c["others"]
    for o, other in zip(ops, others):
        m = m0 if o["same"] else other
        data = models.dataset(c, m)
        before = models.freeze_csr(data.words)
        pl = models.plan(c, o["it"], o["log"])
        iters += o["it"]
        ctx.label("%s, %d iterations" % (o["op"], min(o["it"], 1)))
        if o["op"] == "train":
            q = models.new_query(c, data, model)
            a, b, tol = check_query(c, ctx, q, m, freq.sum(), "initially")
            check_kt(c, ctx, q, a, b, np.sum(m, axis=0), tol, "initially")
            with redirect_stdout(io.StringIO()):
                model, q = models.train(c, data, model, q, pl)
            a, b, tol = check_query(c, ctx, q, m, freq.sum(), "after training")
            freq = freq + np.sum(m, axis=0)
            kt, vkt = kt + a, vkt + b
            dks.append(np.array(q.n_dk))
            check_kt(c, ctx, model, kt, vkt, freq, tol, "of the model after training")
            ctx.close(model.n_dk, np.vstack(dks), 0, tol, "the model's topic counts per document")
            if c["kind"] == "lda_cvb":
                vdks.append(np.array(q.v_dk))
                ctx.close(model.v_dk, np.vstack(vdks), 0, tol, "the model's topic variances per document")
            last = None
        else:
            if o["op"] == "requery" and last is not None:
                q, m = last
                data = models.dataset(c, m)
                before = models.freeze_csr(data.words)
            else:
                q = models.new_query(c, data, model)
            frozen = models.freeze(model)
            with redirect_stdout(io.StringIO()):
                model2, q = models.module(c).query(data, model, q, pl)
            a, b, tol = check_query(c, ctx, q, m, freq.sum(), "after querying")
            check_kt(c, ctx, q, a, b, np.sum(m, axis=0), tol, "of the query after querying")
            models.same(ctx, model, frozen, "the model queried")
            for f in ("n_dk", "n_kt", "n_k"):
                ctx.equal(np.asarray(getattr(model2, f)), frozen[f], "the model returned by a query: " + f)
            last = (q, m)
        models.same_csr(ctx, data.words, before)
    w = np.array(m0)
    ctx.nontrivial(iters > 1 and ((w > 1).any() or ((w > 0).sum(axis=0) > 1).any()))


@st.composite
def split(draw):
    c = draw(models.config(kinds=["lda_cvb0", "lda_cvb"], max_iters=24))
    c["log2"] = draw(st.integers(1, 12))
    c["query"] = draw(st.booleans())
    c["q"] = draw(gen.counts(min_d=1, max_d=4, min_t=len(c["m"][0]), max_t=len(c["m"][0])))
    return c


@CHECK.sub(split(), quick=3000, shards=8)
def segments(c, ctx):
    """logging in between changes nothing, neither the counts nor the number of iterations made"""
    models.seed_all(c)
    data = models.dataset(c)
    mod = models.module(c)
    model = models.new_model(c, data)
    ctx.nontrivial(1 < c["log2"] < c["iters"])
    ctx.label("interval does not divide the iterations", c["iters"] % c["log2"] != 0)
    if c["query"]:
        model, _ = models.train(c, data, model, models.new_query(c, data, model), models.plan(c, 2, 0))
        data = models.dataset(c, c["q"])
    outs = []
    state = np.random.get_state()
    for log in (0, c["log2"]):
        np.random.set_state(state)
        m = mod.newModelFromExisting(model)
        q = models.new_query(c, data, m)
        with redirect_stdout(io.StringIO()):
            m, q = (mod.query if c["query"] else mod.train)(data, m, q, models.plan(c, c["iters"], log))[:2]
        outs.append((m, q))
    tol = tolerance(c, np.sum(c["m"]) + np.sum(c["q"]))
    for f in ("n_dk", "n_kt", "n_k"):
        ctx.close(getattr(outs[1][0], f), getattr(outs[0][0], f), 0, tol, "model %s with and without logging" % f)
        ctx.close(getattr(outs[1][1], f), getattr(outs[0][1], f), 0, tol, "query %s with and without logging" % f)
    lens = np.asarray(outs[0][1].docLens)
    for d in range(len(lens)):
        ctx.close(outs[1][1].z_dnk[d, :lens[d]], outs[0][1].z_dnk[d, :lens[d]], 0, tol, "responsibilities with and without logging")


@CHECK.known_finding
def retraining_counts_twice():
    """train() on an existing model with the query state it was trained with adds the corpus again"""
    out = []
    for kind in ("lda_cvb0", "lda_cvb"):
        c = {"kind": kind, "m": [[2, 1], [0, 3]], "K": 2, "alpha": 0.5, "beta": 0.1, "iters": 2, "seed": 3,
             "dtype": "float64", "wdtype": "float64", "log": 0}
        models.seed_all(c)
        data = models.dataset(c)
        model = models.new_model(c, data)
        q = models.new_query(c, data, model)
        model, q = models.train(c, data, model, q)
        model, q = models.train(c, data, model, q)
        if abs(np.sum(model.n_kt) - 6) > 1e-6:
            out.append("%s: %.0f tokens counted out of 6" % (kind, np.sum(model.n_kt)))
    return "; ".join(out) or None
