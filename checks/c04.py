"""C04: CVB and CVB0 make the published collapsed variational update, token by token."""
import io
import math
import struct
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st
from scipy.special import gammaln

import gen
import models
from pbt import Check
from sidetopics.model.common import DataSet

CHECK = Check("C04", "at least two documents share a word and at least one iteration is made",
              ["the topic prior is the symmetric one at the mean of the prior given, as in the code",
               "CVB: the exponential may be exact or the documented fast approximation (Schraudolph)",
               "tolerance 1e-4 (CVB, double: the fast exponential is a step function), 1e-9 (CVB0), 2e-3 (single)"])


def fast_exp(y):
    hi = int(1048576 / math.log(2) * y + (1072693248 - 60801))
    return struct.unpack("<d", struct.pack("<q", hi << 32))[0]


def update(kind, W, lens, z, base, alpha, beta, T, iters, exp):
    """the reference, in plain Python; base holds the counts of the fixed model corpus"""
    K = z.shape[2]
    z = z.astype(np.float64).copy()
    ndk = np.array([z[d, :lens[d]].sum(axis=0) for d in range(len(lens))])
    v = z * (1 - z)
    vdk = np.array([v[d, :lens[d]].sum(axis=0) for d in range(len(lens))])
    nkt, vkt = base["n_kt"].astype(np.float64).copy(), base["v_kt"].astype(np.float64).copy()
    for d in range(len(lens)):
        for n in range(lens[d]):
            nkt[:, W[d, n]] += z[d, n]
            vkt[:, W[d, n]] += v[d, n]
    for _ in range(iters):
        for d in range(len(lens)):
            for n in range(lens[d]):
                t, old = W[d, n], z[d, n].copy()
                ov = old * (1 - old)
                ndk[d] -= old
                nkt[:, t] -= old
                vdk[d] -= ov
                vkt[:, t] -= ov
                a, b, s = alpha + ndk[d], beta + nkt[:, t], beta * T + nkt.sum(axis=1)
                p = a * b / s
                if kind == "lda_cvb":
                    y = -vdk[d] / (2 * a * a) - vkt[:, t] / (2 * b * b) + vkt.sum(axis=1) / (2 * s * s)
                    p = p * np.array([exp(x) if x > -75.5 else 1e-33 for x in y])
                new = p / p.sum()
                ndk[d] += new
                nkt[:, t] += new
                vdk[d] += new * (1 - new)
                vkt[:, t] += new * (1 - new)
                z[d, n] = new
    return z, ndk, nkt


def bound(z, lens, ndk, nkt, alpha, beta):
    K, T = nkt.shape
    D = len(lens)
    out = D * (gammaln(K * alpha) - K * gammaln(alpha)) + K * (gammaln(T * beta) - T * gammaln(beta))
    out += np.sum(gammaln(alpha + ndk)) - np.sum(gammaln(K * alpha + np.asarray(lens)))
    out += np.sum(gammaln(beta + nkt)) - np.sum(gammaln(T * beta + nkt.sum(axis=1)))
    for d in range(D):
        x = z[d, :lens[d]]
        x = x[x > 0]
        out -= np.sum(x * np.log(x))
    return out


@st.composite
def case(draw):
    c = draw(models.config(kinds=["lda_cvb0", "lda_cvb"], max_d=4, max_t=6, max_iters=4))
    c["iters"] = min(c["iters"], 8)      # differences in the last bits may grow from sweep to sweep
    c["query"] = draw(st.booleans())
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=1, max_d=4, min_t=T, max_t=T))
    return c


@CHECK.sub(case(), quick=8000, shards=8)
def updates(c, ctx):
    models.seed_all(c)
    mod = models.module(c)
    model = models.new_model(c, models.dataset(c))
    T, K = len(c["m"][0]), c["K"]
    alpha = float(np.mean(model.topicPrior))
    beta = float(model.vocabPrior)
    base = {"n_kt": np.zeros((K, T)), "v_kt": np.zeros((K, T))}
    m = c["m"]
    if c["query"]:
        data = models.dataset(c)
        model, q0 = models.train(c, data, model, models.new_query(c, data, model), models.plan(c, 2, 0))
        base["n_kt"] = np.array(model.n_kt)
        if c["kind"] == "lda_cvb":
            base["v_kt"] = np.array(model.v_kt)
        m = c["q"]
    w = np.array(m)
    ctx.nontrivial(((w > 0).sum(axis=0) > 1).any())
    ctx.label(c["kind"] + (" query" if c["query"] else " training") + " " + c["dtype"])
    data = models.dataset(c, m)
    q = models.new_query(c, data, model)
    W, lens, z0 = np.array(q.W_list), np.array(q.docLens), np.array(q.z_dnk)
    trace = None
    with redirect_stdout(io.StringIO()):
        if c["query"]:
            _, q = mod.query(data, model, q, models.plan(c))
        else:
            r = mod.train(data, model, q, models.plan(c))
            model, q, trace = r
    single = models.dtype(c) == np.float32
    tol = 2e-3 if single else 1e-4 if c["kind"] == "lda_cvb" else 1e-9
    wants = [update(c["kind"], W, lens, z0, base, alpha, beta, T, c["iters"], e)
             for e in ((math.exp, fast_exp) if c["kind"] == "lda_cvb" else (None,))]

    def distance(want):
        d = max(np.abs(np.asarray(q.z_dnk[i, :lens[i]], dtype=np.float64) - want[0][i, :lens[i]]).max()
                for i in range(len(lens)))
        return max(d, np.abs(q.n_dk - want[1]).max() / (1 + lens.max()))

    want = min(wants, key=distance)
    total = 1 + base["n_kt"].sum() + w.sum()
    for i in range(len(lens)):
        ctx.close(q.z_dnk[i, :lens[i]], want[0][i, :lens[i]], 0, tol, "responsibilities of document %d" % i)
    ctx.close(q.n_dk, want[1], 0, tol * (1 + lens.max()), "topic counts of the documents")
    tops = np.asarray(q.n_dk, dtype=np.float64)
    ctx.close(mod.topicDists(q), tops / tops.sum(axis=1, keepdims=True), 0, 1e-5 if single else 1e-12, "topic distributions")
    words = np.asarray(model.n_kt, dtype=np.float64) + (beta if c["kind"] == "lda_cvb" else 0)
    if (words.sum(axis=1) > 0).all():
        ctx.close(mod.wordDists(model), words / words.sum(axis=1, keepdims=True), 0, 1e-5 if single else 1e-12, "word distributions")
    if c["query"]:
        ctx.close(q.n_kt, want[2] - base["n_kt"], 0, tol * total, "topic-word counts of the query")
    else:
        ctx.close(model.n_kt, want[2], 0, tol * total, "topic-word counts of the model")
        if not isinstance(c["alpha"], list):       # the bound of a symmetric prior
            zf = np.asarray(q.z_dnk, dtype=np.float64)
            b = bound(zf, lens, np.asarray(q.n_dk, dtype=np.float64), np.asarray(model.n_kt, dtype=np.float64), alpha, beta)
            ctx.close(trace[1][-1], b, 1e-3 if single else 1e-6, 1e-2 if single else 1e-5, "the bound reported last")


@CHECK.sub(st.fixed_dictionaries({
    "kind": st.sampled_from(["lda_cvb", "lda_cvb0"]), "m": gen.counts(min_d=1, max_d=5, min_t=2, max_t=6), "K": st.integers(2, 5),
    "dtype": st.sampled_from(["float64", "float64", "float32"]), "alpha": st.one_of(st.floats(0.01, 3), st.integers(0, 999)),
    "beta": st.floats(0.005, 2), "seed": gen.seeds, "how": st.sampled_from(["one", "soft", "sharp"])}), quick=2500, shards=4)
def bounds(c, ctx):
    """The bound of any assignment is E[log p(w, z)] at the expected counts, plus the assignment's entropy; where every
    token has its topic for certain, it is log p(w, z) itself, token by token by the two urns of Polya."""
    rng = np.random.RandomState(c["seed"] % 2 ** 31)
    mod = models.module(c)
    K, single = c["K"], c["dtype"] == "float32"
    alpha = rng.gamma(1.0, 1.0, K) + 0.01 if isinstance(c["alpha"], int) else np.full(K, c["alpha"])
    data = DataSet(gen.csr(c["m"], "int32"))
    T = data.words.shape[1]
    ft = np.float32 if single else np.float64
    np.random.seed(c["seed"] % 2 ** 31)
    model = mod.newModelAtRandom(data, K, topicPrior=1.0, vocabPrior=c["beta"], dtype=ft)
    q = mod.newQueryState(data, model)
    lens, W = np.array(q.docLens), np.array(q.W_list)
    z = np.zeros(q.z_dnk.shape)
    for d in range(len(lens)):
        for n in range(lens[d]):
            if c["how"] == "one":
                z[d, n, rng.randint(K)] = 1
            elif c["how"] == "soft":
                z[d, n] = rng.dirichlet(np.ones(K))
            else:
                e = 10.0 ** -rng.uniform(2.5, 6)
                z[d, n] = e * rng.dirichlet(np.ones(K))
                z[d, n, rng.randint(K)] += 1 - e
    z = z.astype(ft).astype(np.float64)
    ndk, nkt = z.sum(axis=1), np.zeros((K, T))
    for d in range(len(lens)):
        for n in range(lens[d]):
            nkt[:, W[d, n]] += z[d, n]
    model = model._replace(topicPrior=alpha.astype(ft), n_kt=nkt.astype(ft), n_k=nkt.sum(axis=1).astype(ft))
    q = q._replace(z_dnk=z.astype(ft), n_dk=ndk.astype(ft), n_kt=nkt.astype(ft), n_k=nkt.sum(axis=1).astype(ft))
    fn = mod.var_bound if c["kind"] == "lda_cvb" else mod.log_likelihood_expected
    with redirect_stdout(io.StringIO()):
        got = float(fn(data, model, q))
    D = len(lens)
    h = -(z[z > 0] * np.log(z[z > 0])).sum()
    want = D * (gammaln(alpha.sum()) - gammaln(alpha).sum()) + (gammaln(alpha + ndk)).sum() - gammaln(alpha.sum() + lens).sum()
    b = c["beta"]
    want += K * (gammaln(T * b) - T * gammaln(b)) + gammaln(b + nkt).sum() - gammaln(T * b + nkt.sum(axis=1)).sum() + h
    ctx.label(c["kind"] + " " + c["how"] + " " + c["dtype"])
    ctx.nontrivial(D > 1 and K > 1 and lens.sum() > 3)
    size = 1 + lens.sum() + D * np.abs(gammaln(alpha)).sum() + K * T * abs(gammaln(b))
    ctx.close(got, want, 0, (2e-5 if single else 1e-11) * size, "bound")
    if c["how"] == "one":
        seen_dk, seen_kt, p = np.zeros((D, K)), np.zeros((K, T)), 0.0
        for d in range(D):
            for n in range(lens[d]):
                k, t = int(np.argmax(z[d, n])), W[d, n]
                p += np.log((alpha[k] + seen_dk[d, k]) / (alpha.sum() + n))
                p += np.log((b + seen_kt[k, t]) / (T * b + seen_kt[k].sum()))
                seen_dk[d, k] += 1
                seen_kt[k, t] += 1
        ctx.close(got, p, 0, (2e-5 if single else 1e-11) * size, "bound of a certain assignment")
