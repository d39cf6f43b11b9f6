"""C12: results depend on the counts only, not on how they are stored or in which order the documents come."""
import io
from contextlib import redirect_stdout

import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import gen
import models
from pbt import Check
from sidetopics.model.common import DataSet
from sidetopics.model.sklearn import ScoreMethod, TopicModel

CHECK = Check("C12", "the other form of the counts really differs and there are at least two documents",
              ["trainers that visit tokens one after the other (CVB, CVB0, Gibbs) do so in the order the words of a document are "
               "stored and, while training, in document order: for them the order of stored indices and of training documents is kept",
               "float tolerance 1e-6 (1e-3 in single precision)"])

TOKENWISE = ("lda_cvb", "lda_cvb0", "lda_gibbs")
DTYPES = {"lda_cvb": ["int32", "float32", "float64"], "lda_cvb0": ["int32", "float32", "float64"]}
ANY = ["int32", "int64", "float32", "float64"]


def quiet():
    return redirect_stdout(io.StringIO())


def store(m, dtype, how, seed):
    """the same counts as a CSR matrix: 'shuffled' column indices, 'zeros' stored explicitly, or both"""
    a = np.array(m)
    rng = np.random.RandomState(seed)
    data, ind, ptr = [], [], [0]
    for row in a:
        cols = [t for t in range(len(row)) if row[t] != 0 or (how in ("zeros", "both") and rng.rand() < 0.3)]
        if how in ("shuffled", "both"):
            cols = [cols[i] for i in rng.permutation(len(cols))]
        ind += cols
        data += [row[t] for t in cols]
        ptr.append(len(ind))
    return ssp.csr_matrix((np.array(data, dtype=dtype), np.array(ind, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=a.shape)


@st.composite
def stored(draw):
    c = draw(models.config(max_iters=4))
    c.pop("wdtype", None)
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=1, max_d=4, min_t=T, max_t=T))
    c["dt"] = [draw(st.sampled_from(DTYPES.get(c["kind"], ANY))) for _ in range(2)]
    c["how"] = draw(st.sampled_from(["zeros", "plain"] if c["kind"] in TOKENWISE else ["both", "shuffled", "zeros", "plain"]))
    c["rseed"] = draw(st.integers(0, 999))
    c["as"] = draw(st.sampled_from(["csr", "csc", "dense", "coo"]))
    return c


def pair(c, key):
    m = np.array(c[key]) * c.get("scale", 1)
    return (DataSet(gen.csr(m, c["dt"][0])), DataSet(store(m, c["dt"][1], c["how"], c["rseed"])))


def differs(c, ctx):
    ctx.nontrivial(len(c["m"]) > 1 and (c["dt"][0] != c["dt"][1] or c["how"] != "plain"))
    ctx.label(c["kind"])
    ctx.label(c["how"])


def tolerance(c):
    return 1e-3 if models.dtype(c) == np.float32 else 1e-6


def compare(ctx, a, b, what, tol):
    ctx.check(len(a) == len(b), "different number of results")
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.close(y, x, tol, tol, "%s: result %d" % (what, i))


@CHECK.sub(stored(), quick=640, shards=8)
def trainers(c, ctx):
    """a trainer given the same counts stored in two ways"""
    differs(c, ctx)
    out = []
    for data, other in zip(pair(c, "m"), pair(c, "q")):
        mod = models.module(c)
        models.seed_all(c)
        with quiet():
            model = models.new_model(c, data)
            model, q = models.train(c, data, model, models.new_query(c, data, model))
            r = [mod.wordDists(model), mod.topicDists(q)]
            _, q2 = mod.query(other, model, models.new_query(c, other, model), models.plan(c))
            r.append(mod.topicDists(q2))
            fn = getattr(mod, "log_likelihood_point", None) or mod.log_likelihood
            if c["kind"] != "lda_vb_python" or set(c["dt"]) == {"float64"}:    # its likelihood takes one type only
                r += [fn(data, model, q), fn(other, model, q2)]
        out.append([np.array(x, dtype=float) for x in r])
    compare(ctx, out[0], out[1], "stored as %s, %s" % (c["dt"][1], c["how"]), tolerance(c))


@CHECK.sub(stored(), quick=400, shards=8)
def estimators(c, ctx):
    """an estimator given the same counts stored in two ways, or as another type of matrix"""
    differs(c, ctx)
    out = []
    for n, (data, other) in enumerate(zip(pair(c, "m"), pair(c, "q"))):
        tm = TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], doc_topic_prior=models.prior(c),
                        topic_word_prior=c["beta"], iterations=c["iters"], burn_in=0, thin=1, seed=c["seed"])
        with quiet():
            tm.fit(data, persist_query_state=True)
            r = [tm.components_, tm.score(data, y_query_state=tm.query_state_, method=ScoreMethod.LogLikelihoodPoint)]
            tm.seed = c["seed"]
            r.append(tm.transform(other))
            w = other.words
            if n and c["how"] == "plain":      # other kinds of matrix have an order of their own
                w = {"csr": w, "csc": w.tocsc(), "coo": w.tocoo(), "dense": np.asarray(w.todense())}[c["as"]]
            tm.seed = c["seed"]
            r.append(tm.transform(DataSet(w)))
            tm.seed = c["seed"]
            r.append(tm.score(other, method=ScoreMethod.LogLikelihoodPoint))
            tm.seed = c["seed"]
            r.append(np.log(tm.score(other, method=ScoreMethod.PerplexityPoint)))
        out.append([np.array(x, dtype=float) for x in r])
    compare(ctx, out[0], out[1], "stored as %s, %s" % (c["dt"][1], c["how"]), 1e-3 if c["kind"] in ("lda_cvb", "lda_cvb0") else 1e-6)


@st.composite
def permuted(draw):
    c = draw(models.config(kinds=["lda_vb_python", "mom_em"], max_iters=4, min_d=2))
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=2, max_d=6, min_t=T, max_t=T))
    c["perm"] = draw(st.permutations(list(range(len(c["q"])))))
    c["tperm"] = draw(st.permutations(list(range(len(c["m"])))))
    c["alone"] = draw(st.integers(0, len(c["q"]) - 1))
    return c


def pick(q, rows):
    """the initial state of these documents only, in this order"""
    D = len(q.docLens)
    return q._replace(**{f: np.ascontiguousarray(getattr(q, f)[rows]) for f in q._fields
                         if isinstance(getattr(q, f), np.ndarray) and getattr(q, f).ndim and getattr(q, f).shape[0] == D})


def clone(q):
    return q._replace(**{f: getattr(q, f).copy() for f in q._fields if isinstance(getattr(q, f), np.ndarray)})


@CHECK.sub(permuted(), quick=560, shards=8)
def query_order(c, ctx):
    """the documents of a query in another order, or one at a time"""
    perm = list(c["perm"])
    ctx.nontrivial(perm != sorted(perm))
    ctx.label(c["kind"])
    mod = models.module(c)
    data = models.dataset(c)
    models.seed_all(c)
    with quiet():
        model = models.new_model(c, data)
        model, _ = models.train(c, data, model, models.new_query(c, data, model))
        first = models.new_query(c, models.dataset(c, c["q"]), model)
        base = mod.query(models.dataset(c, c["q"]), model, clone(first), models.plan(c))[1]
        base = np.array(mod.topicDists(base), dtype=float)
        tol = 1e-6
        other = models.dataset(c, [c["q"][i] for i in perm])
        got = mod.query(other, model, pick(clone(first), perm), models.plan(c))[1]
        ctx.close(np.array(mod.topicDists(got), dtype=float), base[perm], tol, tol, "topics of the permuted documents")
        d = c["alone"]
        got = mod.query(models.dataset(c, [c["q"][d]]), model, pick(clone(first), [d]), models.plan(c))[1]
        ctx.close(np.array(mod.topicDists(got), dtype=float), base[[d]], tol, tol, "topics of a document queried alone")
        n = models.new_query(c, data, model)
        start = mod.newModelFromExisting(models.new_model(c, data))
        a = models.train(c, data, mod.newModelFromExisting(start), clone(n))
        tp = list(c["tperm"])
        moved = models.dataset(c, [c["m"][i] for i in tp])
        b = models.train(c, moved, mod.newModelFromExisting(start), pick(clone(n), tp))
        ctx.close(mod.wordDists(b[0]), mod.wordDists(a[0]), 1e-6, 1e-8, "topics trained on permuted documents")
        ctx.close(mod.topicDists(b[1]), mod.topicDists(a[1])[tp], 1e-6, 1e-8, "topics of the permuted training documents")


@st.composite
def scored(draw):
    c = draw(models.config(kinds=[k for k in models.KINDS if k != "lda_gibbs"], max_iters=3, f32=False))
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=2, max_d=6, min_t=T, max_t=T))
    c["perm"] = draw(st.permutations(list(range(len(c["q"])))))
    c["dt"] = [draw(st.sampled_from(DTYPES.get(c["kind"], ANY))) for _ in range(2)]
    c["how"] = draw(st.sampled_from(["both", "shuffled", "zeros", "plain"]))
    c["rseed"] = draw(st.integers(0, 999))
    return c


@CHECK.sub(scored(), quick=500, shards=8)
def scores(c, ctx):
    """scores of given topic assignments, documents and columns stored in any order"""
    perm = list(c["perm"])
    differs(c, ctx)
    tm = TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], iterations=c["iters"], burn_in=0, thin=1, seed=c["seed"])
    with quiet():
        tm.fit(models.dataset(c))
        y = gen.dirichlet(c["seed"] % 1000, len(c["q"]), c["K"])
        m = np.array(c["q"])
        a = DataSet(gen.csr(m, c["dt"][0]))
        b = DataSet(store(m[perm], c["dt"][1], c["how"], c["rseed"]))
        tol = 2e-4 if c["kind"] in ("lda_cvb", "lda_cvb0") else 1e-7
        L, P = ScoreMethod.LogLikelihoodPoint, ScoreMethod.PerplexityPoint
        ctx.close(tm.score(b, y=y[perm], method=L), tm.score(a, y=y.copy(), method=L), tol, tol, "log likelihood")
        ctx.close(np.log(tm.score(b, y=y[perm], method=P)), np.log(tm.score(a, y=y.copy(), method=P)), tol, tol, "log of the perplexity")
        ctx.close(np.ravel(tm.log_likelihood_score_point(b, y[perm])), np.ravel(tm.log_likelihood_score_point(a, y))[perm], tol, tol,
                  "scores of the documents")


@st.composite
def written(draw):
    c = draw(models.config(max_iters=4))
    T = len(c["m"][0])
    c["q"] = draw(gen.counts(min_d=1, max_d=4, min_t=T, max_t=T))
    c["alpha"], c["beta"] = [draw(st.sampled_from([1.0, 2.0, 5.0, 0.5])) for _ in range(2)]
    whole = [["float", "np64", "np32", "vector", "list32"] + (["int", "npint", "ints"] if v == int(v) else []) for v in (c["alpha"], c["beta"])]
    cvb = c["kind"] in ("lda_cvb", "lda_cvb0")          # these take one number for all words
    c["forms"] = [[draw(st.sampled_from(whole[0])), draw(st.sampled_from([f for f in whole[1] if not cvb or "v" not in f and "s" not in f]))]
                  for _ in range(2)]
    c["estimator"] = draw(st.booleans())
    return c


FORMS = {"float": lambda v, n: v, "np64": lambda v, n: np.float64(v), "np32": lambda v, n: np.float32(v),
         "int": lambda v, n: int(v), "npint": lambda v, n: np.int64(v), "vector": lambda v, n: np.full(n, v),
         "list32": lambda v, n: np.full(n, v, dtype=np.float32), "ints": lambda v, n: np.full(n, int(v))}


@CHECK.sub(written(), quick=600, shards=4)
def priors(c, ctx):
    """a prior is the same however it is written: any kind of number, or a vector of it"""
    ctx.label(c["kind"])
    ctx.nontrivial(c["forms"][0] != c["forms"][1])
    data, other = models.dataset(c), models.dataset(c, c["q"])
    mod, T = models.module(c), len(c["m"][0])
    outs = []
    for a, b in c["forms"]:
        alpha, beta = FORMS[a](c["alpha"], c["K"]), FORMS[b](c["beta"], T)
        kept = np.array(alpha), np.array(beta)
        models.seed_all(c)
        with quiet():
            if c["estimator"]:
                tm = TopicModel(kind=models.TYPE_NAMES[c["kind"]], n_components=c["K"], doc_topic_prior=alpha, topic_word_prior=beta,
                                iterations=c["iters"], burn_in=0, thin=1, seed=c["seed"])
                tm.fit(data)
                phi, theta = tm.components_, tm.transform(other)
            else:
                model = mod.newModelAtRandom(data, c["K"], topicPrior=alpha, vocabPrior=beta, dtype=models.dtype(c))
                model, _ = models.train(c, data, model, models.new_query(c, data, model))
                q = models.new_query(c, other, model)
                _, q = mod.query(other, model, q, models.plan(c))
                phi, theta = mod.wordDists(model), mod.topicDists(q)
        outs.append((np.array(phi, dtype=np.float64), np.array(theta, dtype=np.float64)))
        ctx.equal(np.array(alpha), kept[0], "the prior given")
        ctx.equal(np.array(beta), kept[1], "the prior given")
    single = c["kind"] in ("lda_cvb", "lda_cvb0") and (c["estimator"] or models.dtype(c) == np.float32)
    tol = 2e-3 if single else 1e-6
    ctx.close(outs[1][0], outs[0][0], tol, tol, "topics")
    ctx.close(outs[1][1], outs[0][1], tol, tol, "topic assignments")
