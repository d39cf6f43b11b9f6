"""C19: ranking metrics against brute-force definitions."""
import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import gen
from pbt import Check
from sidetopics.model import evals
from sidetopics.model.common import DataSet

CHECK = Check("C19", "at least one document with expected links and at least two candidate links",
              ["estimated scores within a document are distinct, so the ranking is defined",
               "mean reciprocal rank: estimates include every expected link (as documented)"])


@st.composite
def links(draw):
    D = draw(st.integers(1, 6))
    T = draw(st.integers(1, 9))
    wide = gen.rare(draw)
    if wide:
        D, T = draw(st.sampled_from([(1, 150), (2, 260), (40, 12), (130, 3)]))
        rng = np.random.RandomState(draw(gen.seeds))
        exp = rng.binomial(1, rng.choice([0.05, 0.3, 0.9]), (D, T)).tolist()
        est = [[float(v) if k else None for v, k in zip(rng.permutation(T) - T // 2, rng.binomial(1, 0.8, T))] for _ in range(D)]
        for e, r in zip(exp, est):          # known links come last in some documents
            if rng.randint(2):
                r[:] = [None if v is None else v - 1000.0 * x for v, x in zip(r, e)]
        return {"exp": exp, "est": est, "at": draw(st.lists(st.sampled_from([1, 10, 100, 128, 40, 300]), min_size=1, max_size=3, unique=True)),
                "groups": draw(st.sampled_from([None, [[0, 9], [10, 99]], [[1, 2], [3, 400]]])), "all": draw(st.booleans()),
                "dtype": "float64", "shuffle": draw(gen.seeds)}
    exp = [[b & 1 if draw_b else 0 for b in row] for draw_b, row in
           [(draw(st.integers(0, 5)) > 0, list(draw(st.binary(min_size=T, max_size=T)))) for _ in range(D)]]
    est = []
    for d in range(D):
        perm = draw(st.permutations(list(range(1, T + 1))))
        mask = list(draw(st.binary(min_size=T, max_size=T)))
        mode = draw(st.sampled_from(["dense", "mixed", "cover", "none"]))
        neg = draw(st.booleans())
        fine = draw(st.integers(0, 3)) == 0
        row = []
        for t in range(T):
            v = 0.75 + perm[t] * 1e-12 if fine else perm[t] / 8.0
            if neg:
                v = -v
            keep = {"dense": True, "mixed": mask[t] & 1, "cover": exp[d][t] or mask[t] & 1, "none": False}[mode]
            row.append(v if keep else None)
        est.append(row)
    ms = draw(st.lists(st.integers(0, 12), min_size=1, max_size=3, unique=True))
    bounds = sorted(draw(st.lists(st.integers(0, 8), min_size=0, max_size=3, unique=True)))
    groups = [[bounds[i], bounds[i + 1] - 1] for i in range(len(bounds) - 1)] if len(bounds) > 1 else None
    return {"exp": exp, "est": est, "at": ms, "groups": groups, "all": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["float64", "float32", "int32"])), "shuffle": draw(gen.seeds)}


def build(c):
    exp = ssp.csr_matrix(np.array(c["exp"], dtype=c["dtype"]))
    D, T = exp.shape
    rng = np.random.RandomState(c["shuffle"])
    data, ind, ptr = [], [], [0]
    for row in c["est"]:
        cols = [t for t in range(T) if row[t] is not None]
        cols = [cols[i] for i in rng.permutation(len(cols))]
        data += [row[t] for t in cols]
        ind += cols
        ptr.append(len(ind))
    est = ssp.csr_matrix((np.array(data, dtype=np.float64), np.array(ind, dtype=np.int32),
                          np.array(ptr, dtype=np.int32)), shape=(D, T))
    return exp, est


def ranked(row):
    return [t for _, t in sorted(((-v, t) for t, v in enumerate(row) if v is not None))]


def snapshot(m):
    return m.data.copy(), m.indices.copy(), m.indptr.copy()


def untouched(ctx, m, snap, what):
    for a, b in zip(snapshot(m), snap):
        ctx.equal(a, b, what)


def prepare(c, ctx):
    exp, est = build(c)
    truth = [[t for t, v in enumerate(r) if v] for r in c["exp"]]
    rank = [ranked(r) for r in c["est"]]
    ctx.nontrivial(any(truth) and any(len(r) > 1 for r in rank))
    ctx.label("document without links", any(not t for t in truth))
    ctx.label("absent link", any(set(t) - set(r) for t, r in zip(truth, rank)))
    return exp, est, truth, rank


@CHECK.sub(links(), quick=3000, shards=2)
def mean_average_precision(c, ctx):
    exp, est, truth, rank = prepare(c, ctx)
    se, st_ = snapshot(exp), snapshot(est)
    got = evals.mean_average_prec(exp, est)
    aps = []
    for t, r in zip(truth, rank):
        if t:
            aps.append(sum(len(set(r[:i + 1]) & set(t)) / (i + 1.0)
                           for i, x in enumerate(r) if x in t) / len(t))
    want = sum(aps) / len(aps) if aps else 0.0
    ctx.close(got, want, 1e-9, 1e-9, "mean average precision")
    ctx.check(0 <= got <= 1 + 1e-12, "outside [0, 1]")
    untouched(ctx, exp, se, "expected links")
    untouched(ctx, est, st_, "estimated links")


@CHECK.sub(links(), quick=3000, shards=2)
def reciprocal_rank(c, ctx):
    for e, r in zip(c["exp"], c["est"]):      # as documented: every expected link has an estimate
        for t, v in enumerate(e):
            if v and r[t] is None:
                r[t] = 5000.0 + t
    exp, est, truth, rank = prepare(c, ctx)
    se, st_ = snapshot(exp), snapshot(est)
    got = evals.mean_reciprocal_rank(exp, est)
    rr = [1.0 / (r.index(x) + 1) for t, r in zip(truth, rank) for x in t]
    if rr:
        ctx.close(got, sum(rr) / len(rr), 1e-9, 1e-9, "mean reciprocal rank")
        ctx.check(0 <= got <= 1, "outside [0, 1]")
    else:
        ctx.check(got == 0 or np.isnan(got), "no links, but rank %r" % got)
    untouched(ctx, exp, se, "expected links")
    untouched(ctx, est, st_, "estimated links")


@CHECK.sub(links(), quick=4000, shards=2)
def precision_recall(c, ctx):
    exp, est, truth, rank = prepare(c, ctx)
    se, st_ = snapshot(exp), snapshot(est)
    groups = None if c["groups"] is None else [tuple(g) for g in c["groups"]]
    if groups is not None and c["all"]:
        groups.append(evals.AllGroups)
    arg = None if groups is None else list(groups)
    at = list(c["at"])
    single = len(at) == 1 and c["shuffle"] % 2 == 0
    if at == [0]:
        return
    prec, rec, counts = evals.mean_prec_rec_at(exp, est, at=at[0] if single else at, groups=arg)
    if groups is not None:
        ctx.equal(arg, groups, "the groups given")
    ctx.equal(at, c["at"], "the cut-offs given")
    want_groups = set(groups or []) | {evals.AllGroups}
    for r in (prec, rec, counts):
        ctx.equal(set(r.keys()), want_groups, "groups")
    for g in want_groups:
        docs = [d for d in range(len(truth)) if truth[d] and
                (g == evals.AllGroups or g[0] <= len(truth[d]) <= g[1])]
        ctx.equal(counts[g], len(docs), "documents in group %s" % (g,))
        ctx.label("populated group", bool(docs) and g != evals.AllGroups)
        ctx.check(len(prec[g]) == len(at) and len(rec[g]) == len(at), "one figure per cut-off")
        for i, m in enumerate(at):
            if m == 0:
                continue         # no figure of its own, but no harm to the others
            hits = [len(set(rank[d][:m]) & set(truth[d])) for d in docs]
            p = sum(h / m for h in hits) / max(1, len(docs))
            r = sum(h / len(truth[d]) for h, d in zip(hits, docs)) / max(1, len(docs))
            ctx.close(prec[g][i], p, 1e-9, 1e-9, "precision at %d in %s" % (m, g))
            ctx.close(rec[g][i], r, 1e-9, 1e-9, "recall at %d in %s" % (m, g))
            ctx.check(0 <= prec[g][i] <= 1 + 1e-12 and 0 <= rec[g][i] <= 1 + 1e-12, "outside [0, 1]")
    untouched(ctx, exp, se, "expected links")
    untouched(ctx, est, st_, "estimated links")


@CHECK.sub(st.tuples(st.floats(-1e6, 0), st.integers(1, 10 ** 6)), quick=1500)
def perplexity(c, ctx):
    like, n = c
    ctx.nontrivial(like < 0)
    if like / n < -600:
        return
    ctx.close(evals.perplexity_from_like(like, n), np.exp(-like / n), 1e-9, 0, "perplexity")


@CHECK.sub(st.tuples(st.floats(-1e3, 0), gen.counts(min_d=1, max_d=5, min_t=2, max_t=5), st.booleans(), gen.seeds), quick=500)
def perplexity_of_a_dataset(c, ctx):
    """per word and link where the figure is asked for with a dataset, per word where it says so"""
    like, m, links, seed = c
    w = np.array(m, dtype=np.float64)
    if w.sum() == 0:
        return
    X = np.random.RandomState(seed).binomial(1, 0.4, (len(w), len(w))) if links else None
    data = DataSet(gen.csr(w), links=gen.csr(X) if links else None)
    ctx.nontrivial(links and X.sum() > 0)
    n = w.sum() + (X.sum() if links else 0)
    ctx.close(evals.perplexity_from_like(like, data), np.exp(-like / n), 1e-9, 0, "perplexity of words and links")
    ctx.close(evals.word_perplexity(lambda d, model, query: like if (d, model, query) == (data, 1, 2) else None, 1, 2, data),
              np.exp(-like / w.sum()), 1e-9, 0, "perplexity of the words")
