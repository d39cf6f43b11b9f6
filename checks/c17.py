"""C17: feature splits and vocabulary pruning."""
import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import dsets, gen
from pbt import Check, Discard
import sidetopics.model.common as common

CHECK = Check("C17", "datasets with binary features, generated feature lists and frequency thresholds, with and without "
              "links, categories and dictionary; matrices and generated column sets for the column droppers; "
              "non-trivial = both sides of a split non-empty / some but not all columns dropped",
              ["features are non-negative", "words are stored without duplicate entries"])


@st.composite
def feature_case(draw):
    c = draw(dsets.case(min_d=2, max_d=9, feats="yes", links="maybe", square=True))
    F = len(c["x"][0])
    c["pick"] = draw(st.lists(st.integers(0, F - 1), min_size=1, max_size=F, unique=True))
    c["order"] = draw(st.one_of(st.none(), st.permutations(list(range(len(c["w"]))))))
    return c


@CHECK.sub(feature_case(), quick=2500, shards=3)
def feature_split(c, ctx):
    x = np.array(c["x"])
    pick = c["pick"]
    left = [d for d in range(len(x)) if x[d, pick].sum() == 0]
    right = [d for d in range(len(x)) if x[d, pick[0]] > 0]
    if not left or not right:
        raise Discard()
    ds = dsets.build(c, None if c["order"] is None else np.array(c["order"]))
    full = dsets.snapshot(ds)
    dsets.consistent(ctx, ds, "the dataset")
    ctx.nontrivial(len(left) + len(right) > 2)
    ctx.label("links", "l" in c)
    ctx.label("documents in neither", len(left) + len(right) < len(x))
    import logging
    train, query, docs = ds.split_on_feature(pick)
    ctx.equal([int(i) for i in docs], left, "documents without any of the features")
    for part, idx in ((train, left), (query, right)):
        want = {"words": dsets.rows(full["words"], idx), "feats": dsets.rows(full["feats"], idx),
                "links": dsets.cell(full["links"], idx, left), "cats": dsets.rows(full["cats"], idx),
                "dict": full["dict"], "order": dsets.rows(full["order"], idx)}
        dsets.same(ctx, dsets.snapshot(part), want, "training side" if part is train else "query side")
        dsets.consistent(ctx, part, "training side" if part is train else "query side")
    dsets.same(ctx, dsets.snapshot(ds), full, "the dataset after splitting")


@st.composite
def freq_case(draw):
    c = draw(dsets.case(max_d=9, ids=False, empty_rows=True))
    c["min"] = draw(st.integers(0, len(c["w"])))
    c["noise"] = draw(st.booleans())
    c["perm"] = draw(gen.seeds)
    return c


@CHECK.sub(freq_case(), quick=3000, shards=3)
def min_freq(c, ctx):
    W = np.array(c["w"])
    keep = [int(t) for t in np.where((W > 0).sum(axis=0) >= c["min"])[0]]
    ds = dsets.build(c)
    if c["noise"]:       # unsorted indices and explicit zeros: a zero is no occurrence
        ds = ds.copy_with_changes(words=gen.messy_csr(c["w"], c["wt"], True, c["perm"]))
    full = dsets.snapshot(ds)
    dsets.consistent(ctx, ds, "the dataset")
    if not keep:
        raise Discard()
    ctx.nontrivial(0 < len(keep) < W.shape[1])
    ctx.label("dictionary", "dict" in c)
    got = ds.words_with_min_freq(c["min"])
    want = dict(full, words=W[:, keep].tolist(), dict=dsets.rows(full["dict"], keep))
    dsets.consistent(ctx, got, "the pruned dataset")
    dsets.same(ctx, dsets.snapshot(got), want, "words in at least %d documents" % c["min"])
    dsets.same(ctx, dsets.snapshot(ds), full, "the dataset after pruning")


@st.composite
def drop_case(draw):
    m = draw(gen.counts(max_d=8, max_t=9, min_t=1, empty_rows=True, wide=130))
    T = len(m[0])
    return {"m": m, "drop": draw(st.lists(st.integers(0, T - 1), max_size=min(T + 2, 40))), "dtype": draw(st.sampled_from(["int32", "float64"]))}


@CHECK.sub(drop_case(), quick=3000, shards=2)
def drop_columns(c, ctx):
    M = gen.csr(c["m"], c["dtype"])
    D = np.array(c["m"], dtype=c["dtype"])
    idx = np.array(c["drop"], dtype=np.int64)
    keep = [t for t in range(D.shape[1]) if t not in set(c["drop"])]
    ctx.nontrivial(0 < len(keep) < D.shape[1])
    for fn in (common.dropcols_fancy, common.dropcols_coo):
        got = fn(M, idx)
        ctx.check(ssp.issparse(got), "not sparse")
        ctx.equal(np.asarray(got.todense()), D[:, keep], fn.__name__)
        ctx.check(got.dtype == M.dtype, "dtype changed")
        ctx.equal(np.asarray(M.todense()), D, "the argument of " + fn.__name__)
