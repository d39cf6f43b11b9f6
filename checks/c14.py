"""C14: document completion."""
import numpy as np
from hypothesis import strategies as st

import dsets, gen
from pbt import Check

CHECK = Check("C14", "datasets of 1-9 documents with counts up to 300, empty documents, any count type, generated "
              "proportion, seed and minimum number of unique words; non-trivial = two or more tokens in some document "
              "and both parts non-empty")


@st.composite
def case(draw):
    c = draw(dsets.case(links="no", feats="no", ids=False, empty_rows=True, big=True, max_t=9))
    c["prop"] = draw(st.sampled_from([0.5, 0.1, 0.9, 0.25, 0.75, 0.99, 0.01, 1.0, 0.6]))
    c["seed"] = draw(gen.seeds)
    c["min"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    c["order"] = draw(st.one_of(st.none(), st.permutations(list(range(len(c["w"]))))))
    return c


@CHECK.sub(case(), quick=4000, shards=4)
def completion(c, ctx):
    order = None if c["order"] is None else np.array(c["order"])
    ds = dsets.build(c, order)
    full = dsets.snapshot(ds)
    dsets.consistent(ctx, ds, "the dataset")
    W = np.array(c["w"])
    kw = dict(seed=c["seed"], est_prop=c["prop"], debug=True)
    a, b = ds.doc_completion_split(**kw)
    A, B = dsets.dense(a.words), dsets.dense(b.words)
    ctx.nontrivial(W.sum(axis=1).max() >= 2 and A.sum() > 0 and B.sum() > 0)
    ctx.label("proportion over 0.7", c["prop"] > 0.7)
    ctx.label("minimum", c["min"] > 0)
    ctx.check((A >= 0).all() and (B >= 0).all(), "a part holds a negative count")
    ctx.equal((A + B).astype(float), W.astype(float), "sum of the two parts")
    ctx.check((A == np.floor(A)).all(), "counts are not whole")
    ctx.check(a.words.dtype == ds.words.dtype and b.words.dtype == ds.words.dtype, "count type changed")
    for p in (a, b):
        s = dsets.snapshot(p)
        ctx.check(all(s[k] == full[k] for k in ("cats", "dict", "order", "feats", "links")), "side information changed")
        dsets.consistent(ctx, p, "a part")
    dsets.same(ctx, dsets.snapshot(ds), full, "the dataset after splitting")
    a2, b2 = ds.doc_completion_split(**kw)
    ctx.equal(dsets.dense(a2.words), A, "same seed, estimation part")
    ctx.equal(dsets.dense(b2.words), B, "same seed, evaluation part")
    # the requested share, as far as rounding and noise allow: large counts follow it
    large = W >= 100
    if large.any():
        share = A[large] / W[large]
        ctx.check((np.abs(share - c["prop"]) < 0.08).all(), lambda: "share of a large count: %r, asked for %r" % (share, c["prop"]))
    if c["min"] > 0:
        ua, ub = (A > 0).sum(axis=1), (B > 0).sum(axis=1)
        keep = [int(d) for d in np.where((ua >= c["min"]) & (ub >= c["min"]))[0]]
        if not keep:
            return
        am, bm = ds.doc_completion_split(min_unique_word_count=c["min"], **kw)
        ctx.label("removed documents", len(keep) < len(W))
        for p, want in ((am, A), (bm, B)):
            s = dsets.snapshot(p)
            ctx.equal(dsets.dense(p.words), want[keep], "documents with enough unique words")
            ctx.equal(s["order"], dsets.rows(full["order"], keep), "their order")
            ctx.equal(s["cats"], dsets.rows(full["cats"], keep), "their categories")
            ctx.equal(s["dict"], full["dict"], "the dictionary")


@CHECK.sub(dsets.case(feats="yes"), quick=300)
def with_features(c, ctx):
    ds = dsets.build(c)
    full = dsets.snapshot(ds)
    a, b = ds.doc_completion_split(debug=True)
    ctx.nontrivial(len(c["w"]) > 1)
    for p in (a, b):
        dsets.same(ctx, dsets.snapshot(p), full, "documents with features are given whole to both parts")


@CHECK.sub(dsets.case(feats="no", links="yes"), quick=600)
def with_links(c, ctx):
    ds = dsets.build(c)
    full = dsets.snapshot(ds)
    a, b = ds.doc_completion_split(debug=True)
    ctx.nontrivial(len(c["w"]) > 1)
    A, B = dsets.dense(a.words), dsets.dense(b.words)
    ctx.equal((A + B).tolist(), full["words"], "sum of the two parts")
    ctx.check((A >= 0).all() and (B >= 0).all(), "a part holds a negative count")
    for p in (a, b):
        s = dsets.snapshot(p)
        ctx.check(all(s[k] == full[k] for k in ("cats", "dict", "order", "links")), "side information changed")
