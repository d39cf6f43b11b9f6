"""C16: link splits."""
import numpy as np
from hypothesis import strategies as st

import dsets, gen
from pbt import Check
from sidetopics.model.common import DataSet

CHECK = Check("C16", "datasets with directed, symmetric (self-links included) and rectangular link matrices, generated "
              "seed, fold and minimum; non-trivial = three or more links", ["link matrices hold no explicit zeros"])


@st.composite
def case(draw, square=None):
    c = draw(dsets.case(links="yes", square=square, max_d=9))
    c["seed"] = draw(gen.seeds)
    c["order"] = draw(st.one_of(st.none(), st.permutations(list(range(len(c["w"]))))))
    c["folds"] = draw(st.sampled_from([2, 3, 4, 5, 2, 3, 4, 5, 7, 11]))
    c["min"] = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 9, 20]))
    if square and len(c["l"]) <= 16 and draw(st.booleans()):      # a dense block: many links per document
        for r in c["l"]:
            for j in range(len(r)):
                r[j] = r[j] or (1 if draw(st.booleans()) else 0)
    return c


def rest_unchanged(ctx, part, full, what):
    s = dsets.snapshot(part)
    dsets.consistent(ctx, part, what)
    for k in ("words", "feats", "cats", "dict", "order"):
        if s[k] != full[k]:
            ctx.fail("%s: %s changed from %r to %r" % (what, k, full[k], s[k]))


def judge(ctx, L, A, B, what):
    ctx.equal((A + B).astype(float), L.astype(float), "%s: sum of both parts" % what)
    ctx.check(not ((A != 0) & (B != 0)).any(), "%s: a link is in both parts" % what)
    ctx.check((A >= 0).all() and (B >= 0).all(), "%s: negative weight" % what)


@CHECK.sub(case(), quick=2500, shards=2)
def directed(c, ctx):
    ds = dsets.build(c, None if c["order"] is None else np.array(c["order"]))
    full = dsets.snapshot(ds)
    L = dsets.dense(ds.links)
    ctx.nontrivial((L != 0).sum() >= 3)
    a, b = ds.link_prediction_split(symmetric=False, seed=c["seed"])
    A, B = dsets.dense(a.links), dsets.dense(b.links)
    judge(ctx, L, A, B, "directed split")
    n = int((L != 0).sum())
    ctx.check(abs(int((A != 0).sum()) - int((B != 0).sum())) <= 1, "the split is not in half: %d of %d" % ((A != 0).sum(), n))
    for p in (a, b):
        rest_unchanged(ctx, p, full, "directed split")
        ctx.check(p.links.shape == ds.links.shape and p.links.dtype == ds.links.dtype, "shape or type of the links")
    dsets.same(ctx, dsets.snapshot(ds), full, "the dataset after splitting")
    a2, b2 = ds.link_prediction_split(symmetric=False, seed=c["seed"])
    ctx.equal(dsets.dense(a2.links), A, "same seed, same split")


@CHECK.sub(case(square=True), quick=2500, shards=2)
def symmetric(c, ctx):
    l = c["l"]
    D = len(l)
    for i in range(D):
        for j in range(i):
            l[i][j] = l[j][i]
    ds = dsets.build(c, None if c["order"] is None else np.array(c["order"]))
    full = dsets.snapshot(ds)
    L = dsets.dense(ds.links)
    ctx.nontrivial((L != 0).sum() >= 3)
    ctx.label("self-links", np.diag(L).any())
    a, b = ds.link_prediction_split(symmetric=True, seed=c["seed"])
    A, B = dsets.dense(a.links), dsets.dense(b.links)
    judge(ctx, L, A, B, "symmetric split")
    for M in (A, B):
        ctx.equal(M, M.T, "symmetry")
    for p in (a, b):
        rest_unchanged(ctx, p, full, "symmetric split")
        ctx.check(p.links.shape == ds.links.shape, "shape of the links")
    ctx.equal(dsets.dense(ds.link_prediction_split(symmetric=True, seed=c["seed"])[0].links), A, "same seed, same split")
    dsets.same(ctx, dsets.snapshot(ds), full, "the dataset after splitting")


@CHECK.sub(case(square=True), quick=2500, shards=2)
def folded(c, ctx):
    ds = dsets.build(c, None if c["order"] is None else np.array(c["order"]))
    full = dsets.snapshot(ds)
    L = dsets.dense(ds.links)
    F, least = c["folds"], c["min"]
    per = (L != 0).sum(axis=1)
    ctx.nontrivial((per >= max(least, F)).any() and (per < least).any() or (per >= max(least, F)).sum() > 1)
    ctx.label("documents with too few links", (per < least).any())
    used = np.zeros(L.shape, dtype=int)
    for f in range(F):
        a, b, subset = ds.folded_link_prediction_split(least, f, F)
        A, B = dsets.dense(a.links), dsets.dense(b.links)
        judge(ctx, L, A, B, "fold %d" % f)
        ctx.equal([int(i) for i in subset], [d for d in range(len(L)) if per[d] >= least], "documents with enough links")
        for d in range(len(L)):
            want = per[d] // F if per[d] >= least else 0
            ctx.check((B[d] != 0).sum() == want, "fold %d: document %d with %d links has %d in the query part, expected %d" % (f, d, per[d], (B[d] != 0).sum(), want))
        used += (B != 0)
        for p in (a, b):
            rest_unchanged(ctx, p, full, "fold %d" % f)
            ctx.check(p.links.shape == ds.links.shape and p.links.dtype == ds.links.dtype, "shape or type of the links")
    ctx.check(used.max() <= 1, "a link is queried in two folds")
    dsets.same(ctx, dsets.snapshot(ds), full, "the dataset after splitting")
    try:
        ds.folded_link_prediction_split(least, 0, F, symmetric=True)
    except ValueError:
        pass
    else:
        ctx.fail("a symmetric folded split is documented as unsupported but was given")
    nolinks = DataSet(ds.words, debug=True)
    for fn in (lambda: nolinks.link_prediction_split(), lambda: nolinks.folded_link_prediction_split(1, 0, 2)):
        try:
            fn()
        except AssertionError:
            continue
        ctx.fail("a link split without links was accepted")
