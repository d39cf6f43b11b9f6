"""C13: cross-validation folds."""
import numpy as np
from hypothesis import strategies as st

import dsets
from pbt import Check, Discard

CHECK = Check("C13", "datasets of 2-14 documents with any combination of features, links (square or not), categories "
              "(list, list of lists, array), dictionary and a permuted order; 2 to 16 folds; non-trivial = three or "
              "more documents, the number of folds does not divide them or side information is present",
              ["when the folds do not divide the documents evenly, the folds keep one size and the last ones "
               "wrap round to the first documents, as the index arithmetic does deliberately"])


@st.composite
def case(draw):
    c = draw(dsets.case(min_d=2, max_d=14))
    D = len(c["w"])
    c["folds"] = draw(st.integers(2, max(2, D + 2)))
    c["order"] = draw(st.one_of(st.none(), st.permutations(list(range(D)))))
    return c


@CHECK.sub(case(), quick=3000, shards=5)
def folds(c, ctx):
    D, F = len(c["w"]), c["folds"]
    size = -(-D // F)
    if size >= D:
        raise Discard()
    ds = dsets.build(c, None if c["order"] is None else np.array(c["order"]))
    full = dsets.snapshot(ds)
    dsets.consistent(ctx, ds, "the dataset")
    ctx.nontrivial(D > 2 and (D % F != 0 or "x" in c or "l" in c or "cats" in c))
    ctx.label("folds do not divide", D % F != 0)
    ctx.label("links", "l" in c)
    ctx.label("categories", "cats" in c)
    seen = []
    for f in range(F):
        tr, qr = ds.cross_valid_split_indices(f, F)
        tr, qr = [int(i) for i in tr], [int(i) for i in qr]
        train, query = ds.cross_valid_split(f, F, debug=True)
        ctx.equal(sorted(tr + qr), list(range(D)), "fold %d: training and query documents together" % f)
        ctx.check(len(qr) == size, "fold %d has %d query documents, expected %d" % (f, len(qr), size))
        seen += qr
        for part, idx in ((train, tr), (query, qr)):
            snap = dsets.snapshot(part)
            ids = [r[-1] for r in snap["words"]]
            ctx.equal([int(i) - 1 for i in ids], idx, "fold %d: documents" % f)
            want = {"words": dsets.rows(full["words"], idx), "feats": dsets.rows(full["feats"], idx),
                    "links": dsets.rows(full["links"], idx), "cats": dsets.rows(full["cats"], idx),
                    "dict": full["dict"], "order": dsets.rows(full["order"], idx)}
            dsets.same(ctx, snap, want, "fold %d" % f)
            dsets.consistent(ctx, part, "fold %d" % f)
    ctx.equal(sorted(set(seen)), list(range(D)), "documents queried over all folds")
    if D % F == 0:
        ctx.equal(sorted(seen), list(range(D)), "each document queried exactly once")
    else:
        ctx.check(all(seen.count(d) <= 1 + -(-(size * F - D) // D) for d in range(D)), "a document is queried too often")
    dsets.same(ctx, dsets.snapshot(ds), full, "the dataset after splitting")
    for bad in (F, F + 3):
        try:
            ds.cross_valid_split(bad, F)
        except AssertionError:
            continue
        ctx.fail("fold %d of %d was accepted" % (bad, F))
