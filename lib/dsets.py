"""Generated datasets whose rows identify themselves, and the list-of-records view of one."""
import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import gen
from sidetopics.model.common import DataSet

LINKS = [0, 0, 1, 0, 1, 2, 0, 0, 3, 0, 1, 0, 0, 0, 1, 5]
BITS = [0, 1, 0, 0, 1, 0, 1, 1, 0, 0, 0, 1, 0, 1, 0, 1]


@st.composite
def case(draw, min_d=1, max_d=9, max_t=6, links="maybe", feats="maybe", square=None, ids=True,
         empty_rows=False, big=False, cats="maybe", dictionary="maybe"):
    w = draw(gen.counts(min_d=min_d, max_d=max_d, min_t=1, max_t=max_t, empty_rows=empty_rows, big=big, wide=130 if max_d >= 9 else 0))
    D, T = len(w), len(w[0])
    if ids:      # the last column names the document
        for d in range(D):
            w[d].append(d + 1)
    c = {"w": w, "wt": draw(st.sampled_from(["int32", "float64", "float32", "int64"]))}
    has = {"maybe": draw(st.booleans()), "yes": True, "no": False}
    if has[feats] if feats != "maybe" else draw(st.booleans()):
        F = draw(st.integers(1, 4))
        if max_d >= 9 and gen.rare(draw):        # many features
            F = draw(st.sampled_from([9, 17, 33, 65]))
            rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
            c["x"] = (rng.rand(D, F) < rng.rand(F)).astype(int).tolist()
        else:
            c["x"] = draw(gen.table(D, F, BITS))
        c["xt"] = draw(st.sampled_from(["float64", "float32", "int32"]))
    if links == "yes" or (links == "maybe" and draw(st.booleans())):
        sq = draw(st.booleans()) if square is None else square
        P = D if sq else draw(st.integers(1, 7))
        if D > 16:
            P = D if sq else max(P, D // 2)
            rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
            c["l"] = np.array(LINKS)[rng.randint(0, 16, (D, P)) * (rng.rand(D, P) < 0.3)].tolist()
        else:
            c["l"] = draw(gen.table(D, P, LINKS))
        c["lt"] = draw(st.sampled_from(["float64", "int32", "float32"]))
    if cats == "maybe" and draw(st.booleans()):
        c["cats"] = draw(st.sampled_from(["list", "array", "lists"]))
    if dictionary == "maybe" and draw(st.booleans()):
        c["dict"] = draw(st.sampled_from(["list", "array"]))
    return c


def build(c, order=None, debug=True):
    D = len(c["w"])
    T = len(c["w"][0])
    words = gen.csr(c["w"], c["wt"])
    feats = ssp.csr_matrix(np.array(c["x"], dtype=c["xt"])) if "x" in c else None
    links = ssp.csr_matrix(np.array(c["l"], dtype=c["lt"])) if "l" in c else None
    cats = None
    if "cats" in c:
        cats = {"list": ["c%d" % d for d in range(D)], "lists": [["c%d" % d, "k"] for d in range(D)],
                "array": np.array(["c%d" % d for d in range(D)])}[c["cats"]]
    wd = None
    if "dict" in c:
        wd = ["w%d" % t for t in range(T)]
        if c["dict"] == "array":
            wd = np.array(wd)
    return DataSet(words, feats, links, word_dict=wd, doc_categories=cats, order=order, debug=debug)


def dense(m):
    return None if m is None else np.asarray(m.todense() if ssp.issparse(m) else m)


def plain(x):
    """A comparable, storage-independent picture of one value."""
    if x is None:
        return None
    if ssp.issparse(x):
        x = np.asarray(x.todense())
    if isinstance(x, np.ndarray):
        return x.tolist()
    return [plain(i) if isinstance(i, (list, np.ndarray)) else (i.item() if isinstance(i, np.generic) else i) for i in x]


def snapshot(ds):
    return {"words": plain(ds.words), "feats": plain(ds.feats), "links": plain(ds.links),
            "cats": plain(ds.doc_categories), "dict": plain(ds.word_dict), "order": plain(np.asarray(ds.order))}


def rows(x, idx):
    return None if x is None else [x[i] for i in idx]


def cell(x, idx, jdx):
    return None if x is None else [[x[i][j] for j in jdx] for i in idx]


def same(ctx, got, want, what):
    for k in want:
        if got[k] != want[k]:
            ctx.fail("%s: %s is %r, expected %r" % (what, k, got[k], want[k]))


def consistent(ctx, ds, what):
    """The figures a dataset gives of itself are those of its matrices, whenever they are asked for."""
    w = dense(ds.words)
    ctx.equal(np.ravel(ds.doc_lens).tolist(), w.sum(axis=1, dtype=np.float64).tolist(), "%s: document lengths" % what)
    ctx.equal([float(ds.word_count), ds.doc_count, len(ds)], [float(w.sum(dtype=np.float64)), w.shape[0], w.shape[0]],
              "%s: counts of words and documents" % what)
    ctx.equal([ds.has_links(), ds.has_features()], [ds.links is not None, ds.feats is not None], "%s: has links, features" % what)
    if ds.links is not None:
        n = float(dense(ds.links).sum(dtype=np.float64))
        ctx.equal([float(ds.link_count), float(ds.word_and_link_count)], [n, n + float(w.sum(dtype=np.float64))],
                  "%s: count of links" % what)
