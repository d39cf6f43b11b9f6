"""C11: word lists and flattened token lists hold every token exactly once."""
import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import gen
from pbt import Check, need
from sidetopics.model import lda_cvb, lda_cvb0, lda_gibbs_fast
from sidetopics.model.common import DataSet

CHECK = Check("C11", "at least two tokens and two distinct words",
              ["the order of the tokens inside a document is free"])

MODS = {"lda_cvb": lda_cvb, "lda_cvb0": lda_cvb0}


@st.composite
def corpus(draw, dtypes):
    m = draw(gen.counts(min_d=1, max_d=8, min_t=1, max_t=9, empty_rows=True, big=True, wide=130))
    if gen.rare(draw):       # a word that fills a document
        m[draw(st.integers(0, len(m) - 1))][draw(st.integers(0, len(m[0]) - 1))] = draw(st.sampled_from([1025, 5000, 33000, 65000]))
    return {"m": m, "dtype": draw(st.sampled_from(dtypes)), "mod": draw(st.sampled_from(sorted(MODS))),
            "messy": draw(st.booleans()), "noise": draw(st.booleans()), "seed": draw(gen.seeds),
            "stretch": draw(st.sampled_from([1, 1, 1, 997, 7001])),
            "edge": draw(st.sampled_from([65535, 65536, 65537, 65538, 70000])) if gen.rare(draw) else 0,
            "rows": draw(st.lists(st.integers(0, 7), max_size=6)) if draw(st.booleans()) else None}


def build(c):
    m = c["m"]
    w = gen.messy_csr(m, c["dtype"], c["noise"], c["seed"]) if c["messy"] else gen.csr(m, c["dtype"])
    if c["stretch"] > 1:     # large word identifiers, up to 65535
        k = min(c["stretch"], 65536 // w.shape[1])
        T = w.shape[1] * k
        w = ssp.csr_matrix((w.data, (w.indices * k + k - 1).astype(np.int32), w.indptr),
                           shape=(w.shape[0], T))
    if c.get("edge"):        # the last identifiers a vocabulary of this size has
        w = ssp.csr_matrix((w.data, (w.indices + c["edge"] - w.shape[1]).astype(np.int32), w.indptr),
                           shape=(w.shape[0], c["edge"]))
    return w


def want_of(w):
    """per document: the sorted list of its tokens, from the stored entries"""
    out = []
    for d in range(w.shape[0]):
        toks = []
        for i in range(w.indptr[d], w.indptr[d + 1]):
            toks += [int(w.indices[i])] * int(w.data[i])
        out.append(sorted(toks))
    return out


def prepare(c, ctx):
    w = build(c)
    if c["rows"] is not None:
        rows = [r for r in c["rows"] if r < w.shape[0]]
        if rows:
            w = w[rows, :]
    want = want_of(w)
    ctx.nontrivial(sum(map(len, want)) > 1 and len({t for x in want for t in x}) > 1)
    ctx.label("empty document", any(not x for x in want))
    ctx.label("word identifier above 32767", any(t > 32767 for x in want for t in x))
    return w, want


@CHECK.sub(corpus(["int32", "float32", "float64"]), quick=5000, shards=2)
def word_lists(c, ctx):
    mod = MODS[c["mod"]]
    need(mod, "toWordList")
    w, want = prepare(c, ctx)
    snap = (w.data.copy(), w.indices.copy(), w.indptr.copy())
    lists, lens = mod.toWordList(w)
    lists, lens = np.asarray(lists), np.asarray(lens)
    ctx.equal(lens.reshape(-1), np.array([len(x) for x in want]), "document lengths")
    ctx.check(lens.ndim == 1, "lengths are no vector")
    ctx.check(lists.shape[0] == len(want), "one row per document")
    for d, toks in enumerate(want):
        ctx.equal(sorted(int(x) for x in lists[d, :len(toks)]), toks, "tokens of document %d" % d)
    for a, b in zip((w.data, w.indices, w.indptr), snap):
        ctx.equal(a, b, "the matrix given")


@CHECK.sub(corpus(["int32"]), quick=3000, shards=2)
def flat_gibbs(c, ctx):
    need(lda_gibbs_fast, "flatten")
    flat(c, ctx, lda_gibbs_fast)


@CHECK.sub(corpus(["uint16"]), quick=3000)
def flat_dmr(c, ctx):
    from sidetopics.model import dmr_fast
    need(dmr_fast, "flatten")
    flat(c, ctx, dmr_fast)


def flat(c, ctx, mod):
    w, want = prepare(c, ctx)
    snap = (w.data.copy(), w.indices.copy(), w.indptr.copy())
    try:
        toks, lens = mod.flatten(w)
    except ValueError:
        ctx.check(w.shape[1] > 65536, "a vocabulary of %d words is refused" % w.shape[1])
        ctx.label("too many words")
        return
    toks, lens = np.asarray(toks), np.asarray(lens)
    ctx.check(lens.ndim == 1, "lengths are no vector")
    ctx.equal(lens, np.array([len(x) for x in want]).astype(lens.dtype), "document lengths")
    ctx.equal(len(toks), sum(map(len, want)), "number of tokens")
    at = 0
    for d, x in enumerate(want):
        ctx.equal(sorted(int(t) for t in toks[at:at + len(x)]), x, "tokens of document %d" % d)
        at += len(x)
    for a, b in zip((w.data, w.indices, w.indptr), snap):
        ctx.equal(a, b, "the matrix given")


@CHECK.sub(corpus(["int32", "float32", "float64"]), quick=1500, name="query_states")
def query_states(c, ctx):
    """the states the trainers build hold the tokens of the corpus"""
    from sidetopics.model import lda_gibbs
    c = dict(c, stretch=1, edge=0)
    w, want = prepare(c, ctx)
    if not any(want):
        return
    data = DataSet(w)
    for mod in (lda_cvb, lda_cvb0, lda_gibbs):
        model = mod.newModelAtRandom(data, 3, dtype=np.float64)
        q = mod.newQueryState(data, model)
        lens = np.asarray(q.docLens)
        ctx.equal(lens.astype(np.int64), np.array([len(x) for x in want]), "lengths in %s" % mod.__name__)
        at = 0
        for d, x in enumerate(want):
            got = q.w_list[at:at + len(x)] if mod is lda_gibbs else q.W_list[d, :len(x)]
            ctx.equal(sorted(int(t) for t in got), x, "tokens in %s" % mod.__name__)
            at += len(x)
