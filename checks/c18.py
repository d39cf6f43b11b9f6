"""C18: loading saved datasets."""
import os
import pickle as pkl
import shutil
import tempfile

import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import dsets, gen
from pbt import Check
from sidetopics.model.common import DataSet

CHECK = Check("C18", "datasets with any subset of the five files, any storage type, with a generated row order or limit; "
              "non-trivial = two or more documents and at least one side file",
              ["files are pickles as the class documents them; order and limit are not combined"])


@st.composite
def case(draw):
    c = draw(dsets.case(max_d=9))
    D = len(c["w"])
    c["mode"] = draw(st.sampled_from(["plain", "order", "limit"]))
    if c["mode"] == "order":
        p = draw(st.permutations(list(range(D))))
        c["order"] = p[:draw(st.integers(1, D))]
    if c["mode"] == "limit":
        c["limit"] = draw(st.integers(0, D + 2))
    c["catlist"] = draw(st.one_of(st.none(), st.lists(st.lists(st.sampled_from(["a", "bb", "c d", "x", " y ", "t\t"]), min_size=1, max_size=3),
                                                      min_size=D, max_size=D)))
    c["open_end"] = draw(st.booleans())
    return c


@CHECK.sub(case(), quick=2000, shards=6)
def round_trip(c, ctx):
    base = dsets.build(c)
    full = dsets.snapshot(base)
    D = len(c["w"])
    tmp = tempfile.mkdtemp(prefix="verif-c18-")
    try:
        def save(name, obj):
            path = os.path.join(tmp, name)
            with open(path, "wb") as f:
                pkl.dump(obj, f)
            return path
        kw = {"words_file": save("words", base.words)}
        side = 0
        if base.feats is not None:
            kw["feats_file"] = save("feats", base.feats)
            side += 1
        if base.links is not None:
            kw["links_file"] = save("links", base.links)
            side += 1
        if base.word_dict is not None:
            kw["word_dict_file"] = save("dict", base.word_dict)
            side += 1
        cats = None
        if c["catlist"] is not None:
            cats = c["catlist"]
            flat = []
            for cs in cats:
                flat += cs[:-1] + [cs[-1] + "\n"]
            if c["open_end"]:
                flat[-1] = flat[-1][:-1]
            kw["doc_category_file"] = save("cats", flat)
            side += 1
        ctx.nontrivial(D > 1 and side > 0)
        ctx.label(c["mode"])
        ctx.label("categories", cats is not None)
        want = dict(full, cats=cats, order=list(range(D)))
        if c["mode"] == "order":
            kw["order"] = np.array(c["order"])
        if c["mode"] == "limit":
            kw["limit"] = c["limit"]
        ds = DataSet.from_files(**kw)
        if c["mode"] != "plain":
            idx = c["order"] if c["mode"] == "order" else list(range(D if c["limit"] == 0 else min(D, c["limit"])))
            sq = full["links"] is not None and len(full["links"]) == len(full["links"][0])
            want.update(words=dsets.rows(full["words"], idx), feats=dsets.rows(full["feats"], idx), cats=dsets.rows(cats, idx),
                        links=dsets.cell(full["links"], idx, idx) if sq else dsets.rows(full["links"], idx))
            want.pop("order")
            if c["mode"] == "limit":
                want["order"] = idx
        got = dsets.snapshot(ds)
        dsets.same(ctx, got, want, "loaded dataset")
        dsets.consistent(ctx, ds, "loaded dataset")
        ctx.check(type(ds.words) is ssp.csr_matrix, "words are not CSR")
        ctx.check(ds.words.dtype == base.words.dtype, "words changed type")
        ctx.check(ds.doc_count == len(want["words"]), "document count")
    finally:
        shutil.rmtree(tmp)


@CHECK.sub(dsets.case(ids=False, empty_rows=True), quick=600)
def dictionary_of_counts(c, ctx):
    """The stand-in dictionary for gensim counts documents per word."""
    ds = dsets.build(c)
    W = np.array(c["w"])
    ctx.nontrivial((W > 0).sum() > 1)
    d = ds.gensim_dictionary()
    df = (W > 0).sum(axis=0)
    ctx.equal({int(k): int(v) for k, v in d.dfs.items() if v}, {t: int(df[t]) for t in range(W.shape[1]) if df[t]}, "document frequencies")
    ctx.check(d.num_docs == len(W), "number of documents")
    ctx.check(d.num_pos == W.sum(), "number of tokens: %r" % d.num_pos)
