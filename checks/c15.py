"""C15: sequences of dataset transformations against a list-of-records model."""
import copy

import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import dsets, gen
from pbt import Check
from sidetopics.model.common import DataSet

CHECK = Check("C15", "datasets of 1-9 documents with any side information and a sequence of 1-8 operations (prune and "
              "shuffle, vocabulary pruning, folds, copies, conversions, intercept, graph conversions, replacement of "
              "parts, limit); non-trivial = two or more operations took effect on two or more documents",
              ["operations that would leave no document or no word are not issued"])

OPS = ["prune", "prune", "minfreq", "fold_train", "fold_query", "copy", "deepcopy", "dtype", "dtypes", "intercept",
       "undirected", "binary", "replace", "limit"]


@st.composite
def case(draw):
    c = draw(dsets.case(max_d=9))
    if "x" in c and draw(st.booleans()):       # features that are no indicators; a constant one may be no intercept
        for k in range(len(c["x"][0])):
            lo, hi = draw(st.sampled_from([(1, 1), (0, 2), (1, 3), (-1, 1), (0, 1), (2, 2), (0.5, 1)]))
            for r in c["x"]:
                r[k] = hi if r[k] else lo
        c["xt"] = "float64"
    n = draw(st.integers(1, 8))
    c["ops"] = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(st.integers(0, 999))]
                for _ in range(n)]
    if len(c["w"]) > 16 and draw(st.booleans()):
        c["ops"].insert(draw(st.integers(0, n)), ["undirected", 0, 0, 0])
    return c


class Model:
    def __init__(self, snap):
        self.s = copy.deepcopy(snap)

    @property
    def n(self):
        return len(self.s["words"])

    def square(self):
        l = self.s["links"]
        return l is not None and len(l) > 0 and len(l) == len(l[0])

    def select(self, idx, cols_too):
        sq = cols_too and self.square()
        for k in ("words", "feats", "cats"):
            self.s[k] = dsets.rows(self.s[k], idx)
        if self.s["links"] is not None:
            l = self.s["links"]
            self.s["links"] = dsets.cell(l, idx, idx) if sq else dsets.rows(l, idx)

    def unique(self, i):
        return sum(1 for v in self.s["words"][i] if v != 0)


def survivors(m, min_unique, min_link):
    """Which rows pruning must leave (as a set)."""
    keep = [i for i in range(m.n) if m.unique(i) >= min_unique]
    if min_link == 0 or m.s["links"] is None:
        return keep
    sub = Model(m.s)
    sub.select(keep, True)
    ids = list(keep)
    while ids:
        ok = [i for i in range(sub.n) if sum(sub.s["links"][i]) >= min_link]
        if len(ok) == sub.n:
            break
        ids = [ids[i] for i in ok]
        if not ids:
            return []
        # removing rows makes a rectangular matrix rectangular still; a square one stays square
        sub.select(ok, True)
    return ids


@CHECK.sub(case(), quick=4000, shards=6)
def histories(c, ctx):
    ds = dsets.build(c)
    dsets.consistent(ctx, ds, "at first")
    m = Model(dsets.snapshot(ds))
    took = 0
    bystanders = []          # deep copies and the originals they must not disturb
    for op, p, q, seed in c["ops"]:
        before_n = m.n
        if op == "prune":
            want = survivors(m, p, q)
            # a rectangular link matrix that becomes square half-way is treated as a square one from then on
            if m.s["links"] is not None and not m.square() and q > 0:
                want = survivors(m, p, 0)
                q = 0
            if not want:
                continue
            order = [int(i) for i in ds.prune_and_shuffle(min_unique_word_count=p, min_link_count=q, seed=seed)]
            ctx.equal(sorted(order), sorted(want), "documents that survive pruning")
            # links lose the columns of pruned documents together with their rows
            m.select(order, True)
            m.s["order"] = order
        elif op == "minfreq":
            keep = [t for t in range(len(m.s["words"][0])) if sum(1 for r in m.s["words"] if r[t] != 0) >= p]
            if not keep:
                continue
            ds = ds.words_with_min_freq(p)
            m.s["words"] = [[r[t] for t in keep] for r in m.s["words"]]
            m.s["dict"] = dsets.rows(m.s["dict"], keep)
        elif op in ("fold_train", "fold_query"):
            F = p + 2
            size = -(-m.n // F)
            if m.n < 2 or size >= m.n:
                continue
            f = seed % F
            tr, qr = ds.cross_valid_split_indices(f, F)
            ds = ds.cross_valid_split(f, F, debug=True)[0 if op == "fold_train" else 1]
            idx = [int(i) for i in (tr if op == "fold_train" else qr)]
            m.select(idx, False)
            m.s["order"] = dsets.rows(m.s["order"], idx)
        elif op == "copy":
            ds = ds.copy()
        elif op == "deepcopy":
            d2 = ds.copy(deep=True)
            dsets.same(ctx, dsets.snapshot(d2), m.s, "a deep copy")
            was = dsets.snapshot(ds)
            victim, survivor = (ds, d2) if p % 2 else (d2, ds)
            victim.words.data[:] = 77
            for x in (victim.feats, victim.links):
                if x is not None:
                    x.data[:] = 55
            if victim.word_dict is not None and len(victim.word_dict):
                victim.word_dict[0] = "zz"
            if victim.doc_categories is not None and len(victim.doc_categories):
                victim.doc_categories[0] = "zz"
            if len(victim.order):
                victim.order[0] = 999
            dsets.same(ctx, dsets.snapshot(survivor), was, "the other side of a deep copy, after changes to this side")
            ds = survivor
        elif op == "dtype":
            dt = [np.float64, np.float32, np.int32, np.int64][p]
            ds.convert_to_dtype(dt)
            if "int" in str(dt) and m.s["feats"] is not None:
                m.s["feats"] = [[int(v) for v in r] for r in m.s["feats"]]
            ctx.check(ds.words.dtype == dt and (ds.feats is None or ds.feats.dtype == dt)
                      and (ds.links is None or ds.links.dtype == dt), "dtype after conversion")
        elif op == "dtypes":
            dts = [[np.float64, np.float32, np.int32][(p + k) % 3] for k in range(3)]
            ds.convert_to_dtypes(*dts)
            if dts[1] == np.int32 and m.s["feats"] is not None:
                m.s["feats"] = [[int(v) for v in r] for r in m.s["feats"]]
            ctx.check(ds.words.dtype == dts[0], "words dtype")
            ctx.check(ds.feats is None or ds.feats.dtype == dts[1], "features dtype")
            ctx.check(ds.links is None or ds.links.dtype == dts[2], "links dtype")
        elif op == "intercept":
            got = ds.add_intercept_to_feats_if_required()
            f = m.s["feats"]
            if f is None:
                ctx.check(not got, "an intercept was added to no features")
            else:
                full = any(all(r[k] == 1 for r in f) for k in range(len(f[0])))
                ctx.check(bool(got) == (not full), "add_intercept says %r" % got)
                if not full:
                    m.s["feats"] = [r + [1] for r in f]
        elif op == "undirected":
            if not m.square():
                continue
            ds.convert_to_undirected_graph()
            l = m.s["links"]
            m.s["links"] = [[l[i][j] + l[j][i] for j in range(m.n)] for i in range(m.n)]
        elif op == "binary":
            if m.s["links"] is None:
                continue
            ds = ds.copy(deep=True)
            ds.convert_to_binary_link_matrix()
            m.s["links"] = [[1 if v else 0 for v in r] for r in m.s["links"]]
        elif op == "replace":
            part = ["words", "feats", "links"][p % 3]
            new = (np.arange(m.n * 3).reshape(m.n, 3) % 5 + 1)
            ds = ds.copy_with_changes(**{part: ssp.csr_matrix(new)})
            m.s[part] = new.tolist()
            if part == "words" and m.s["dict"] is not None:
                ds = ds.copy_with_changes(word_dict=["a", "b", "c"])
                m.s["dict"] = ["a", "b", "c"]
        elif op == "limit":
            lim = 1 + seed % (m.n + 2)
            bystanders.append((ds, dsets.snapshot(ds)))
            ds = DataSet(ds.words, ds.feats, ds.links, ds.word_dict, ds.doc_categories, order=ds.order, limit=lim, debug=True)
            if lim < m.n:
                idx = list(range(lim))
                m.select(idx, True)
                m.s["order"] = m.s["order"][:lim]
        took += 1
        ctx.label(op)
        dsets.same(ctx, dsets.snapshot(ds), m.s, "after %s" % op)
        dsets.consistent(ctx, ds, "after %s" % op)
    for b, was in bystanders:
        # the original of a limited dataset may share storage, but keeps all its documents
        ctx.check(b.doc_count == len(was["words"]), "the original of a limited dataset lost documents")
    ctx.nontrivial(took >= 2 and len(c["w"]) >= 2)


@CHECK.sub(st.fixed_dictionaries({
    "D": st.integers(2, 5), "words": st.sampled_from(["csr", "coo", "csc", "dense"]), "links": st.sampled_from([None, "csr", "coo", "dense"]),
    "off": st.fixed_dictionaries({k: st.sampled_from([0, 0, 0, -1, 1]) for k in ("feats", "links", "cats")}), "given": st.booleans()}), quick=400)
def construction(c, ctx):
    """Parts with other numbers of documents are refused; matrices of another format are taken as they are."""
    D = c["D"]

    def mat(n, k, fmt):
        a = (np.arange(n * k).reshape(n, k) * 7) % 4
        return a if fmt == "dense" else ssp.csr_matrix(a).asformat(fmt)
    off = c["off"]
    bad = (c["given"] and (off["feats"] or off["cats"])) or (c["links"] and off["links"])
    words, links = mat(D, 5, c["words"]), None if c["links"] is None else mat(D + off["links"], D, c["links"])
    feats = mat(D + off["feats"], 3, "csr") if c["given"] else None
    cats = ["c%d" % i for i in range(D + off["cats"])] if c["given"] else None
    ctx.nontrivial(bad or c["words"] != "csr")
    try:
        ds = DataSet(words, feats, links, doc_categories=cats)
    except Exception:
        ctx.check(bad, "a proper dataset was refused")
        return
    ctx.check(not bad, "parts with %r more documents than the words were accepted" % off)
    ctx.check(ds.words.format == "csr" and (links is None or ds.links.format == "csr"), "format of the matrices")
    ctx.equal(ds.words.toarray().tolist(), mat(D, 5, "dense").tolist(), "words")
    ctx.check((ds.links is None) == (links is None), "links")
    if links is not None:
        ctx.equal(ds.links.toarray().tolist(), mat(D, D, "dense").tolist(), "links")


@CHECK.sub(dsets.case(min_d=2), quick=600)
def totals(c, ctx):
    """Counts reported by a dataset."""
    ds = dsets.build(c)
    s = dsets.snapshot(ds)
    ctx.nontrivial(len(c["w"]) > 1)
    ctx.check(ds.word_count == sum(map(sum, s["words"])), "word count")
    ctx.equal(np.ravel(ds.doc_lens).tolist(), [sum(r) for r in s["words"]], "document lengths")
    if s["links"] is not None:
        ctx.check(ds.link_count == sum(map(sum, s["links"])), "link count")
    ctx.check(ds.word_and_link_count == sum(map(sum, s["words"])) + (sum(map(sum, s["links"])) if s["links"] else 0), "word and link count")
    other = ds.copy(deep=True)
    a = ds.prune_and_shuffle(seed=7)
    b = other.prune_and_shuffle(seed=7)
    ctx.equal(np.asarray(a), np.asarray(b), "same seed, same shuffle")
    for bad in ("feats", "links", "cats"):
        n = len(s["words"])
        kw = {"feats": {"feats": ssp.csr_matrix(np.ones((n + 1, 2)))}, "links": {"links": ssp.csr_matrix(np.ones((n + 1, 2)))},
              "cats": {"doc_categories": ["a"] * (n + 1)}}[bad]
        try:
            DataSet(ds.words, debug=True, **kw)
        except AssertionError:
            continue
        ctx.fail("a dataset with the wrong number of rows of %s was accepted" % bad)
    dense = DataSet(dsets.dense(ds.words), links=None if ds.links is None else dsets.dense(ds.links))
    ctx.check(type(dense.words) is ssp.csr_matrix, "dense words are not converted to CSR")
    ctx.equal(dsets.plain(dense.words), dsets.plain(ds.words), "words given as a dense matrix")
