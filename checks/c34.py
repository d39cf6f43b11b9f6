"""C34: option parsing, tag selection and splitting, roll-ups, tables, file names and saved models."""
import contextlib
import io
import os
import pickle
import shutil
import tempfile
import types

import numpy as np
import scipy.sparse as ssp
from hypothesis import strategies as st

import gen
from pbt import Check
import sidetopics.run.__main__ as run
import sidetopics.model.lda_gibbs as lda_gibbs
import sidetopics.model.lda_vb_python as lda_vb
from sidetopics.model.common import DataSet

CHECK = Check("C34", "generated option strings, word matrices with tag columns and split seeds, per-fold score tables, "
              "model names and saved states; non-trivial = more than one element to place (rows and tags, folds, models)")

DTYPES = {"f8": np.float64, "f64": np.float64, "f4": np.float32, "f32": np.float32,
          "i4": np.int32, "i32": np.int32, "u2": np.uint16, "u16": np.uint16}


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix="c34-")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


@st.composite
def dtype_case(draw):
    word = st.one_of(st.sampled_from(sorted(DTYPES)), st.sampled_from(sorted(DTYPES)),
                     st.text("fiuFIU123468 ", max_size=4))
    return {"parts": draw(st.lists(word, min_size=1, max_size=2)), "upper": draw(st.booleans()),
            "pad": draw(st.sampled_from(["", " ", "  "]))}


@CHECK.sub(dtype_case(), quick=1500)
def dtypes(c, ctx):
    parts = [p.upper() if c["upper"] else p for p in c["parts"]]
    text = ":".join(c["pad"] + p + c["pad"] for p in parts)
    good = [p.strip().lower() in DTYPES for p in parts]
    ctx.nontrivial(len(parts) > 1 and all(good))
    ctx.label("accepted", all(good))
    try:
        got = run.parse_dtypes(text)
    except ValueError:
        ctx.check(not all(good), "%r refused" % text)
        return
    ctx.check(all(good), "%r accepted as %r" % (text, got))
    want = [DTYPES[p.strip().lower()] for p in parts]
    ctx.check(len(got) == 2, "two types are returned")
    ctx.equal(np.dtype(got[0]), np.dtype(want[0]), "data type")
    ctx.equal(np.dtype(got[1]), np.dtype(want[-1]), "model type")


LABEL = st.text("abcXYZ019_ -.é", min_size=0, max_size=6)


@CHECK.sub(st.one_of(st.none(), st.lists(st.tuples(LABEL, st.integers(0, 10 ** 6)), min_size=1, max_size=6)), quick=800)
def features_mask(c, ctx):
    ctx.nontrivial(c is not None and len(c) > 1)
    if c is None:
        ctx.check(run.parse_features_mask(types.SimpleNamespace(features_mask_str=None)) is None, "no mask")
        return
    text = ",".join("%s:%d" % (a, b) for a, b in c)
    got = run.parse_features_mask(types.SimpleNamespace(features_mask_str=text))
    ctx.equal([tuple(g) for g in got], [tuple(w) for w in c], "mask of %r" % text)


@st.composite
def words_case(draw):
    w = draw(gen.counts(max_d=8, min_t=1, max_t=9, empty_rows=True))
    T = len(w[0])
    return {"w": w, "dtype": draw(st.sampled_from(["int32", "float64", "float32", "uint16", "int64"])),
            "tags": draw(st.lists(st.integers(0, T - 1), min_size=0, max_size=T, unique=True)),
            "count": draw(st.integers(1, T + 2)), "p": draw(st.sampled_from([0.0, 0.25, 0.5, 0.9, 1.0])),
            "seed": draw(gen.seeds), "noise": draw(st.booleans()), "as": draw(st.sampled_from(["list", "set", "tuple"]))}


@CHECK.sub(words_case(), quick=1500)
def popular(c, ctx):
    T = len(c["w"][0])
    tags = c["tags"] or [c["seed"] % T]
    ctx.nontrivial(1 < len(tags) and c["count"] < len(tags))
    data = DataSet(gen.csr(c["w"], c["dtype"]), debug=True)
    totals = np.array(c["w"]).sum(axis=0)
    names = [("#t%d" if t in tags else "t#%d") % t for t in range(T)]
    for what, got, cands in [
            ("words", run.popular_indices(data, tags, c["count"]), tags),
            ("hashtags", run.popular_hashtag_indices(data, names, c["count"]), sorted(tags))]:
        got = [int(g) for g in got]
        ctx.check(len(got) == min(c["count"], len(cands)), "%s: %d returned, %d wanted of %d" % (what, len(got), c["count"], len(cands)))
        ctx.check(len(set(got)) == len(got) and set(got) <= set(cands), "%s: %r of %r" % (what, got, cands))
        pop = [int(totals[g]) for g in got]
        ctx.check(pop == sorted(pop, reverse=True), "%s: popularity %r" % (what, pop))
        left = [int(totals[t]) for t in cands if t not in got]
        ctx.check(not left or max(left) <= min(pop), "%s: a more popular one left out" % what)


@CHECK.sub(words_case(), quick=3000, shards=2)
def soft_split(c, ctx):
    w = np.array(c["w"])
    m = gen.messy_csr(c["w"], c["dtype"], c["noise"], c["seed"])
    before = (m.data.copy(), m.indices.copy(), m.indptr.copy())
    tags = {"list": list, "set": set, "tuple": tuple}[c["as"]](c["tags"])
    rng = np.random.RandomState(c["seed"])
    left, right = run.soft_split_on_indices(m, tags, rng if c["p"] < 1 else None, c["p"])
    ctx.nontrivial(w.shape[0] > 1 and len(c["tags"]) > 0 and 0 < c["p"] < 1)
    for x, n in ((left, "kept"), (right, "moved")):
        ctx.check(ssp.issparse(x) and x.shape == m.shape, "%s part has shape %r" % (n, x.shape))
        ctx.check(x.dtype == m.dtype, "%s part has type %s, not %s" % (n, x.dtype, m.dtype))
    l, r = left.toarray(), right.toarray()
    ctx.equal(l + r, w.astype(c["dtype"]), "the two parts together")
    ctx.check(not np.any((l != 0) & (r != 0)), "a value was broken in two")
    off = [t for t in range(w.shape[1]) if t not in c["tags"]]
    ctx.check(not np.any(r[:, off]), "a word outside the set was moved")
    on = sorted(c["tags"])
    if c["p"] == 1.0:
        ctx.check(not np.any(l[:, on]), "a word of the set was not moved")
    if c["p"] == 0.0:
        ctx.check(not np.any(r), "a word was moved")
    ctx.label("some moved", bool(r.any()))
    for a, b, n in zip((m.data, m.indices, m.indptr), before, ("data", "indices", "indptr")):
        ctx.equal(a, b, "the given matrix's " + n)
    if c["p"] < 1:
        l2, r2 = run.soft_split_on_indices(m, tags, np.random.RandomState(c["seed"]), c["p"])
        ctx.equal(l2.toarray(), l, "repeated split")


@CHECK.sub(st.fixed_dictionaries({"p": st.sampled_from([0.1, 0.333, 0.5, 0.8]), "seed": gen.seeds,
                                  "tags": st.integers(1, 9), "T": st.sampled_from([10, 10, 300])}), quick=60)
def soft_split_rate(c, ctx):
    """Each value of the set moves with the given probability, whatever its row and column."""
    D, T = 100, c["T"]
    w = np.random.RandomState(c["seed"]).randint(1, 5, size=(D, T)).astype(np.float64)
    tags = np.arange(c["tags"]) * (T // 10)
    if c["seed"] % 2:
        tags = T - 1 - tags
    left, right = run.soft_split_on_indices(ssp.csr_matrix(w), set(tags.tolist()), np.random.RandomState(c["seed"] ^ 0x5a5a), c["p"])
    ctx.equal((left + right).toarray(), w, "the two parts together")
    moved = right.toarray()[:, tags] != 0
    ctx.nontrivial(c["tags"] > 1)
    n = moved.size
    sd = np.sqrt(n * c["p"] * (1 - c["p"]))
    ctx.check(abs(moved.sum() - n * c["p"]) < 7 * sd + 1, "%d of %d moved with probability %r" % (moved.sum(), n, c["p"]))
    half = moved[:50].sum() - moved[50:].sum()
    ctx.check(abs(half) < 7 * sd + 1, "moves depend on the row: %d" % half)


@CHECK.sub(st.fixed_dictionaries({"m": st.integers(1, 5).flatmap(lambda d: st.integers(1, 5).flatmap(
    lambda t: gen.table(d, t, gen.FLOATS))), "lo": st.sampled_from([0, -1, 0.5]), "hi": st.sampled_from([1, 2, 7])}), quick=600)
def clip(c, ctx):
    m = gen.csr(c["m"])
    before = m.toarray()
    got = run.csr_clip(m, c["lo"], c["hi"])
    ctx.nontrivial(m.nnz > 1)
    want = np.where(before != 0, np.clip(before, c["lo"], c["hi"]), 0)
    ctx.equal(got.toarray(), want, "clipped values")
    ctx.equal(m.toarray(), before, "the given matrix")


GROUPS = [(0, 3), (3, 5), (5, 10), (10, 1000), (-1, -1)]


@st.composite
def folds_case(draw):
    n = draw(st.integers(1, 5))
    g = draw(st.lists(st.sampled_from(GROUPS), min_size=1, max_size=5, unique=True))
    m = draw(st.integers(1, 4))
    counts = [[draw(st.sampled_from([0, 0, 1, 2, 3, 10, 57])) for _ in g] for _ in range(n)]
    # a document scores a multiple of 1/8, so averages are those of whole documents
    sums = [[[draw(st.integers(0, 8 * k)) for _ in range(m)] for k in row] for row in counts]
    return {"groups": g, "counts": counts, "sums": sums, "numpy": draw(st.booleans())}


def fold_maps(c):
    out = []
    for row, sums in zip(c["counts"], c["sums"]):
        cnt = {tuple(g): k for g, k in zip(c["groups"], row)}
        avg = {tuple(g): [s / 8 / max(1, k) for s in ss] for g, k, ss in zip(c["groups"], row, sums)}
        out.append((avg, cnt))
    return out


@CHECK.sub(folds_case(), quick=2000, shards=2)
def roll_up(c, ctx):
    maps = fold_maps(c)
    ctx.nontrivial(len(maps) > 1)
    first = ({g: list(v) for g, v in maps[0][0].items()}, dict(maps[0][1]))
    avgs, cnts = None, None
    for a, n in maps:
        avgs, cnts = run.combine_map(avgs, cnts, a, n)
    ctx.equal(maps[0][0], first[0], "the first fold's averages")
    ctx.equal(maps[0][1], first[1], "the first fold's counts")
    for i, g in enumerate(c["groups"]):
        g = tuple(g)
        total = sum(row[i] for row in c["counts"])
        ctx.label("empty group", total == 0)
        ctx.equal(cnts[g], total, "documents in group %r" % (g,))
        want = [sum(s[i][j] for s in c["sums"]) / 8 / max(1, total) for j in range(len(c["sums"][0][i]))]
        ctx.close(avgs[g], want, rtol=1e-9, what="average over all documents of group %r" % (g,))
    ctx.check(set(avgs) == {tuple(g) for g in c["groups"]}, "groups are %r" % sorted(avgs))


@CHECK.sub(folds_case(), quick=400)
def tables(c, ctx):
    avg, cnt = fold_maps(c)[0]
    ms = [10, 20, 100, 500][:len(next(iter(avg.values())))]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        run.printTable("Precision", avg, cnt, ms)
    lines = [l for l in out.getvalue().split("\n") if l.strip()]
    ctx.nontrivial(len(avg) > 1 and len(ms) > 1)
    ctx.check("Precision" in lines[0], "title is %r" % lines[0])
    rows = [[x.strip() for x in l.strip().strip("|").split("|")] for l in lines[1:] if not l.startswith("|-")]
    ctx.equal([int(x) for x in rows[0][2:]], ms, "header")
    seen = {}
    for r in rows[1:]:
        seen[tuple(int(x) for x in r[0].split(","))] = (int(r[1]), [float(x) for x in r[2:]])
    ctx.equal(len(rows) - 1, len(avg), "rows")
    for g in avg:
        ctx.equal(seen[g][0], cnt[g], "documents in %r" % (g,))
        ctx.close(seen[g][1], avg[g], rtol=0, atol=0.000501, what="scores of %r" % (g,))


NAMES = ["ctm/bouchard", "ctm/bohning", "stm-yv/bohning", "stm/uv_vecy/bohning", "lda/gibbs", "lda/vbp", "rtm/vb", "dmr/gibbs_em"]
SPEC = st.tuples(st.sampled_from(NAMES), st.integers(1, 300), st.one_of(st.none(), st.integers(0, 200)),
                 st.one_of(st.none(), st.integers(0, 12)))


@CHECK.sub(st.lists(SPEC, min_size=1, max_size=8, unique=True), quick=600)
def file_names(c, ctx):
    ctx.nontrivial(len(c) > 1)
    prefix = "/some/where/results"
    import time
    for _ in range(2):
        t0 = time.strftime("%Y%m%d_%H%M", time.gmtime())
        got = [run.newModelFile(n, k, p, f, prefix) for n, k, p, f in c]
        if time.strftime("%Y%m%d_%H%M", time.gmtime()) == t0:
            break
    for path, (n, k, p, f) in zip(got, c):
        ctx.check(os.path.dirname(path) == prefix, "%r is not in %s" % (path, prefix))
        base = os.path.basename(path)
        ctx.check(base.startswith(n.replace("/", "_").replace("-", "_") + "_k_%d_" % k), "%r does not name %s with %d topics" % (base, n, k))
        ctx.check(("_p_" in base) == (p is not None) and (p is None or "_p_%d_" % p in base), "%r, rank %r" % (base, p))
        ctx.check(("_fold_" in base) == (f is not None) and (f is None or "_fold_%d_" % f in base), "%r, fold %r" % (base, f))
        ctx.check(base.endswith(t0 + ".pkl"), "%r does not end in the time, %s" % (base, t0))
    ctx.check(len(set(got)) == len(c), "two of %r share a file" % (c,))
    for n, k, p, f in c:
        model = types.SimpleNamespace(name=n, K=k)
        if p is not None:
            model.P = p
        again = run.newModelFileFromModel(model, f, prefix)
        ctx.check(again[:-17] == run.newModelFile(n, k, p, f, prefix)[:-17], "name from the model is %r" % again)


@CHECK.sub(st.fixed_dictionaries({
    "name": st.sampled_from(NAMES), "K": st.integers(1, 9), "P": st.one_of(st.none(), st.integers(1, 5)),
    "D": st.integers(2, 8), "fold": st.integers(0, 4), "seed": gen.seeds, "query": st.booleans(),
    "vals": st.lists(st.floats(-1e6, 1e6), min_size=0, max_size=4), "order": st.sampled_from(["same", "swapped", "shorter", "longer"])}), quick=500)
def saved_models(c, ctx):
    rng = np.random.RandomState(c["seed"])
    order = rng.permutation(c["D"])
    mdl = types.SimpleNamespace(QueryState=Tops)
    model = Model(c["name"], c["K"], c["P"], rng.rand(c["K"], 5))
    data = types.SimpleNamespace(order=order)
    new = lambda: Tops(rng.rand(c["D"], c["K"]), rng.rand(c["D"], 2), rng.rand(c["D"], c["K"]), rng.randint(1, 9, c["D"]))
    tops, qtops = new(), new() if c["query"] else None
    itrs, vbs = [10 * i for i in range(len(c["vals"]))], list(c["vals"])
    likes = [-v for v in vbs]
    ctx.nontrivial(c["D"] > 1)
    with scratch() as d:
        files = run.save_if_necessary([], None, model, data, c["fold"], itrs, vbs, likes, tops, qtops, mdl)
        ctx.equal(files, [], "files when there is nowhere to save to")
        files = run.save_if_necessary(["before"], d, model, data, c["fold"], itrs, vbs, likes, tops, qtops, mdl)
        ctx.check(len(files) == 2 and files[0] == "before", "files are %r" % (files,))
        ctx.equal(sorted(os.listdir(d)), [os.path.basename(files[1])], "files written")
        with open(files[1], "rb") as f:
            o, i, v, l, m, t, q = pickle.load(f)
        ctx.equal(np.asarray(o), order, "order")
        ctx.equal(list(i), itrs, "iterations")
        ctx.equal(list(v), vbs, "bounds")
        ctx.equal(list(l), likes, "likelihoods")
        ctx.check(m.name == model.name and m.K == model.K, "model")
        ctx.equal(m.vocab, model.vocab, "vocabulary")
        ctx.equal(t.means, tops.means, "topics of the training documents")
        ctx.equal(t.docLens, tops.docLens, "lengths of the training documents")
        ctx.check((q is None) == (qtops is None), "query state")
        if qtops is not None:
            ctx.equal(q.means, qtops.means, "topics of the query documents")
        want = {"same": order.copy(), "swapped": order[::-1].copy(), "shorter": order[:-1].copy(),
                "longer": np.append(order, c["D"])}[c["order"]]
        try:
            m2, t2 = run.load_and_adapt_lda_model(files[1], want)
        except ValueError:
            ctx.check(not np.array_equal(order, want), "a model saved in this order was refused")
        else:
            ctx.check(np.array_equal(order, want), "a model of documents %r was taken for documents %r" % (order, want))
            ctx.equal(m2.vocab, model.vocab, "loaded vocabulary")
            ctx.equal(t2.means, tops.means, "loaded topics")


class Tops:
    def __init__(self, means, expMeans, varcs, docLens):
        self.means, self.expMeans, self.varcs, self.docLens = means, expMeans, varcs, docLens


class Model:
    def __init__(self, name, K, P, vocab):
        self.name, self.K, self.vocab = name, K, vocab
        if P is not None:
            self.P = P


@CHECK.sub(st.fixed_dictionaries({"w": gen.counts(min_d=1, max_d=6, min_t=2, max_t=6), "K": st.integers(2, 4),
                                  "seed": gen.seeds, "kind": st.sampled_from(["gibbs", "vb"]),
                                  "keep": st.lists(st.integers(0, 5), min_size=1, max_size=6, unique=True)}), quick=400)
def subset_lda(c, ctx):
    """The topics of a subset of the documents are those documents' topics, in that order."""
    D = len(c["w"])
    keep = [k for k in c["keep"] if k < D] or [0]
    got = run.subsetLda(None, None, keep)
    a, b = got
    ctx.check(a is None and b is None, "subset of no model")
    np.random.seed(c["seed"] % 2 ** 31)
    mod = {"gibbs": lda_gibbs, "vb": lda_vb}[c["kind"]]
    data = DataSet(gen.csr(c["w"], "int32"), debug=True)
    model = mod.newModelAtRandom(data, c["K"], dtype=np.float64)
    with contextlib.redirect_stdout(io.StringIO()):
        q = mod.newQueryState(data, model)
    if c["kind"] == "gibbs":      # filled in by training
        q = q._replace(topicSum=np.random.RandomState(c["seed"]).randint(0, 9, size=(D, c["K"])), numSamples=3)
    ctx.nontrivial(len(keep) > 1 and D > 2)
    ctx.label(c["kind"])
    m, sub = run.subsetLda(model, q, keep)
    ctx.check(m is model, "the model")
    for name in q._fields:
        v, s = getattr(q, name), getattr(sub, name)
        if isinstance(v, np.ndarray) and v.ndim and v.shape[0] == D and name != "w_list" and name != "z_list":
            ctx.equal(np.asarray(s), v[keep], "%s of the kept documents" % name)
    other = types.SimpleNamespace(name="ctm/bouchard")
    try:
        run.subsetLda(other, q, keep)
    except ValueError:
        pass
    else:
        ctx.fail("a model of another kind was accepted")
