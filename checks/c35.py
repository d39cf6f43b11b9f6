"""C35: cross-validated experiments train on the training part, query the held-out part, and report its true figures.

Most sub-checks drive the experiment functions with a recording model whose likelihoods and
predictions are known functions of the data it is handed (optionally failing at a given fold and
stage); one runs the whole command line on real models and recomputes its figures from the files."""
import contextlib
import io
import os
import pickle
import re
import shutil
import tempfile
import types

import numpy as np
import numpy.random as rd
import scipy.sparse as ssp
from hypothesis import strategies as st

import dsets
import gen
from pbt import Check, Discard
import sidetopics.model.evals as evals
import sidetopics.run.__main__ as run
from sidetopics.model.common import DataSet

CHECK = Check("C35", "generated datasets (words, with or without features and links), fold counts, truncations, tag sets, "
              "and injected failures at a given fold and stage; non-trivial = more than one fold with documents in it / "
              "more than one document evaluated",
              ["experiments in which every fold fails have no figures to report and are not claimed",
               "the reciprocal rank and average precision of several folds are averaged by documents, as documented"])


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix="c35-")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def capture(fn, *args, **kwargs):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        result = fn(*args, **kwargs)
    return result, out.getvalue()


def ids(data):
    """Which documents these are, counting from one."""
    return np.asarray(data.order).astype(int) + 1


class Injected(Exception):
    pass


class Model:
    """What is trained: a picklable value."""
    def __init__(self, K, vocab, gen=0):
        self.name, self.K, self.vocab, self.gen = "lda/fake", K, vocab, gen


class Tops:
    def __init__(self, stage, docs, means):
        self.stage, self.docs, self.means = stage, docs, means


class Recorder:
    """A model module that notes what it was given."""
    def __init__(self, c, T, fail=None, undirected=False):
        rng = np.random.RandomState(c["seed"])
        self.rates = rng.rand(T) * 2 + 0.1
        self.K = 3
        self.doc_tops = rng.randn(400, self.K) * 2
        self.vocab = gen.dirichlet(c["seed"], self.K, T, 0.5)
        self.scores = rng.rand(400, 400)
        self.events, self.fail, self.undirected, self.runs = [], fail or (), undirected, 0
        self.sample = Model(self.K, self.vocab)
        self.problems = []

    def stage(self, name):
        if (self.runs, name) in [tuple(f) for f in self.fail]:
            raise Injected(name)

    def newModelFromExisting(self, model):
        if model is not self.sample:
            self.problems.append("a model was copied from %r, not the template" % model)
        self.runs += 1
        return Model(self.K, self.vocab, gen=1)

    def newQueryState(self, data, model):
        return Tops("new", ids(data), None)

    def means(self, data):
        # whatever is left of the document decides
        return self.doc_tops[ids(data)] + 0.01 * np.asarray(data.words.sum(axis=1)).reshape(-1, 1)

    def train(self, data, model, tops, plan):
        self.stage("train")
        if model.gen != 1:
            self.problems.append("training started from %s" % ("the template" if model.gen == 0 else "a trained model"))
        if tops.stage != "new" or list(tops.docs) != list(ids(data)):
            self.problems.append("training started from the state %s of documents %r" % (tops.stage, tops.docs))
        self.events.append(("train", data, plan))
        n = self.runs
        return Model(self.K, self.vocab, gen=2), Tops("trained", ids(data), self.means(data)), ([5, 10], [-2.0 * n, -1.0 * n], [-3.0 * n, -n])

    def query(self, data, model, tops, plan):
        self.stage("query")
        if model.gen != 2:
            self.problems.append("an untrained model was queried")
        if tops.stage != "new" or list(tops.docs) != list(ids(data)):
            self.problems.append("a query started from the state %s of documents %r" % (tops.stage, tops.docs))
        self.events.append(("query", data, plan))
        return model, Tops("queried", ids(data), self.means(data))

    def like(self, data, stage):
        return -float(np.asarray(data.words.dot(self.rates)).sum()) * {"trained": 1.0, "queried": 1.25}[stage]

    def log_likelihood(self, data, model, tops):
        self.stage("like-" + tops.stage)
        if model.gen != 2:
            self.problems.append("the likelihood of an untrained model was taken")
        if tops.stage == "new":
            self.problems.append("the likelihood was taken under topics nobody inferred")
        if data.doc_count != len(tops.docs):
            self.problems.append("the likelihood of %d documents under the topics of %d" % (data.doc_count, len(tops.docs)))
        self.events.append(("like", data, tops.stage))
        return self.like(data, tops.stage)

    # -- link prediction
    def is_undirected_link_predictor(self):
        return self.undirected

    def wordDists(self, model):
        return self.vocab

    def min_link_probs(self, model, train_tops, *rest):
        query_tops, (links, subset) = train_tops, (rest + (None,))[:2]
        if isinstance(links, Tops):
            query_tops, links, subset = (rest + (None,))[:3]
        self.events.append(("min", links, subset, train_tops.stage, query_tops.stage, list(train_tops.docs), list(query_tops.docs)))
        if model.gen != 2:
            self.problems.append("links were predicted by an untrained model")
        return "minimum"

    def link_probs(self, model, train_tops, *rest):
        query_tops, (mins, subset) = train_tops, (rest + (None,))[:2]
        if isinstance(mins, Tops):
            query_tops, mins, subset = (rest + (None,))[:3]
        if mins != "minimum":
            self.problems.append("the minimum probabilities were not passed on")
        rows = query_tops.docs if subset is None else query_tops.docs[np.asarray(subset)]
        width = self.events[-1][1].shape[1]
        return ssp.csr_matrix(self.scores[np.asarray(rows)][:, :width] + 0.001)


def dense(m):
    return None if m is None else np.asarray(m.todense() if ssp.issparse(m) else m)


def same_rows(ctx, data, base, rows, what, words=True, links=True):
    if words:
        ctx.equal(dense(data.words), dense(base.words)[rows], what + ": words")
    ctx.equal(np.asarray(data.order), np.asarray(base.order)[rows], what + ": order")
    if base.has_features():
        ctx.equal(dense(data.feats), dense(base.feats)[rows], what + ": features")
    if base.has_links() and links:
        ctx.equal(dense(data.links), dense(base.links)[rows], what + ": links")


@st.composite
def experiment(draw, min_folds=2, **kw):
    c = draw(dsets.case(min_d=3, max_d=12, min_t=2, cats=None, dictionary=None, **kw)) if "min_t" in kw else \
        draw(dsets.case(min_d=3, max_d=12, cats=None, dictionary=None, **kw))
    c["folds"] = draw(st.integers(min_folds, 5))
    c["seed"] = draw(gen.seeds)
    return c


FAILS = st.lists(st.tuples(st.integers(1, 5), st.sampled_from(["train", "query", "like-trained", "like-queried"])), max_size=2)


@st.composite
def perp_case(draw):
    c = draw(experiment(min_folds=1, links=draw(st.sampled_from(["no", "yes"]))))
    c["limit"] = draw(st.sampled_from([-1, -1, 0, 1, 2, 7]))
    c["save"] = draw(st.booleans())
    c["fail"] = draw(FAILS)
    return c


FOLD = re.compile(r"Fold (\d+): Train-set Perplexity:\s*(\S+)\s+Query-set Perplexity:\s*(\S+)")
TOTAL = re.compile(r"Total \((\d+)\): (Train|Query)-set Likelihood:\s*(\S+)\s+\S+ Perplexity:\s*(\S+)")


def printed(ctx, text, want, what):
    # three decimal places, of numbers that may themselves be single precision
    ctx.close(float(text), want, rtol=1e-5, atol=0.00051, what=what)


@CHECK.sub(perp_case(), quick=2400, shards=4)
def perplexity(c, ctx):
    data = dsets.build(c)
    D, N = data.doc_count, c["folds"]
    size = -(-D // N)
    if N > 1 and size * (N - 1) >= D:
        raise Discard()       # a fold without documents of its own
    fail = [tuple(f) for f in c["fail"]]
    if N == 1:
        fail = []
    mdl = Recorder(c, data.words.shape[1], fail)
    before = dsets.snapshot(data)
    splits = [data.cross_valid_split(f, N) for f in range(N)] if N > 1 else []
    parts = [(list(ids(q) - 1), list(ids(t) - 1)) for t, q in splits]
    if any(q.doc_completion_split()[1].words.sum() == 0 for _, q in splits):
        raise Discard()       # no words to evaluate
    if N > 1 and set(range(N)) <= {f - 1 for f, _ in fail}:
        raise Discard()       # every fold fails
    with scratch() as d:
        files, text = capture(run.cross_val_and_eval_perplexity, data, mdl, mdl.sample, "TRAIN-PLAN", "QUERY-PLAN",
                              N, c["limit"], d if c["save"] else None)
        ctx.check(not mdl.problems, mdl.problems[0] if mdl.problems else "")
        on_disk = sorted(os.listdir(d))
        ctx.equal(sorted(os.path.basename(f) for f in files), on_disk, "files listed")
        saved = []
        for f in files:
            with open(f, "rb") as h:
                saved.append(pickle.load(h))
    dsets.same(ctx, dsets.snapshot(data), before, "the dataset after the experiment")

    words = lambda x: float(x.words.sum())
    if N == 1:
        ctx.check([e[0] for e in mdl.events] == ["train", "like"], "%r" % [e[0] for e in mdl.events])
        same_rows(ctx, mdl.events[0][1], data, np.arange(D), "training data")
        like = mdl.like(data, "trained")
        got = dict(re.findall(r"Train-set (Likelihood|Perplexity):\s*(\S+)", text))
        ctx.close(float(got["Likelihood"]), like, rtol=1e-5, atol=1e-5, what="likelihood")
        ctx.close(float(got["Perplexity"]), np.exp(-like / words(data)), rtol=1e-5, atol=1e-5, what="perplexity")
        ctx.equal(len(files), 1 if c["save"] else 0, "files")
        return

    # which folds are run, and which of those finish
    target = N if c["limit"] < 1 else c["limit"]
    bad = {f for f, _ in fail}
    attempted, finished = [], []
    for f in range(N):
        if len(finished) >= target:
            break
        attempted.append(f)
        if f + 1 not in bad:
            finished.append(f)
    ctx.nontrivial(len(finished) > 1)
    ctx.label("failed folds", len(attempted) - len(finished))
    ctx.label("truncated", len(attempted) < N)
    ctx.equal(mdl.runs, len(attempted), "folds attempted")

    trained = [e for e in mdl.events if e[0] == "train"]
    queried = [e for e in mdl.events if e[0] == "query"]
    liked_q = [e for e in mdl.events if e[0] == "like" and e[2] == "queried"]
    stage_fails = lambda f, *stages: any((f + 1, s) in fail for s in stages)
    want_tr = [f for f in attempted if not stage_fails(f, "train")]
    want_q = [f for f in attempted if not stage_fails(f, "train", "like-trained", "query")]
    want_lq = [f for f in want_q if not stage_fails(f, "like-queried")]
    ctx.equal(len(trained), len(want_tr), "training runs")
    ctx.equal(len(queried), len(want_q), "queries")
    ctx.equal(len(liked_q), len(want_lq), "held-out likelihoods")
    for f, (_, x, plan) in zip(want_tr, trained):
        ctx.equal(plan, "TRAIN-PLAN", "plan")
        same_rows(ctx, x, data, np.array(parts[f][1], dtype=int), "training data of fold %d" % f)
        ctx.check(not set(ids(x) - 1) & set(parts[f][0]), "fold %d is trained on documents it holds out" % f)
    for f, (_, x, plan) in zip(want_q, queried):
        ctx.equal(plan, "QUERY-PLAN", "plan of the query")
        same_rows(ctx, x, data, np.array(parts[f][0], dtype=int), "query data of fold %d" % f, words=data.has_features())
    evals_of = {f: e[1] for f, e in zip(want_lq, liked_q)}
    estim_of = {f: e[1] for f, e in zip(want_q, queried)}
    for f in want_lq:
        q = dense(data.words)[parts[f][0]]
        if data.has_features():
            ctx.equal(dense(evals_of[f].words), q, "held-out words of fold %d" % f)
        else:
            ctx.equal(dense(evals_of[f].words) + dense(estim_of[f].words), q, "the two halves of fold %d" % f)

    # the figures
    t_like = t_words = q_like = q_words = 0.0
    rows = FOLD.findall(text)
    ctx.equal([int(r[0]) for r in rows], finished, "folds reported")
    for f, (_, tp, qp) in zip(finished, rows):
        tr = splits[f][0]
        tl, ql = mdl.like(tr, "trained"), mdl.like(evals_of[f], "queried")
        printed(ctx, tp, np.exp(-tl / words(tr)), "training perplexity of fold %d" % f)
        if words(evals_of[f]):
            printed(ctx, qp, np.exp(-ql / words(evals_of[f])), "held-out perplexity of fold %d" % f)
        t_like, t_words, q_like, q_words = t_like + tl, t_words + words(tr), q_like + ql, q_words + words(evals_of[f])
    totals = TOTAL.findall(text)
    ctx.equal([t[1] for t in totals], ["Train", "Query"], "totals")
    for (n, which, like, perp), (l, w) in zip(totals, ((t_like, t_words), (q_like, q_words))):
        ctx.equal(int(n), len(finished), "folds in the total")
        printed(ctx, like, l, which + " likelihood in total")
        if w:
            printed(ctx, perp, np.exp(-l / w), which + " perplexity overall")

    # the files
    ctx.equal(len(files), len(finished) if c["save"] else 0, "files")
    for f, (order, itrs, vbs, likes, model, ttops, qtops) in zip(finished, saved):
        n = f + 1
        ctx.equal(np.asarray(order), np.asarray(data.order), "saved order")
        ctx.equal((list(itrs), list(vbs), list(likes)), ([5, 10], [-2.0 * n, -1.0 * n], [-3.0 * n, -n]), "saved trace of fold %d" % f)
        ctx.check(model.gen == 2, "the saved model was not trained")
        ctx.check(ttops.stage == "trained" and list(ttops.docs - 1) == parts[f][1], "saved training topics of fold %d" % f)
        ctx.check(qtops is not None and qtops.stage == "queried" and list(qtops.docs - 1) == parts[f][0], "saved query topics of fold %d" % f)


# ---------------------------------------------------------------- ranking experiments

MS = [10, 20, 30, 40, 50, 75, 100, 150, 250, 500]
GROUPS = [(0, 3), (3, 5), (5, 10), (10, 1000)]


def read_tables(text):
    """All the printed score tables, in order: (title, {group: (documents, scores)})"""
    out, title, cur = [], None, None
    for line in text.split("\n"):
        if line in ("Precision", "Recall"):
            title, cur = line, {}
            out.append((title, cur))
        elif line.endswith("Precision") and not line.startswith("|"):      # a heading on the same line
            title, cur = "Precision", {}
            out.append((title, cur))
        elif line.startswith("|") and cur is not None and not line.startswith("|-") and "Group" not in line:
            cells = [x.strip() for x in line.strip().strip("|").split("|")]
            cur[tuple(int(x) for x in cells[0].split(","))] = (int(cells[1]), [float(x) for x in cells[2:]])
    return out


class Ranking:
    """Scores of each fold by the metrics themselves, rolled up by the documents behind them."""
    def __init__(self):
        self.folds = []

    def add(self, expected, predicted):
        (p, r, n), _ = capture(evals.mean_prec_rec_at, expected, predicted, at=MS, groups=list(GROUPS))
        mrr, _ = capture(evals.mean_reciprocal_rank, expected, predicted)
        mp, _ = capture(evals.mean_average_prec, expected, predicted)
        self.folds.append((p, r, n, mrr, mp, expected.shape[0]))

    def check(self, ctx, text, final_map=True):
        tables = read_tables(text)
        ctx.equal(len(tables), 2 * len(self.folds) + 2, "score tables printed")
        for i, (p, r, n, mrr, mp, _) in enumerate(self.folds):
            for (title, got), want, name in ((tables[2 * i], p, "Precision"), (tables[2 * i + 1], r, "Recall")):
                self.table(ctx, title, got, name, want, n, "fold %d" % i)
        n = {g: sum(f[2][g] for f in self.folds) for g in self.folds[0][2]}
        for (title, got), k, name in ((tables[-2], 0, "Precision"), (tables[-1], 1, "Recall")):
            want = {g: [sum(f[k][g][j] * f[2][g] for f in self.folds) / max(1, n[g]) for j in range(len(MS))] for g in n}
            self.table(ctx, title, got, name, want, n, "final")
        docs = sum(f[5] for f in self.folds)
        mrrs = [float(x) for x in re.findall(r"Mean reciprocal-rank ?: (\S+)", text)]
        ctx.close(mrrs, [f[3] for f in self.folds] + [sum(f[3] * f[5] for f in self.folds) / docs], rtol=1e-5, atol=2e-6, what="reciprocal ranks")
        maps = [float(x) for x in re.findall(r"Mean [Aa]verage[- ][Pp]recision ?: (\S+)", text)]
        want = [f[4] for f in self.folds] + ([sum(f[4] * f[5] for f in self.folds) / docs] if final_map else [])
        ctx.close(maps, want, rtol=1e-5, atol=2e-6, what="average precisions")

    def table(self, ctx, title, got, name, want, n, what):
        ctx.equal(title, name, what + " table")
        ctx.check(set(got) == set(want), "%s table has groups %r" % (what, sorted(got)))
        for g in want:
            ctx.equal(got[g][0], n[g], "%s documents in group %r" % (what, g))
            ctx.close(got[g][1], want[g], rtol=0, atol=0.00051, what="%s %s of group %r" % (what, name, g))


@st.composite
def tag_case(draw):
    c = draw(experiment(links="no"))
    T = len(c["w"][0])
    c["tags"] = draw(st.lists(st.integers(0, T - 2), min_size=1, max_size=T - 1, unique=True))
    if draw(st.integers(0, 3)) == 0:
        c["tags"] = c["tags"] + draw(st.lists(st.sampled_from(c["tags"]), min_size=1, max_size=2))       # named twice
    c["p"] = draw(st.sampled_from([0.333, 0.5, 1.0, 0.8]))
    c["target"] = draw(st.sampled_from([None, -1, 1, 2]))
    c["save"] = draw(st.booleans())
    return c


def tag_folds(c, data, N):
    size = -(-data.doc_count // N)
    if size * (N - 1) >= data.doc_count:
        raise Discard()
    return [data.cross_valid_split(f, N) for f in range(N)]


def softmax(x):
    e = np.exp(x - x.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


@CHECK.sub(tag_case(), quick=1200, shards=3)
def tags(c, ctx):
    data = dsets.build(c)
    N = c["folds"]
    splits = tag_folds(c, data, N)
    run_folds = N if c["target"] is None or c["target"] < 1 else min(c["target"], N)
    mdl = Recorder(c, data.words.shape[1])
    names = ["w%d" % t for t in range(data.words.shape[1])]
    before = dsets.snapshot(data)
    with scratch() as d:
        files, text = capture(run.cross_val_and_eval_tag_prec_rec_at_m, data, list(c["tags"]), c["p"], mdl, mdl.sample,
                              "PLAN", names, N, c["target"], d if c["save"] else None)
        ctx.equal(sorted(os.path.basename(f) for f in files), sorted(os.listdir(d)), "files listed")
    ctx.equal(len(files), run_folds if c["save"] else 0, "files")
    ctx.check(not mdl.problems, mdl.problems[0] if mdl.problems else "")
    dsets.same(ctx, dsets.snapshot(data), before, "the dataset after the experiment")
    trained = [e for e in mdl.events if e[0] == "train"]
    queried = [e for e in mdl.events if e[0] == "query"]
    ctx.equal((len(trained), len(queried)), (run_folds, run_folds), "training runs and queries")
    want = Ranking()
    some = 0
    for f in range(run_folds):
        tr, qr = splits[f]
        ctx.equal(dense(trained[f][1].words), dense(tr.words), "training words of fold %d" % f)
        left, full = dense(queried[f][1].words), dense(qr.words)
        held = full - left
        ctx.check(not ((left != 0) & (held != 0)).any(), "a word was held out in part")
        off = [t for t in range(full.shape[1]) if t not in c["tags"]]
        ctx.check(not held[:, off].any(), "a word that is no tag was held out")
        if c["p"] == 1.0:
            ctx.equal(held[:, c["tags"]], full[:, c["tags"]], "tags held out")
        some += int((held != 0).sum())
        probs = softmax(mdl.means(queried[f][1])).dot(mdl.vocab)
        cols = sorted(set(c["tags"]))
        keep = np.zeros(full.shape, dtype=bool)
        keep[:, cols] = True
        predicted = ssp.csr_matrix(np.where(keep, probs, 0))
        want.add(ssp.csr_matrix((held != 0).astype(float)), predicted)
    ctx.label("tags held out", some > 0)
    ctx.nontrivial(some > 1 and len(c["tags"]) > 1)
    want.check(ctx, text)


@CHECK.sub(tag_case(), quick=900, shards=3)
def hashtags(c, ctx):
    c = dict(c, tags=list(dict.fromkeys(c["tags"])))
    data = dsets.build(c)
    N = c["folds"]
    splits = tag_folds(c, data, N)
    target = c["target"] if c["target"] is not None else -1
    run_folds = N if target < 1 else min(target, N)
    mdl = Recorder(c, data.words.shape[1])
    names = ["w%d" % t for t in range(data.words.shape[1])]
    keep = {0.333: 0.5}.get(c["p"], 0)
    _, text = capture(run.cross_val_and_eval_hashtag_prec_at_m, data, list(c["tags"]), keep, mdl, mdl.sample,
                      "PLAN", names, N, target, None)
    ctx.check(not mdl.problems, mdl.problems[0] if mdl.problems else "")
    queried = [e for e in mdl.events if e[0] == "query"]
    trained = [e for e in mdl.events if e[0] == "train"]
    ctx.equal((len(trained), len(queried)), (run_folds, run_folds), "training runs and queries: " + text[-300:])
    rows = re.findall(r"^\s*(Precision|Recall)\s+(\S+)\s+(\d+)\s+(.*)$", text, re.M)
    header = [[int(x) for x in h.split()] for h in re.findall(r"Hashtag\s+Count\s+(.*)$", text, re.M)]
    ctx.equal(len(header), run_folds, "tables")
    ctx.equal(len(rows), run_folds * 2 * len(c["tags"]), "rows")
    some = 0
    for f in range(run_folds):
        ctx.equal(dense(trained[f][1].words), dense(splits[f][0].words), "training words of fold %d" % f)
        left, full = dense(queried[f][1].words), dense(splits[f][1].words)
        held = full - left
        off = [t for t in range(full.shape[1]) if t not in c["tags"]]
        ctx.check(not held[:, off].any(), "a word that is no hashtag was held out")
        if keep == 0:
            ctx.equal(held[:, c["tags"]], full[:, c["tags"]], "hashtags held out of fold %d" % f)
        some += int((held != 0).sum())
        has = held != 0
        probs = softmax(mdl.means(queried[f][1])).dot(mdl.vocab)
        part = rows[f * 2 * len(c["tags"]):(f + 1) * 2 * len(c["tags"])]
        seen = {(r[0], r[1]): (int(r[2]), [float(x) for x in r[3].split()]) for r in part}
        for t in c["tags"]:
            n = int(has[:, t].sum())
            order = np.argsort(-probs[:, t])
            for what in ("Precision", "Recall"):
                count, got = seen[(what, names[t])]
                ctx.equal(count, n, "documents with %s" % names[t])
                hits = [int(has[order[:m], t].sum()) for m in header[f]]
                want = [h / m for h, m in zip(hits, header[f])] if what == "Precision" else \
                    [h / max(1, min(m, n)) for h, m in zip(hits, header[f])]
                ctx.close(got, want, rtol=0, atol=0.00051, what="%s of %s in fold %d" % (what, names[t], f))
    ctx.nontrivial(some > 1 and len(c["tags"]) > 1)


@st.composite
def link_case(draw):
    c = draw(experiment(links="yes", square=True, feats="yes"))
    D = len(c["w"])
    # some documents with many links, so folds of them exist
    for d in range(D):
        if draw(st.booleans()):
            for j in range(D):
                if (j + d) % 3:
                    c["l"][d][j] = c["l"][d][j] or 1
    c["kind"] = draw(st.sampled_from(["map", "prec_rec", "insample", "outsample", "insample", "outsample"]))
    c["target"] = draw(st.sampled_from([None, -1, 1, 2]))
    c["undirected"] = draw(st.booleans())
    F = len(c["x"][0])
    c["mask"] = draw(st.lists(st.integers(0, F - 1), min_size=1, max_size=F, unique=True))
    c["save"] = draw(st.booleans())
    if c["kind"] == "outsample" and draw(st.integers(0, 3)):      # a few documents per feature, and some without any
        c["mask"] = draw(st.lists(st.integers(0, F - 1), min_size=min(2, F), max_size=F, unique=True))
        for d in range(D):
            own = c["mask"][d] if d < len(c["mask"]) else None if d == len(c["mask"]) else \
                draw(st.sampled_from(c["mask"] + [None, None]))
            for f in range(F):
                if f in c["mask"]:
                    c["x"][d][f] = 1 if f == own else 0
    return c


@CHECK.sub(link_case(), quick=1600, shards=4)
def links(c, ctx):
    c = dict(c, lt="float64" if c["lt"] == "int32" else c["lt"])
    data = dsets.build(c)
    N, kind = c["folds"], c["kind"]
    mdl = Recorder(c, data.words.shape[1], undirected=c["undirected"])
    before = dsets.snapshot(data)
    args = (data, mdl, mdl.sample, "PLAN")
    run_folds = N if c["target"] is None or c["target"] < 1 else min(c["target"], N)
    expected = []                    # (training documents, query documents, training links, held-out links, subset)
    D = data.doc_count
    if kind in ("map", "prec_rec"):
        if kind == "map":
            run_folds = N
        for f in range(run_folds):
            a, b = data.link_prediction_split(symmetric=False)
            expected.append((np.arange(D), np.arange(D), a, b, None))
        call = lambda d: run.link_split_map(*args, N, d) if kind == "map" else run.link_split_prec_rec(*args, N, c["target"], d)
    elif kind == "insample":
        for f in range(run_folds):
            a, b, sub = data.folded_link_prediction_split(5, f, N)
            if len(sub) == 0:
                raise Discard()
            expected.append((np.arange(D), np.arange(D), a, b, sub))
        call = lambda d: run.insample_lro_style_prec_rec(*args, N, c["target"], d)
    else:
        for i in range(len(c["mask"])):
            bits = np.array(c["x"])
            if bits[:, c["mask"][i:]].any(axis=1).all() or not bits[:, c["mask"][i]].any():
                raise Discard()       # nobody to train on, or to query
            a, b, tr = data.split_on_feature(c["mask"][i:])
            expected.append((np.asarray(tr), ids(b) - 1, a, b, None))
        call = lambda d: run.outsample_lro_style_prec_rec(*args, [("f%d" % i, i) for i in c["mask"]], d)
    with scratch() as d:
        files, text = capture(call, d if c["save"] else None)
        ctx.equal(sorted(os.path.basename(f) for f in files), sorted(os.listdir(d)), "files listed")
    ctx.label("%s%s%s" % (kind, ", undirected" if c["undirected"] else "", ", several" if len(expected) > 1 else ""))
    ctx.equal(len(files), len(expected) if c["save"] else 0, "files")
    ctx.check(not mdl.problems, mdl.problems[0] if mdl.problems else "")
    dsets.same(ctx, dsets.snapshot(data), before, "the dataset after the experiment")
    trained = [e for e in mdl.events if e[0] == "train"]
    queried = [e for e in mdl.events if e[0] == "query"]
    mins = [e for e in mdl.events if e[0] == "min"]
    ctx.equal((len(trained), len(mins)), (len(expected),) * 2, "training runs and predictions")
    ctx.equal(len(queried), len(expected) if kind == "outsample" else 0, "queries")
    want = Ranking()
    nontrivial = 0
    for i, (trd, qrd, a, b, sub) in enumerate(expected):
        got = trained[i][1]
        ctx.equal(ids(got) - 1, trd, "training documents")
        ctx.equal(dense(got.words), dense(data.words)[trd], "training words")
        known = dense(a.links)
        if c["undirected"]:
            known = ((known + known.T) != 0).astype(float)
        ctx.equal(dense(got.links).astype(float), known.astype(float), "links trained on")
        _, links_given, subset, s1, s2, docs1, docs2 = mins[i]
        ctx.equal(s1, "trained", "state of the documents linked to")
        ctx.equal(s2, "queried" if kind == "outsample" else "trained", "state of the documents linked from")
        ctx.equal(docs1, list(trd + 1), "documents linked to")
        ctx.equal(docs2, list(qrd + 1), "documents linked from")
        held = dense(b.links)
        ctx.equal(dense(links_given), held, "held-out links")
        if kind != "outsample" and not c["undirected"]:
            ctx.check(not ((known != 0) & (held != 0)).any(), "held-out links were trained on")
        ctx.check((subset is None) == (sub is None) and (sub is None or list(subset) == list(sub)), "documents evaluated")
        rows = np.arange(len(qrd)) if sub is None else np.asarray(sub)
        predicted = ssp.csr_matrix(mdl.scores[(qrd + 1)[rows]][:, :held.shape[1]] + 0.001)
        nontrivial += int((held[rows] != 0).any(axis=1).sum())
        want.add(b.links[rows, :], predicted)
    ctx.nontrivial(nontrivial > 1)
    if kind == "map":
        got = [float(x) for x in re.findall(r"Mean-Average-Precision\s+(\S+)", text)]
        ctx.close(got, [f[4] for f in want.folds], rtol=0, atol=0.00051, what="average precision")
    else:
        want.check(ctx, text, final_map=kind != "prec_rec")


# ---------------------------------------------------------------- the whole command

WHOLE = ["ctm_bouchard", "ctm_bohning", "stm_yv_bouchard", "stm_yv_bohning", "lda_cvb", "lda_gibbs", "lda_vb", "lda_svb", "dmr"]


@st.composite
def command(draw):
    kind = draw(st.sampled_from(WHOLE))
    D = draw(st.integers(9, 16))
    w = [[4 * x for x in row] for row in draw(gen.counts(min_d=D, max_d=D, min_t=5, max_t=9, empty_cols=False))]   # so halves of documents have words
    c = {"kind": kind, "w": w, "K": draw(st.integers(2, 4)), "P": draw(st.integers(1, 3)),
         "folds": draw(st.sampled_from([1, 2, 3])), "limit": draw(st.sampled_from([0, 0, D - 2])),
         "truncate": draw(st.sampled_from([None, 1])), "iters": draw(st.sampled_from([10, 20])),
         "seed": draw(gen.seeds)}
    c["dtype"] = draw(st.sampled_from({"lda_cvb": ["i4:f8", "i4:f4"], "lda_gibbs": ["i4:f8"], "dmr": ["i4:f8"],
                                       "lda_vb": ["f8:f8"], "lda_svb": ["f8:f8"]}
                                      .get(kind, ["f8:f8", "f4:f4"])))
    if kind.startswith("stm") or kind == "dmr":
        c["x"] = draw(gen.table(D, draw(st.integers(1, 3)), dsets.BITS))
    return c


@CHECK.sub(command(), quick=200, thorough=1500, shards=8)
def whole_run(c, ctx):
    """The figures a run prints are those of the models it saves, on the documents each fold held out."""
    w = np.array(c["w"])
    limit = c["limit"] or len(w)
    kept = [d for d in range(limit) if (w[d] > 0).sum() >= 3]
    if len(kept) < 3 * c["folds"] or (c["folds"] - 1) * -(-len(kept) // c["folds"]) >= len(kept):
        raise Discard()
    ctx.label(c["kind"])
    with scratch() as d:
        def put(name, m):
            with open(os.path.join(d, name), "wb") as f:
                pickle.dump(m, f)
            return os.path.join(d, name)
        out = os.path.join(d, "out")
        os.mkdir(out)
        args = ["-m", c["kind"], "-k", str(c["K"]), "-p", str(c["P"]), "-w", put("w.pkl", ssp.csr_matrix(w.astype(float))),
                "-i", str(c["iters"]), "-j", str(c["iters"]), "-f", str(c["folds"]), "-t", c["dtype"], "-o", out,
                "--limit-to", str(c["limit"])]
        if c["truncate"] is not None:
            args += ["--truncate-folds", str(c["truncate"])]
        if "x" in c:
            args += ["-x", put("x.pkl", ssp.csr_matrix(np.array(c["x"], dtype=float)))]
        try:
            files, text = capture(run.run, args)
        except (np.linalg.LinAlgError, ZeroDivisionError):
            if c["kind"] == "stm_yv_bohning":
                raise Discard()       # few documents can have a singular covariance under this model
            raise
        if c["kind"] == "stm_yv_bohning" and "singular matrix" in text:
            raise Discard()
        saved = []
        for f in files:
            with open(f, "rb") as h:
                saved.append(pickle.load(h))
        ctx.equal(sorted(os.listdir(out)), sorted(os.path.basename(f) for f in files), "files")
        again = c["folds"] > 1 and c["kind"] not in ("lda_gibbs", "dmr")      # these draw from the C library's generator
        if again:
            files2, text2 = capture(run.run, args)
    n = 1 if c["folds"] == 1 or c["truncate"] else c["folds"]
    ctx.check("Abandoning" not in text, "a fold failed: " + text[text.find("Abandoning"):][:200])
    ctx.equal(len(files), n, "files saved: " + text[-400:])
    if again:
        ctx.equal(TOTAL.findall(text2), TOTAL.findall(text), "figures of the same run again")
    mdl = module_of(c["kind"])
    dt = {"i4": np.int32, "f4": np.float32, "f8": np.float64}[c["dtype"][:2]]
    rows = FOLD.findall(text)
    tl = tw = ql = qw = 0.0
    for f, (order, itrs, vbs, likes, model, ttops, qtops) in enumerate(saved):
        order = np.asarray(order)
        ctx.equal(sorted(order.tolist()), kept, "documents used")
        ctx.equal(model.K, c["K"], "topics")
        words = ssp.csr_matrix(w[order].astype(dt))
        feats = None if "x" not in c else ssp.csr_matrix(np.array(c["x"])[order].astype(dt))
        data = DataSet(words, feats, order=order, debug=True)
        data.add_intercept_to_feats_if_required() if feats is not None else None
        tr, qr = (data, None) if c["folds"] == 1 else data.cross_valid_split(f, c["folds"], debug=True)
        like, _ = capture(mdl.log_likelihood, tr, model, ttops)
        if c["folds"] == 1:
            got = dict(re.findall(r"Train-set (Likelihood|Perplexity):\s*(\S+)", text))
            ctx.close(float(got["Likelihood"]), like, rtol=1e-4, atol=1e-3, what="likelihood")
            ctx.close(float(got["Perplexity"]), np.exp(-like / words.sum()), rtol=1e-4, atol=1e-3, what="perplexity")
            continue
        est, evl = qr.doc_completion_split()
        qlike, _ = capture(mdl.log_likelihood, evl, model, qtops)
        ctx.nontrivial(n > 1)
        ctx.close(float(rows[f][1]), np.exp(-like / tr.words.sum()), rtol=1e-4, atol=1e-3, what="training perplexity of fold %d" % f)
        ctx.close(float(rows[f][2]), np.exp(-qlike / evl.words.sum()), rtol=1e-4, atol=1e-3, what="held-out perplexity of fold %d" % f)
        tl, tw, ql, qw = tl + like, tw + tr.words.sum(), ql + qlike, qw + evl.words.sum()
    if c["folds"] > 1:
        totals = TOTAL.findall(text)
        ctx.equal([int(t[0]) for t in totals], [n, n], "folds in the total")
        for t, l, p in zip(totals, (tl, ql), (np.exp(-tl / tw), np.exp(-ql / qw))):
            ctx.close(float(t[2]), l, rtol=1e-4, atol=1e-2, what=t[1] + " likelihood")
            ctx.close(float(t[3]), p, rtol=1e-4, atol=1e-3, what=t[1] + " perplexity")


def module_of(kind):
    import importlib
    return importlib.import_module("sidetopics.model." + {
        "ctm_bouchard": "ctm", "ctm_bohning": "ctm_bohning", "stm_yv_bouchard": "stm_yv", "stm_yv_bohning": "stm_yv_bohning",
        "lda_cvb": "lda_cvb", "lda_gibbs": "lda_gibbs", "lda_vb": "lda_vb_python", "lda_svb": "lda_vb_python",
        "dmr": "dmr"}[kind])
