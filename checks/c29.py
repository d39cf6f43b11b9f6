"""C29: result files written by an experiment are read back, rolled up and tabulated without loss."""
import contextlib
import csv
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from pbt import Check
import sidetopics.run.reshape_results as rr
import sidetopics.run.__main__ as run

CHECK = Check("C29", "files of one or more generated experiments, their score tables printed by the experiment driver itself; "
              "non-trivial = two or more experiments in one file",
              ["an experiment that reports no average precision is followed by a blank line"])

MS = [10, 20, 30, 40, 50, 75, 100, 150, 250, 500]
GROUPS = [(-1, -1), (0, 3), (3, 5), (5, 10), (10, 1000)]
NAMES = dict(zip(GROUPS, ["0->", "0->3", "3->5", "5->10", "10->"]))
ROLLED = {"3->": GROUPS[2:], "5->": GROUPS[3:]}
score = st.integers(0, 1000)


@st.composite
def experiment(draw):
    counts = [draw(st.sampled_from([0, 1, 2, 5, 40, 1234])) for _ in GROUPS]
    return {"name": draw(st.sampled_from(["Lro", "mtm_vb", "LDA-Gibbs", "rtm", "Sim/TfIdf", "Precision"])),
            "K": draw(st.integers(1, 500)),
            "desc": draw(st.one_of(st.just(""), st.text("abc XYZ09,;:=()'\"\\.-_", max_size=20))),
            "perp": draw(st.one_of(st.none(), st.integers(100, 10 ** 7))), "counts": counts,
            "precs": [[draw(score) for _ in range(3)] for _ in GROUPS], "recs": [[draw(score) for _ in range(3)] for _ in GROUPS],
            "mrr": draw(st.one_of(st.none(), st.integers(0, 10 ** 6))), "map": draw(st.one_of(st.none(), st.integers(0, 10 ** 6))),
            "noise": draw(st.booleans()), "gap": draw(st.integers(0, 3)), "comma": draw(st.sampled_from([", ", " "]))}


def spread(three, m):
    """ten scores out of three drawn ones"""
    return (three[m % 3] + 37 * m) % 1001 / 1000.0


def render(e):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print(e["name"] + e["comma"] + "K=%d" % e["K"] + (" " + e["desc"] if e["desc"] else ""))
        if e["noise"]:
            print("# a remark\n\nFold  0: something or other")
        if e["perp"] is not None:
            print("Training perplexity is %.2f " % (e["perp"] / 100.0))
        if e["noise"]:
            print("-" * 80 + "\n\n Final Results\n\n")
        counts = {g: n for g, n in zip(GROUPS, e["counts"])}
        for title, table in (("Precision", "precs"), ("Recall", "recs")):
            run.printTable(title, {g: [spread(r, m) for m in range(len(MS))] for g, r in zip(GROUPS, e[table])}, counts, MS)
        if e["mrr"] is not None:
            print("Mean reciprocal-rank: %f" % (e["mrr"] / 1e6))
        if e["map"] is not None:
            print("Mean average-precision: %f" % (e["map"] / 1e6))
    return out.getvalue() + "\n" * e["gap"]


def rolled(e, table):
    """group -> (documents, scores)"""
    want = {NAMES[g]: (n, [spread(r, m) for m in range(len(MS))]) for g, n, r in zip(GROUPS, e["counts"], e[table])}
    for name, parts in ROLLED.items():
        n = sum(want[NAMES[g]][0] for g in parts)
        want[name] = (n, [sum(want[NAMES[g]][1][m] * want[NAMES[g]][0] for g in parts) / max(1, n) for m in range(len(MS))])
    return want


@st.composite
def files(draw):
    es = draw(st.lists(experiment(), min_size=1, max_size=4))
    for e in es:
        e["desc"] = " ".join(e["desc"].split(" ")).strip()
        if e["map"] is None:
            e["gap"] = max(1, e["gap"])
            e["mrr"] = e["mrr"] if e["mrr"] is not None else 123456
    return {"es": es, "head": draw(st.sampled_from(["", "\n\n", "# results\n\n# more\n", "  # all of them\n", " \t\n\t# 1 of 2\n"]))}


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix="c29-")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


@CHECK.sub(files(), quick=500, shards=3)
def parse_and_tabulate(c, ctx):
    es = c["es"]
    ctx.nontrivial(len(es) > 1)
    ctx.label("empty groups", any(n == 0 for e in es for n in e["counts"]))
    with scratch() as d:
        src, dst = os.path.join(d, "in.txt"), os.path.join(d, "out.csv")
        with open(src, "w") as f:
            f.write(c["head"] + "".join(render(e) for e in es))
        with contextlib.redirect_stdout(io.StringIO()):
            results = rr.read_all_results(src)
            rr.run([src, dst])
        with open(dst, newline="") as f:
            table = list(csv.reader(f))
    ctx.equal(len(results), len(es), "experiments read")
    for (alg, res), e in zip(results.items(), es):
        ctx.equal((alg.algorithm, alg.topicCount, alg.trainingDescription), (e["name"], str(e["K"]), e["desc"]), "experiment")
        for what in ("precs", "recs"):
            want, got = rolled(e, what), getattr(res, what)
            ctx.check(set(got) == set(want), "groups are %r" % sorted(got))
            for g, (n, scores) in want.items():
                ctx.equal(got[g]["DocCount"], n, "documents in %s of %s" % (g, what))
                ctx.close([got[g][str(m)] for m in MS], scores, rtol=1e-9, what="%s of group %s" % (what, g))
        ctx.close(res.perp, -1 if e["perp"] is None else e["perp"] / 100.0, what="perplexity")
        ctx.close(res.mrr, -1 if e["mrr"] is None else e["mrr"] / 1e6, what="reciprocal rank")
        ctx.close(res.map, -1 if e["map"] is None else e["map"] / 1e6, what="average precision")
    head, rows = table[0], table[1:]
    ctx.equal(head, ["Algor", "TopicCount", "TrainDesc", "MRR", "MAP", "Perplexity", "Group", "M", "DocCount", "Precision", "Recall"], "header")
    ctx.equal(len(rows), len(es) * 7 * len(MS), "rows")
    for i, e in enumerate(es):
        p, r = rolled(e, "precs"), rolled(e, "recs")
        seen = set()
        for row in rows[i * 70:(i + 1) * 70]:
            x = dict(zip(head, row))
            ctx.equal((x["Algor"], x["TopicCount"], x["TrainDesc"]), (e["name"], str(e["K"]), e["desc"]), "experiment of a row")
            g, m = x["Group"], MS.index(int(x["M"]))
            seen.add((g, m))
            ctx.equal(int(x["DocCount"]), p[g][0], "documents of a row")
            ctx.close(float(x["Precision"]), p[g][1][m], rtol=1e-9, what="precision of a row")
            ctx.close(float(x["Recall"]), r[g][1][m], rtol=1e-9, what="recall of a row")
            ctx.close(float(x["MRR"]), -1 if e["mrr"] is None else e["mrr"] / 1e6, what="reciprocal rank of a row")
            ctx.close(float(x["MAP"]), -1 if e["map"] is None else e["map"] / 1e6, what="average precision of a row")
            if e["perp"] is None:
                ctx.equal(x["Perplexity"], "", "perplexity nobody reported")
            else:
                ctx.close(float(x["Perplexity"]), e["perp"] / 100.0, what="perplexity of a row")
        ctx.equal(len(seen), 70, "rows of an experiment")


@CHECK.sub(st.text("ab \"',\\;|", max_size=12), quick=300)
def experiment_titles(c, ctx):
    """A title's parts survive being written as one delimited row."""
    desc = " ".join(c.split(" ")).strip()
    alg = rr.Algorithm.from_file_entry("Lro, K=25 " + desc + "\n")
    ctx.nontrivial(len(desc) > 1)
    ctx.equal((alg.algorithm, alg.topicCount, alg.trainingDescription), ("Lro", "25", desc), "title")
    ctx.equal(alg.to_delim_str("|", lambda s: "<" + s + ">"), "<Lro>|25|<" + desc + ">", "delimited title")
    ctx.check("Lro" in str(alg) and "25" in str(alg) and desc in str(alg), "printed title is %r" % str(alg))
