"""C33: reports list exactly the outputs of their experiment."""
import contextlib
import io
import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

from pbt import Check
import sidetopics.run.report_generator as rg
import sidetopics.run.__main__ as run

CHECK = Check("C33", "generated directories of saved models (named by the experiment driver) and files that resemble them, report requests "
              "with several topic counts, ranks and bounds; non-trivial = a request matched by some but not all of the files",
              ["reports are made from templates that use the documented placeholders"])

KS = [1, 5, 10, 15, 50, 100]
PS = [0, 1, 5, 10, 50]
name = st.tuples(st.sampled_from(["ctm/bohning", "ctm/bouchard", "stm-yv/bohning", "stm-yv/bouchard"]), st.sampled_from(KS),
                 st.sampled_from(PS), st.integers(0, 12))
DECOYS = ["%s.bak", "%s~", "old_%s", "%s.gz", ".%s", "x%s"]


@st.composite
def case(draw):
    return {"files": draw(st.lists(name, max_size=14, unique=True)),
            "decoys": draw(st.lists(st.tuples(name, st.sampled_from(DECOYS)), max_size=4, unique=True)),
            "model": draw(st.sampled_from(["ctm", "stm_yv"])), "bound": draw(st.sampled_from([None, "bohning", "bouchard"])),
            "ks": draw(st.lists(st.sampled_from(KS), min_size=1, max_size=3, unique=True)),
            "ps": draw(st.lists(st.sampled_from(PS[1:]), min_size=1, max_size=3, unique=True)),
            "nips": draw(st.booleans()), "present": draw(st.sampled_from([None, "edited", "edited", ""]))}


def file_of(f, model=None):
    n, k, p, fold = f
    path = run.newModelFile(n, k, None if n.startswith("ctm") else p, fold, "/d")
    return os.path.basename(path)


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix="c33-")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


TEMPLATE = "%s|$bound|$codePath|$outFilesPrefix|[$outputFiles]|$implName"


def put(path, text):
    with open(path, "w") as f:
        f.write(text)


def read(path):
    with open(path) as f:
        return f.read()


def by_hand(fs):
    """the same names, made here"""
    out = {}
    for n, k, p, fold in fs:
        kind, bound = n.replace("-", "_").split("/")
        out.setdefault((kind, bound, k, None if kind == "ctm" else p), set()).add((n, k, p if kind != "ctm" else 0, fold))
    return out


@CHECK.sub(case(), quick=700, shards=3)
def reports(c, ctx):
    bounds = [c["bound"]] if c["bound"] else ["bouchard", "bohning"]
    have = {}
    for f in c["files"]:
        kind, bound = f[0].replace("-", "_").split("/")
        have.setdefault((kind, bound, f[1], None if kind == "ctm" else f[2]), set()).add(file_of(f))
    wanted = {}
    for b in bounds:
        for k in c["ks"]:
            for p in ([None] if c["model"] == "ctm" else c["ps"]):
                fname = "%s_%s_k_%d%s.ipynb" % (c["model"], b, k, "" if p is None else "_p_%d" % p)
                wanted[fname] = (b, have.get((c["model"], b, k, p), set()))
    hits = set().union(*[w[1] for w in wanted.values()])
    ctx.nontrivial(0 < len(hits) < len(c["files"]))
    nips = c["nips"] and c["model"] == "stm_yv"
    with scratch() as d, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        out, rep, tem = (os.path.join(d, x) for x in ("out", "reports", "templates"))
        for x in (out, rep, tem):
            os.mkdir(x)
        for f in c["files"]:
            put(os.path.join(out, file_of(f)), "model")
        for f, pattern in c["decoys"]:
            put(os.path.join(out, pattern % file_of(f)), "not a model")
        for t, kind in ((rg.CtmTemplateFileName, "ctm"), (rg.StmTemplateFileName, "stm"), (rg.StmTemplateFileNameNips, "stm-nips")):
            put(os.path.join(tem, t), TEMPLATE % kind)
        for t in (rg.LatexTemplate, rg.PdfConversionScript):
            put(os.path.join(tem, t), "from the templates")
            if c["present"] is not None:
                put(os.path.join(rep, t), c["present"])
        args = ["-m", c["model"] + ("_" + c["bound"] if c["bound"] else ""), "-k", ",".join(map(str, c["ks"])), "-i", out,
                "-o", rep, "-t", tem, "-q", ",".join(map(str, c["ps"]))]
        if nips:
            args += ["-d", rg.NIPS]
        before = sorted(os.listdir(out))
        rg.run(args)
        made = {x: read(os.path.join(rep, x)) for x in os.listdir(rep)}
        ctx.equal(sorted(os.listdir(out)), before, "the outputs")
        if c["model"] == "ctm":
            folds = rg.generate_reports_ctm(bounds, c["ks"], out, rep, tem)
        else:
            folds = rg.generate_reports_stm_yv(bounds, c["ks"], c["ps"], out, rep, tem)
    ctx.equal({os.path.basename(k): v for k, v in folds.items()}, {k: len(v[1]) for k, v in wanted.items()}, "folds of each report")
    ctx.equal(sorted(made), sorted([k for k, v in wanted.items() if v[1]] + [rg.LatexTemplate, rg.PdfConversionScript]), "files made")
    for t in (rg.LatexTemplate, rg.PdfConversionScript):
        ctx.equal(made[t], "from the templates" if c["present"] is None else c["present"], "conversion file")
    for k, (b, files) in wanted.items():
        if not files:
            continue
        kind, bound, _, prefix, listed, impl = made[k].split("|")
        ctx.equal(kind, "ctm" if c["model"] == "ctm" else "stm-nips" if nips else "stm", "template of " + k)
        ctx.equal(bound.lower(), b, "bound of " + k)
        ctx.equal(impl, {"bouchard": c["model"], "bohning": c["model"] + "_bohning"}[b], "module of " + k)
        ctx.equal(prefix.strip("'"), out + os.sep, "directory of " + k)
        ctx.equal(sorted(re.findall(r"outputPathPrefix \+ '([^']*)'", listed)), sorted(files), "outputs listed in " + k)
