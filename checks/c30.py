"""C30: article metadata keeps its fields together, and authors and identifiers match one to one."""
import contextlib
import io
import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

from pbt import Check
import sidetopics.run.arxiv_to_aan as aan
import sidetopics.run.arxiv_author_ids as ids

CHECK = Check("C30", "generated article records (titles, author lists in several notations, affiliations, wrapped lines, journal "
              "references, abstracts that look like metadata); non-trivial = two or more authors, some of them on several articles",
              ["given names are not name particles unless a suffix shows they are given, and names do not contain the word 'and'"])

GIVEN = ["Anna", "B.", "C.D.", "Erik", "F.", "Gerd-Jan", "H", "Andy", "Sandy"]
FAMILY = ["Witten", "Vafa", "O'Neil", "Strominger", "Li", "Sanderson", "Brand", "Anders", "Hooft"]
PARTICLE = ["van", "de", "Von", "Mc", "di", "del"]
SUFFIX = ["Jr.", "jr", "II", "III", "PhD"]


@st.composite
def author(draw):
    kind = draw(st.sampled_from(["plain", "plain", "plain", "particle", "suffix", "both", "dotted", "single"]))
    family = draw(st.sampled_from(FAMILY))
    given = draw(st.lists(st.sampled_from(GIVEN), min_size=1, max_size=3))
    if kind == "single":
        return [family, family]
    if kind == "dotted":
        initials = draw(st.lists(st.sampled_from("ABCDEFG"), min_size=1, max_size=3))
        return [".".join(initials) + "." + family, family + ", " + ". ".join(initials) + "."]
    name = family
    if kind in ("particle", "both"):
        name = draw(st.sampled_from(PARTICLE)) + " " + name
    if kind in ("suffix", "both"):
        name = name + " " + draw(st.sampled_from(SUFFIX))
    if kind == "suffix" and draw(st.integers(0, 3)) == 0:
        given = given[:-1] + [draw(st.sampled_from(["Van", "Del", "Mac"]))]      # a given name, whatever else it might be
        if len(given) > 1:
            given = given[::-1]
    return [" ".join(given) + " " + name, name + ", " + " ".join(given)]


WORDS = ["On", "Strings:", "Black", "holes,", "{SU(2)}", "and", "D-branes", "author={x}", "M-theory", "2.0", "(revised)", "author"]


@st.composite
def article(draw):
    n = draw(st.integers(1, 5))
    return {"year": draw(st.sampled_from([92, 96, 99, 0, 3, 12, 90])), "num": draw(st.integers(1, 12999)),
            "title": draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=8)),
            "authors": draw(st.lists(author(), min_size=1, max_size=n)),
            "seps": draw(st.lists(st.sampled_from([", ", ",", " and ", ", and ", ",and ", " , "]), min_size=n, max_size=n)),
            "affil": draw(st.lists(st.sampled_from(["", "", " (Princeton)", " (CERN, Geneva (CH) and Rome)", " (1)"]), min_size=n, max_size=n)),
            "wrap": draw(st.sampled_from([0, 2, 3, 5])), "key": draw(st.sampled_from(["Authors", "Author", "authors"])),
            "journal": draw(st.one_of(st.none(), st.sampled_from(["Phys.Rev. D50 (1994) 2700", "Nucl.Phys. B477", "JHEP", "JHEP/9601 (1996)", "Phys.Lett.{B},B4 12"]))),
            "comments": draw(st.sampled_from([None, "24 pages: no figures", "Title: none, authors many"])),
            "order": draw(st.booleans()), "abstract": draw(st.sampled_from(["Text.", "Title: Wrong\nAuthors: Nobody", "Journal-ref: Wrong 1"]))}


def wrapped(key, text, every):
    words = text.split(" ")
    if not every:
        return key + ": " + text + "\n"
    lines = [" ".join(words[i:i + every]) for i in range(0, len(words), every)]
    return key + ": " + "\n   ".join(lines) + "\n"


def render(a):
    people = ""
    for i, (name, _) in enumerate(a["authors"]):
        people += (a["seps"][i] if i else "") + name + a["affil"][i]
    fields = [wrapped("Title", " ".join(a["title"]), a["wrap"]), wrapped(a["key"], people, a["wrap"])]
    if a["order"]:
        fields.reverse()
    if a["comments"]:
        fields.append("Comments: %s\n" % a["comments"])
    if a["journal"]:
        fields.append("Journal-ref: %s\n" % a["journal"])
    return "-" * 78 + "\n\\\\\nPaper: hep-th/%s\nFrom: someone <a@b.c>\nDate: Thu, 18 Jan 1996 11:05:36 GMT   (9kb)\n\n%s\\\\\n%s\n\\\\\n" % (
        name_of(a), "".join(fields), a["abstract"])


def name_of(a):
    return "%02d%05d" % (a["year"], a["num"])


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix="c30-")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def swap(s):
    return s.replace("{", "(").replace("}", ")")


def expect(a):
    year = a["year"] + (1900 if a["year"] >= 90 else 2000)
    e = [("id", str(int(name_of(a)))), ("title", swap(" ".join(a["title"]))),
         ("author", "; ".join(acl for _, acl in a["authors"]))]
    if a["journal"]:
        e.append(("venue", swap(a["journal"].split(" ")[0])))
    return e + [("year", str(year))]


def fields(text):
    """key, value pairs of each record"""
    out = []
    for rec in text.split("\n\n"):
        if rec.strip():
            out.append([(m.group(1), m.group(2)) for m in re.finditer(r"^(\w+)=\{(.*)\}$", rec, re.M)])
    return out


@CHECK.sub(st.lists(article(), min_size=1, max_size=4, unique_by=lambda a: (a["year"], a["num"])), quick=600, shards=2)
def articles(c, ctx):
    people = [n[1] for a in c for n in a["authors"]]
    ctx.nontrivial(len(set(people)) > 1 and len(c) > 1)
    ctx.label("author on two articles", len(people) > len(set(people)))
    with scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        meta = os.path.join(d, "meta.txt")
        with open(meta, "w") as out:
            for a in c:
                path = os.path.join(d, name_of(a) + ".abs")
                with open(path, "w") as f:
                    f.write(render(a))
                paper = aan.read_paper_metadata(path)
                ctx.equal(list(paper.authors), [n[0] for n in a["authors"]], "authors of %s" % name_of(a))
                ctx.equal(paper.title, " ".join(a["title"]), "title of %s" % name_of(a))
                ctx.equal(paper.complete(), a["journal"] is not None, "completeness")
                aan.write_paper_metadata(out, paper)
                one = os.path.join(d, "one.txt")
                aan.run([path, one])
                with open(one) as f:
                    ctx.equal(fields(f.read()), [expect(a)], "record of %s" % name_of(a))
        with open(meta) as f:
            got = fields(f.read())
        dst = os.path.join(d, "ids.txt")
        ids.run(meta, dst)
        with open(dst) as f:
            table = [line.rstrip("\n").split("\t") for line in f]
    ctx.equal(got, [expect(a) for a in c], "records")
    ctx.check(all(len(t) == 2 for t in table), "identifiers are %r" % table)
    ctx.equal(sorted(t[1] for t in table), sorted(set(people)), "authors with identifiers")
    ctx.equal([int(t[0]) for t in table], list(range(1, len(table) + 1)), "identifiers")


@CHECK.sub(st.tuples(article(), st.sampled_from(["title", "authors"])), quick=150)
def incomplete(c, ctx):
    """A record without a title or without authors is refused, not completed from elsewhere."""
    a, gone = c
    ctx.nontrivial(len(a["authors"]) > 1)
    text = render(a)
    text = re.sub(r"(?m)^(%s: .*\n(?:   .*\n)*)" % ("Title" if gone == "title" else a["key"]), "", text, count=1)
    with scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        path = os.path.join(d, name_of(a) + ".abs")
        with open(path, "w") as f:
            f.write(text)
        try:
            paper = aan.read_paper_metadata(path)
        except ValueError:
            return
        ctx.fail("a record without %s was read as %r by %r" % (gone, paper.title, paper.authors))


@CHECK.sub(author(), quick=400)
def names(c, ctx):
    ctx.nontrivial(" " in c[0])
    ctx.equal(aan.bibtex_to_acl_author(c[0]), c[1], "name of %r" % c[0])
    ctx.equal(aan.bibtex_to_acl_author("  " + c[0] + " "), c[1], "name of %r" % c[0])


@CHECK.sub(st.text("ab(c) (),", max_size=14), quick=400)
def parentheses(c, ctx):
    depth, want = 0, ""
    for ch in c:
        if depth == 0 and ch != "(":
            want += ch
        elif ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
    ctx.nontrivial(c.count("(") > 1)
    ctx.equal(aan.eliminateParentheses(c), want, "text outside parentheses of %r" % c)


ACCENTS = ["\\" + ch for ch in "'`^\"H~ckl=b.druvtoi"]


@CHECK.sub(st.lists(st.tuples(st.sampled_from(["Schr", "M", "Erd", "a, b", "{x}", "", "$", "12 "]), st.sampled_from(ACCENTS + [""])),
                    min_size=1, max_size=8), quick=200)
def accents(c, ctx):
    """accent commands go, and nothing else does"""
    ctx.nontrivial(sum(1 for _, a in c if a) > 1)
    ctx.equal(aan.unlatex("".join(t + a for t, a in c)), "".join(t for t, _ in c), "text without accent commands")
