"""C31: users are counted, shared out between groups and selected as their tweet counts allow."""
import contextlib
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from pbt import Check
import sidetopics.run.selectusers as su

CHECK = Check("C31", "generated count files and group tables, with targets below, at and above what the groups hold; "
              "non-trivial = two or more groups of which one cannot meet its equal share",
              ["shares are whole tweets: groups that are not exhausted may be one apart per round, and the total may exceed the target by one per group"])

user = st.tuples(st.integers(0, 12), st.integers(1, 60))


@st.composite
def groups(draw):
    n = draw(st.integers(1, 6))
    out = {}
    for g in range(n):
        users = draw(st.lists(user, min_size=0, max_size=6, unique_by=lambda u: u[0]))
        scale = draw(st.sampled_from([1, 1, 10]))
        out["g%d" % g] = {"g%du%d" % (g, u): k * scale for u, k in users}
    total = sum(sum(v.values()) for v in out.values())
    target = draw(st.one_of(st.integers(0, max(1, total)), st.integers(0, 30), st.just(total), st.integers(total, 2 * total + 20)))
    return {"groups": out, "target": target, "sort": draw(st.booleans())}


@CHECK.sub(groups(), quick=3000, shards=2)
def contributions(c, ctx):
    counts = {g: dict(us) for g, us in c["groups"].items()}
    have = {g: sum(us.values()) for g, us in counts.items()}
    total, target, n = sum(have.values()), c["target"], len(have)
    got = su.select_group_contribs(counts, target)
    ctx.equal(counts, c["groups"], "the counts given")
    short = [g for g in have if have[g] < target / n]
    ctx.nontrivial(n > 1 and 0 < len(short) < n)
    ctx.label("too few tweets", total < target)
    ctx.check(set(got) == set(have), "groups are %r" % sorted(got))
    for g in have:
        ctx.check(got[g] == int(got[g]), "group %s contributes %r tweets" % (g, got[g]))
        ctx.check(0 <= got[g] <= have[g], "group %s contributes %r of its %d" % (g, got[g], have[g]))
    s = sum(got.values())
    if total >= target:
        # equal shares of a target that does not divide exactly leave at most one short per group
        ctx.check(s > target - n, "%d assigned of a target of %d" % (s, target))
        ctx.check(s <= target + n, "%d assigned for a target of %d" % (s, target))
    else:
        ctx.equal(s, total, "all there is")
    spare = [got[g] for g in have if got[g] < have[g]]
    if spare:
        ctx.check(max(spare) == min(spare) or len(set(spare)) == 1, "groups with tweets to spare contribute %r" % spare)
        ctx.check(max(got.values()) <= min(spare) or max(got.values()) == min(spare), "an exhausted group contributes more than one with tweets to spare")


@CHECK.sub(groups(), quick=2000, shards=2)
def selection(c, ctx):
    counts = {g: dict(us) for g, us in c["groups"].items()}
    have = {g: sum(us.values()) for g, us in counts.items()}
    contribs = su.select_group_contribs({g: dict(us) for g, us in counts.items()}, c["target"])
    old = su.SortTweet
    su.SortTweet = c["sort"]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            got = su.select_users(counts, contribs)
    finally:
        su.SortTweet = old
    got = list(got)
    everyone = {u for us in c["groups"].values() for u in us}
    ctx.nontrivial(len(got) > 1)
    ctx.check(len(got) == len(set(got)) and set(got) <= everyone, "selected %r of %r" % (got, sorted(everyone)))
    ctx.equal(counts, c["groups"], "the counts given")
    for g, us in c["groups"].items():
        mine = [us[u] for u in got if u in us]
        ctx.check(sum(mine) >= min(contribs[g], have[g]), "group %s has %r selected for a share of %d" % (g, mine, contribs[g]))
        if mine:
            # nobody was added once the share was reached
            ctx.check(sum(mine) - max(mine) < contribs[g], "group %s has %r selected for a share of %d" % (g, mine, contribs[g]))
            if c["sort"]:
                left = [us[u] for u in us if u not in got]
                ctx.check(not left or max(left) <= min(mine), "a smaller user was taken before a larger one")
        elif contribs[g] > 0:
            ctx.fail("group %s has nobody selected for a share of %d" % (g, contribs[g]))


@CHECK.sub(st.fixed_dictionaries({
    "rows": st.lists(st.tuples(st.integers(0, 9), st.integers(0, 3), st.integers(0, 4), st.sampled_from(["", ".txt", ".json.gz", ".x"])), max_size=14),
    "lo": st.sampled_from([0, 1, 3]), "hi": st.sampled_from([4, 8, 100]), "nl": st.booleans()}), quick=600)
def counts_file(c, ctx):
    names = ["ann", "bob", "c.d", "eve_1", "fay"]
    lines = ["%d\tgroup %d\t%s%s" % (k, g, names[u], ext) for k, g, u, ext in c["rows"]]
    want = {}
    for k, g, u, ext in c["rows"]:
        name = names[u] + ext
        name = name.rsplit(".", 1)[0] if "." in name else name
        us = want.setdefault("group %d" % g, {})
        us[name] = us.get(name, 0) + k
    merged = len(c["rows"]) > sum(len(v) for v in want.values())
    want = {g: {u: k for u, k in us.items() if c["lo"] < k < c["hi"]} for g, us in want.items()}
    ctx.nontrivial(merged)
    d = tempfile.mkdtemp(prefix="c31-")
    try:
        path = os.path.join(d, "counts.txt")
        with open(path, "w") as f:
            f.write("\n".join(lines) + ("\n" if c["nl"] and lines else ""))
        got = su.read_counts(path, c["lo"], c["hi"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.equal(got, want, "counts")
