import importlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback
import zlib

from pbt import (Ctx, PropertyFailure, HarnessError, Skip, Discard, canonical, brief)

CASE_CPU_LIMIT = 90.0      # s of processor time for one case that normally takes ms
CASE_WALL_LIMIT = 420.0    # s without an answer and without burning CPU: inconclusive
SHRINK_LIMIT = 30.0
MAX_PARALLEL = int(os.environ.get("VERIF_JOBS", "8"))


class StopShrinking(BaseException):
    pass


class BudgetOver(BaseException):
    pass


def reset_rng():
    import random
    import ctypes
    import numpy as np
    random.seed(12345)
    np.random.seed(12345)
    try:
        ctypes.CDLL(None).srand(12345)
    except Exception:
        pass


def blame(exc):
    """True when the exception is the check's own trouble and not the code's."""
    if isinstance(exc, (HarnessError, ImportError)):
        return True
    if isinstance(exc, OSError) and not isinstance(exc, FileNotFoundError):
        return not _has_repo_frame(exc)
    if isinstance(exc, AttributeError):
        return not _has_repo_frame(exc) and type(getattr(exc, "obj", None)).__name__ == "module"
    return False


def _has_repo_frame(exc):
    tb = exc.__traceback__
    repo = os.environ.get("VERIF_REPO", "/repo") + "/"
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(repo) or name.startswith("sidetopics/"):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    if isinstance(exc, PropertyFailure):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for f in reversed(tb):
        if "sidetopics" in f.filename:
            where = " at %s:%s" % (f.filename, f.lineno)
            break
    return "%s: %s%s" % (type(exc).__name__, brief(str(exc)), where)


def execute(sub, case, ctx):
    """Runs one case. Returns None, or the description of the violation."""
    import warnings
    import numpy as np
    reset_rng()
    ctx.begin(case)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            sub.run(case, ctx)
    except Discard:
        ctx.discarded += 1
        return None
    except Skip:
        raise
    except (Exception, SystemExit) as e:
        if blame(e):
            raise
        return describe(e)
    ctx.end()
    return None


def run_task(sub, pid, shard, n, seed, deadline, casefile):
    import logging
    logging.disable(logging.CRITICAL)
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, Verbosity
    ctx = Ctx()
    best = {}
    t_fail = [None]
    hseed = zlib.crc32(("%s/%s/%d/%d" % (pid, sub.name, shard, seed)).encode())
    cf = open(casefile, "w")

    def note(case):
        text = canonical(case)
        cf.seek(0)
        cf.truncate()
        cf.write(text)
        cf.flush()
        return text

    def one(case):
        if t_fail[0] is not None and time.time() - t_fail[0] > SHRINK_LIMIT:
            raise StopShrinking()
        if t_fail[0] is None and time.time() > deadline:
            raise BudgetOver()
        text = note(case)
        case = json.loads(text)      # exactly what a replay will see
        msg = execute(sub, case, ctx)
        if msg is not None:
            if t_fail[0] is None:
                t_fail[0] = time.time()
            if not best or len(text) <= len(best["text"]):
                best.update(text=text, msg=msg)
            raise PropertyFailure("case fails")

    out = {"sub": sub.name, "shard": shard, "truncated": False, "skipped": None, "error": None,
           "violation": None}
    try:
        if shard == 0:
            for c in sub.seeds:
                one(c)
        strat = sub.strategy() if callable(sub.strategy) and not hasattr(sub.strategy, "example") \
            else sub.strategy
        test = given(strat)(one)
        test = settings(max_examples=max(1, n), database=None, deadline=None,
                        suppress_health_check=list(HealthCheck), print_blob=False,
                        report_multiple_bugs=False, verbosity=Verbosity.quiet,
                        phases=[Phase.generate, Phase.shrink])(test)
        hypothesis.seed(hseed)(test)()
    except StopShrinking:
        pass
    except BudgetOver:
        out["truncated"] = True
    except Skip as e:
        out["skipped"] = str(e)
    except BaseException as e:
        if not best:
            out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if best:
        out["violation"] = {"case": json.loads(best["text"]), "msg": best["msg"]}
    out.update(evaluations=ctx.evaluations, keys=sorted(ctx.nontrivial_keys), labels=ctx.labels,
               samples=ctx.samples, discarded=ctx.discarded)
    return out


class Worker:
    def __init__(self, fn, workdir, tag):
        self.casefile = os.path.join(workdir, tag + ".case")
        self.outfile = os.path.join(workdir, tag + ".out")
        self.tag = tag
        self.started = time.time()
        self.last = None
        self.last_cpu = 0.0
        self.last_t = time.time()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                null = os.open(os.devnull, os.O_RDWR)
                keep = os.environ.get("VERIF_DEBUG")
                os.dup2(null, 0)
                if not keep:
                    os.dup2(null, 1)
                    os.dup2(null, 2)
                sys.setrecursionlimit(5000)
                os.chdir(workdir)
                res = fn(self.casefile)
                with open(self.outfile + ".tmp", "w") as f:
                    json.dump(res, f)
                os.rename(self.outfile + ".tmp", self.outfile)
                code = 0
            except BaseException:
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
            finally:
                os._exit(code)

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.pid) as f:
                parts = f.read().rsplit(")", 1)[1].split()
            return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")
        except Exception:
            return None

    def stuck(self):
        """'cpu', 'wall' or None"""
        try:
            st = os.stat(self.casefile)
            mark = (st.st_mtime_ns, st.st_size)
        except OSError:
            mark = None
        c = self.cpu()
        if mark != self.last or c is None:
            self.last, self.last_t = mark, time.time()
            self.last_cpu = c or 0.0
            return None
        if mark is None:
            return None
        if c - self.last_cpu > CASE_CPU_LIMIT:
            return "cpu"
        if time.time() - self.last_t > CASE_WALL_LIMIT:
            return "wall"
        return None

    def kill(self):
        for k in (lambda: os.killpg(self.pid, signal.SIGKILL), lambda: os.kill(self.pid, signal.SIGKILL)):
            try:
                k()
            except OSError:
                pass

    def case(self):
        try:
            return json.load(open(self.casefile))
        except Exception:
            return None


CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}


def run_parallel(tasks, workdir, jobs, hard_deadline):
    """tasks: list of (tag, subname, fn). Yields result dicts."""
    pending = list(tasks)
    live = []
    results = []
    while pending or live:
        while pending and len(live) < jobs:
            tag, subname, fn = pending.pop(0)
            w = Worker(fn, workdir, tag)
            w.sub = subname
            live.append(w)
        time.sleep(0.02)
        for w in list(live):
            pid, status = os.waitpid(w.pid, os.WNOHANG)
            base = {"sub": w.sub, "tag": w.tag, "truncated": False, "skipped": None,
                    "error": None, "violation": None, "evaluations": 0, "keys": [],
                    "labels": {}, "samples": [], "discarded": 0}
            if pid == 0:
                s = w.stuck()
                over = time.time() > hard_deadline
                if s or over:
                    w.kill()
                    os.waitpid(w.pid, 0)
                    live.remove(w)
                    if s == "cpu":
                        base["violation"] = {"case": w.case(),
                                             "msg": "does not terminate (over %d s of processor time on one case)" % CASE_CPU_LIMIT}
                    else:
                        base["truncated"] = True
                        base["error"] = None if over else "a case gave no answer for %d s" % CASE_WALL_LIMIT
                    results.append(base)
                continue
            live.remove(w)
            if os.path.exists(w.outfile):
                r = json.load(open(w.outfile))
                base.update(r)
                results.append(base)
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASHES:
                base["violation"] = {"case": w.case(), "msg": "the process died with signal %d" % os.WTERMSIG(status)}
                results.append(base)
            else:
                base["error"] = "worker ended with status %r" % status
                results.append(base)
        # one violation settles the verdict: give the others a moment, then stop
        if any(r["violation"] for r in results):
            t0 = time.time()
            while live and time.time() - t0 < 1.0:
                time.sleep(0.05)
                for w in list(live):
                    pid, _ = os.waitpid(w.pid, os.WNOHANG)
                    if pid:
                        live.remove(w)
                        if os.path.exists(w.outfile):
                            r = json.load(open(w.outfile))
                            r["tag"] = w.tag
                            results.append(r)
            for w in live:
                w.kill()
                os.waitpid(w.pid, 0)
            live = []
            pending = []
    return results


def replay(check, path):
    data = json.load(open(path))
    sub = [s for s in check.subs if s.name == data["sub"]][0]
    ctx = Ctx()
    msg = execute(sub, data["case"], ctx)
    if msg is None:
        print("replay: property=%s holds on %s" % (check.pid, path))
        return 0
    print("replay: %s" % msg)
    print("VIOLATION property=%s replay=%s" % (check.pid, path))
    return 1


def cli(argv, verif, repo):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--n", type=int)
    ap.add_argument("--verbose", "-v", action="store_true")
    args = ap.parse_args(argv)
    import logging
    logging.disable(logging.CRITICAL)
    pid = args.pid
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import warnings
    warnings.simplefilter("ignore")
    mod = importlib.import_module("checks." + pid.lower())
    check = mod.CHECK
    if args.replay:
        return replay(check, args.replay)

    budget = 600.0 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "10800"))
    soft = t0 + budget
    subs = [s for s in check.subs if not args.sub or s.name == args.sub]
    tasks = []
    for s in subs:
        total = args.n or (s.quick if tier == "quick" else s.thorough)
        shards = s.shards if tier == "quick" else max(s.shards, 4)
        for k in range(shards):
            n = max(1, total // shards)
            tasks.append(("%s.%d" % (s.name, k), s.name,
                          lambda cf, s=s, k=k, n=n: run_task(s, pid, k, n, seed, soft, cf)))
    # long tasks first
    import hypothesis  # noqa: imported once, before forking
    import shutil
    workdir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        results = run_parallel(tasks, workdir, MAX_PARALLEL, soft + 120)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    known = []
    errors = [r for r in results if r["error"]]
    violations = [r for r in results if r["violation"]]
    # a crash or hang is confirmed in a fresh process by the replay; nothing to add here
    if not violations:
        known = run_known(check, verif)

    ev = evidence(check, results, known, tier, seed, t0)
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for r in results:
        if r["skipped"] and r.get("shard", 0) == 0:
            print("note: %s skipped: %s" % (r["sub"], r["skipped"]))
    if args.verbose:
        print(json.dumps(ev["coverage"]["by_sub_check"], indent=1))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violations:
        os.makedirs(os.path.join(verif, "replays"), exist_ok=True)
        seen = set()
        for r in sorted(violations, key=lambda r: len(canonical(r["violation"]["case"]))):
            if r["sub"] in seen:
                continue
            seen.add(r["sub"])
            path = os.path.join(verif, "replays", "%s-%s.json" % (pid, r["sub"]))
            with open(path, "w") as f:
                json.dump({"property": pid, "sub": r["sub"], "case": r["violation"]["case"],
                           "message": r["violation"]["msg"]}, f, indent=1)
                f.write("\n")
            print("%s: %s" % (r["sub"], brief(r["violation"]["msg"], 600)))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for r in errors:
            sys.stderr.write("ERROR in %s: %s\n" % (r["sub"], r["error"]))
        return 2
    print("property %s held: %d cases, %d distinct non-trivial, %.1f s" % (
        pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


def run_known(check, verif):
    """Probes of the committed known findings: each says what fails, or None."""
    listed = {}
    path = os.path.join(verif, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == check.pid and d.get("status") == "known":
                    listed[d["probe"]] = d["what"]
    import warnings
    import numpy as np
    out = []
    for fn in check.known:
        if fn.__name__ not in listed:
            continue
        reset_rng()
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                still = fn()
        except Exception:
            still = True
        if still:
            out.append(listed[fn.__name__])
    return out


def evidence(check, results, known, tier, seed, t0):
    by = {}
    keys = set()
    samples = []
    for r in results:
        b = by.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0,
                                     "labels": {}, "truncated": False})
        b["evaluations"] += r["evaluations"]
        b["discarded"] += r["discarded"]
        b.setdefault("_k", set()).update(r["keys"])
        b["truncated"] = b["truncated"] or r["truncated"]
        if r["skipped"]:
            b["skipped"] = r["skipped"]
        for k, v in r["labels"].items():
            b["labels"][k] = b["labels"].get(k, 0) + v
        keys.update((r["sub"], k) for k in r["keys"])
        if r["samples"] and sum(1 for s in samples if s["sub"] == r["sub"]) < 1:
            samples.append({"sub": r["sub"], "case": r["samples"][-1]})
    for s in check.subs:
        if s.name in by:
            b = by[s.name]
            b["distinct_nontrivial"] = len(b.pop("_k"))
            b["rule"] = s.rule
    return {
        "property": check.pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(keys),
            "rule": check.rule,
            "samples": samples or [{"note": "no non-trivial case completed"}],
            "by_sub_check": by,
            "known_findings_probed": known,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(1 for r in results if r["violation"]),
    }
