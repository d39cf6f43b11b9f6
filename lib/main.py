"""Entry point: prepares the libraries and the extensions, then runs one check."""
import os
import subprocess
import sys
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
WHEELS = "/opt/veriftools/wheels"
NEEDED = [("hypothesis", "hypothesis-6"), ("sortedcontainers", "sortedcontainers-"),
          ("attr", "attrs-")]


def ensure_deps():
    """Unpacks the wheels the checks need under .deps (ignored by git)."""
    target = os.path.join(VERIF, ".deps")
    missing = [(p, w) for p, w in NEEDED if not os.path.isdir(os.path.join(target, p))]
    if missing:
        tmp = target + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        for _, prefix in NEEDED:
            found = sorted(f for f in os.listdir(WHEELS)
                           if f.startswith(prefix) and f.endswith(".whl"))
            # cp312 or pure wheels only
            found = [f for f in found if "cp312" in f or "none-any" in f]
            if not found:
                raise RuntimeError("no wheel for " + prefix)
            with zipfile.ZipFile(os.path.join(WHEELS, found[-1])) as z:
                z.extractall(tmp)
        if os.path.isdir(target):
            import shutil
            shutil.rmtree(target)
        os.rename(tmp, target)
    return target


def build_ext():
    if os.environ.get("VERIF_NOBUILD"):
        return
    r = subprocess.run(["/opt/venv/bin/python", os.environ.get("VERIF_BUILD_EXT", "/opt/vp/build_ext.py")], cwd=REPO,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode("utf8", "replace")[-3000:])
        sys.stderr.write("\nextension build returned %d\n" % r.returncode)


def main():
    deps = ensure_deps()
    build_ext()
    if sys.argv[1:] == ["--setup"]:
        print("setup done")
        return 0
    sys.path[:0] = [HERE, VERIF, REPO]
    sys.path.append(deps)     # last: never shadows what the repository itself uses
    os.environ.setdefault("VERIF_SEED", "1")
    os.environ.setdefault("VERIF_TIER", "quick")
    import runner
    return runner.cli(sys.argv[1:], VERIF, REPO)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
