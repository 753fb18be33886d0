"""Confirms planted bugs: plant.py seeded/<id> ... ; checks each against its property with --check [PROP ...].

For each: the patch applies, the package imports, the stable tests pass, demo.sh fails with it and passes without.
Works on copies under /tmp, removed afterwards."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", NUMBA_CPU_NAME="generic", NUMBA_NUM_THREADS="2",
           OPENBLAS_NUM_THREADS="1", NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, **kw):
    env = dict(ENV, PYTHONPATH=cwd)
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(d):
    out = os.path.join(d, ".junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "3", "--dist", "loadscope", "-o", "python_files=test_*.py tests.py",
        "-o", "junit_family=xunit2", "--junitxml=" + out, "tests"], d)
    sh(["/usr/bin/python3", "/opt/vp/results.py", os.path.join(d, ".res.json"), "junit:" + out], d)
    r = json.load(open(os.path.join(d, ".res.json")))
    return r


def one(path, checks):
    sid = os.path.basename(path.rstrip("/"))
    meta = json.load(open(os.path.join(path, "meta.json")))
    d = tempfile.mkdtemp(prefix="plant_%s_" % sid)
    say = []
    try:
        c = os.path.join(d, "repo")
        shutil.copytree(REPO, c, symlinks=True)
        demo = os.path.join(d, "demo")
        shutil.copytree(path, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        clean = subprocess.run(["timeout", "300", "bash", os.path.join(demo, "demo.sh")], cwd=c, env=dict(ENV, PYTHONPATH=c),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        say.append("clean demo %d" % clean.returncode)
        if clean.returncode:
            say.append(clean.stdout[-600:])
        p = sh(["git", "apply", os.path.join(path, "patch.diff")], c)
        if p.returncode:
            return sid, ["PATCH DOES NOT APPLY " + p.stdout]
        bad = sh(["timeout", "300", "bash", os.path.join(demo, "demo.sh")], c)
        say.append("planted demo %d: %s" % (bad.returncode, bad.stdout.strip()[-160:]))
        r = tests(c)
        passed = {k for k, v in r.items() if v == "passed"} if all(isinstance(v, str) for v in r.values()) else set(r.get("passed", []))
        lost = STABLE - passed
        say.append("tests %s" % ("all pass" if not lost else "LOST %s" % sorted(lost)[:3]))
        good = clean.returncode == 0 and bad.returncode != 0 and not lost
        say.append("COUNTS" if good else "DOES NOT COUNT")
        for k in ([] if checks is None else checks or [meta["property"]]):
            q = subprocess.run([sys.executable, "run_check.py", k], cwd="/verif", env=dict(os.environ, VERIF_REPO=c),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            first = [x for x in q.stdout.splitlines() if "clause" in x][:1]
            say.append("%s %s %s" % (k, {0: "MISSED", 1: "caught"}.get(q.returncode, "rc %d" % q.returncode), first))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return sid, say


if __name__ == "__main__":
    args = sys.argv[1:]
    checks = None
    if "--check" in args:
        i = args.index("--check")
        checks, args = args[i + 1:], args[:i]
    with ThreadPoolExecutor(int(os.environ.get("W", 2))) as ex:
        for sid, say in ex.map(lambda p: one(os.path.abspath(p), checks), args):
            print(sid, "|", " | ".join(say), flush=True)
