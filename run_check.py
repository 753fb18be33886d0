#!/usr/bin/env python3
"""Runs the check of one property: run_check.py <ID> [quick|thorough].

Pipeline (see DESIGN.md): 1. TLC checks the design models exhaustively,
2. TLC -simulate generates histories, 3. drivers replay them (and seeded input
sweeps) into the real code and record traces, 4. TLC validates every trace
against the specification.  Exit 0 held, 1 violation, 2 machinery failure."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from checks import CHECKS  # noqa: E402

TLA = "/opt/veriftools/tla"
JAR = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")


class Machinery(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ""
        return None, out if isinstance(out, str) else out.decode(errors="replace")


def tlc(work, module, cfg, *flags, env=None, timeout=800, mem="3g", workers="1"):
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xss256m", "-Xmx" + mem, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-cp", JAR + ":" + work, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", workers, "-config", cfg, *flags, module]
    return sh(cmd, work, env, timeout)


def model_check(work, item):
    module, cfg, expect = item
    rc, out = tlc(work, module, cfg, workers="4", mem="6g")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        raise Machinery("TLC gave no state count for %s %s:\n%s" % (module, cfg, out[-3000:]))
    if expect == "ok" and rc != 0:
        raise Machinery("design model %s %s violated:\n%s" % (module, cfg, out[-3000:]))
    if expect == "violated" and rc not in (12, 13):
        raise Machinery("design model %s %s should be violated (rc %s):\n%s" % (module, cfg, rc, out[-3000:]))
    return {"model": module, "config": cfg, "expected": expect,
            "generated": int(m.group(1)), "distinct": int(m.group(2))}


def generate(work, item, seed, outdir, tier):
    module, cfg, nq, nt, depth, name = item
    num = nq if tier == "quick" else nt
    out_file = os.path.join(outdir, name + ".ndjson")
    rc, out = tlc(work, module, cfg, "-simulate", "num=%d" % num, "-depth", str(depth + 2),
                  "-seed", str(1000003 * seed + 17), env={"GENFILE": out_file})
    if rc != 0 or not os.path.exists(out_file):
        raise Machinery("generator %s %s failed (rc %s):\n%s" % (module, cfg, rc, out[-3000:]))
    return {"model": module, "config": cfg, "histories": sum(1 for _ in open(out_file))}


def validate(work, path, timeout):
    """Validate one trace file; its name is <TraceModule>__<anything>.ndjson."""
    module = os.path.basename(path).split("__")[0]
    verdict = path + ".verdict"
    n = sum(1 for _ in open(path))
    rc, out = tlc(work, module, module + ".cfg" if os.path.exists(os.path.join(work, module + ".cfg")) else "Trace.cfg", env={"TRACE": path, "VERDICT": verdict}, timeout=timeout)
    if os.path.exists(verdict) and rc == 0:
        v = json.load(open(verdict))
        if v["consumed"] != n:
            raise Machinery("%s: consumed %s of %s events" % (path, v["consumed"], n))
        fails = v["fails"] if isinstance(v["fails"], list) else list(v["fails"].values())
        hits = v["hits"] if isinstance(v["hits"], dict) else {}
        return {"file": path, "events": n, "fails": fails, "hits": hits}
    if rc is None:
        raise Machinery("trace validation of %s timed out" % path)
    # An event whose shape no specification action can read is not a behaviour
    # of the specification: a violation (the unchanged tree never produces one).
    if re.search(r"Error: (TLC threw|Evaluating|Attempted|The error occurred|In evaluation|The following)"
                 r"|Attempted to|was not in the domain|The first argument of|nonexistent field|out of domain", out):
        m = re.search(r"/\\ l = (\d+)", out[out.rfind("State "):] if "State " in out else out)
        return {"file": path, "events": n, "hits": {}, "tlc": out[-3000:],
                "fails": [{"line": int(m.group(1)) if m else 0, "event": "?", "tag": "", "err": "",
                           "clause": "ObservationReadable"}]}
    raise Machinery("TLC failed on %s (rc %s):\n%s" % (path, rc, out[-3000:]))


def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) clause=(\S+) event=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res.append({"clause": m.group(2), "event": m.group(3), "text": m.group(4).strip()})
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    keep = os.environ.get("VERIF_KEEP")
    try:
        spec = os.path.join(work, "spec")
        gen = os.path.join(work, "gen")
        traces = os.path.join(work, "traces")
        for d in (gen, traces):
            os.makedirs(d)
        shutil.copytree(os.path.join(ROOT, "spec"), spec)
        for f in os.listdir(os.path.join(spec, "cfg")):
            shutil.copy(os.path.join(spec, "cfg", f), spec)
        rc, out = sh(["javac", "-cp", JAR, "-d", spec, *[os.path.join(spec, f) for f in sorted(os.listdir(spec)) if f.endswith(".java")]], spec)
        if rc != 0:
            raise Machinery("javac: " + out)
        pick = lambda k: cfg.get(k, []) + (cfg.get(k + "_thorough", []) if tier == "thorough" else [])
        timing = {}
        with ThreadPoolExecutor(8) as pool:
            mcs = [pool.submit(model_check, spec, i) for i in pick("mc")]
            gens = [pool.submit(generate, spec, i, seed, gen, tier) for i in pick("gen")]
            gens = [g.result() for g in gens]
            timing["generated"] = time.time() - t0
            stats = {"histories": 0, "cases": 0}
            fails = []

            def drive(d):
                scratch = tempfile.mkdtemp(prefix="run_", dir=work)
                env = {"VERIF_SEED": str(seed), "VERIF_TIER": tier, "GEN_DIR": gen,
                       "TRACE_DIR": traces, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
                       "NUMBA_DISABLE_JIT": "1", "PYTHONHASHSEED": "0", "MPLCONFIGDIR": scratch,
                       "HOME": scratch, "TMPDIR": scratch, "NUMBA_CACHE_DIR": scratch,
                       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "2",
                       "PYTHONPATH": REPO + ":" + os.path.join(ROOT, "harness")}
                env.update(d.get("env", {}))
                to = d.get("timeout", 300 if tier == "quick" else 3000)
                cmd = [PY, os.path.join(ROOT, "harness", d["script"])] + d.get("args", [])
                rc, out = sh(cmd, scratch, env, to)
                return d, rc, out

            pending = []
            for d, rc, out in pool.map(drive, pick("drivers")):
                if rc == 3 or rc == 137 or rc == -9:
                    raise Machinery("driver %s (rc %s): %s" % (d["script"], rc, out[-3000:]))
                if rc is None or rc != 0:
                    # the driver guards every call into the code: if it still dies or hangs,
                    # the code no longer supports the observations the property is about
                    fails.append({"file": None, "line": 0, "event": d["script"],
                                  "clause": "DriverCompletes", "tag": "",
                                  "err": ("timeout" if rc is None else "rc %s" % rc) + ": " + out[-1500:]})
            for f in os.listdir(traces):
                if f.endswith(".stats"):
                    s = json.load(open(os.path.join(traces, f)))
                    for k in s:
                        stats[k] = stats.get(k, 0) + s[k]
            timing["driven"] = time.time() - t0
            files = sorted(os.path.join(traces, f) for f in os.listdir(traces) if f.endswith(".ndjson"))
            if not files and not fails:
                raise Machinery("no trace was recorded")
            vs = list(pool.map(lambda f: validate(spec, f, 700 if tier == "quick" else 6000), files))
            mcs = [m.result() for m in mcs]
            timing["validated"] = time.time() - t0
        hits = {}
        for v in vs:
            for k, n in v["hits"].items():
                hits[k] = hits.get(k, 0) + n
            for f in v["fails"]:
                f["file"] = v["file"]
                if "tlc" in v:
                    f["err"] = v["tlc"]
                fails.append(f)
        known = known_findings(prop)
        new, old = [], {}
        for f in fails:
            k = [x for x in known if x["clause"] == f["clause"] and x["event"] in (f["event"], "*")]
            if k:
                old.setdefault(k[0]["text"], []).append(f)
            else:
                new.append(f)
        samples = []
        for v in vs[:3]:
            with open(v["file"]) as fh:
                lines = fh.readlines()
            for i in sorted({0, len(lines) // 2, len(lines) - 1}):
                samples.append(lines[i].strip()[:700])
        missing = sorted(set(cfg["clauses"]) - set(hits))
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(m["distinct"] for m in mcs),
                "transitions": sum(m["generated"] for m in mcs),
                "traces_validated_against_impl": stats.get("histories", 0),
                "trace_events": sum(v["events"] for v in vs),
                "input_cases": stats.get("cases", 0),
                "clause_evaluations": hits,
                "clauses_not_exercised": missing,
                "design_models": mcs, "generators": gens, "trace_files": len(vs),
                "phase_end_s": {k: round(x, 1) for k, x in timing.items()},
                "samples": samples},
            "assumptions": cfg.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
            json.dump(evidence, fh, indent=1)
        for text, fs in old.items():
            print("KNOWN-FINDING: property=%s %s (%d observations)" % (prop, text, len(fs)))
        if new:
            rdir = os.path.join(ROOT, "replays", prop)
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "violation_seed%d_%s.json" % (seed, tier))
            files_used = []
            for f in sorted({x["file"] for x in new if x["file"]}):
                dst = os.path.join(rdir, os.path.basename(f))
                shutil.copy(f, dst)
                files_used.append(dst)
            for f in new[:200]:
                if f["file"]:
                    with open(f["file"]) as fh:
                        f["recorded"] = next((x.strip()[:4000] for i, x in enumerate(fh, 1) if i == f["line"]), "")
                    f["file"] = os.path.basename(f["file"])
            with open(rp, "w") as fh:
                json.dump({"property": prop, "seed": seed, "tier": tier, "traces": files_used,
                           "how": "VERIF_SEED=%d python3 run_check.py %s %s re-records and re-validates" % (seed, prop, tier),
                           "failed_clauses": new[:200]}, fh, indent=1)
            seen = {}
            for f in new:
                seen.setdefault((f["clause"], f["event"]), []).append(f)
            for (c, ev), fs in seen.items():
                f0 = fs[0]
                print("  clause %s fails at event %s (line %s%s%s), %d times" % (
                    c, ev, f0["line"], " tag " + str(f0["tag"]) if f0["tag"] else "",
                    " " + str(f0["err"])[-600:] if f0["err"] else "", len(fs)))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if missing and not old:
            raise Machinery("clauses never exercised: %s" % missing)
        print("%s held: %d design states, %d histories, %d events, %d cases, %.1f s" % (
            prop, evidence["coverage"]["states"], stats["histories"],
            evidence["coverage"]["trace_events"], stats["cases"], time.time() - t0))
        return 0
    except Machinery as x:
        print("MACHINERY-ERROR %s: %s" % (prop, x))
        return 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
