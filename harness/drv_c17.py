"""C17: generated declarations, candidates, saves and loads on the single-temperature and series fits; completed fits."""
import copy, json, os, sys
import numpy as np
from common import Trace, rng, histories, flt, contain, THOROUGH
import meshes
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import lmfit.minimizer
from fits import Single, Skip, table
from cuprates_transport.conductivity import Conductivity

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
meshes.rough(41)
contain()
r = rng("c17/%d" % part)
tr = Trace("Trace_C17", "p%d" % part)
Conductivity.figParameters = lambda self, fig_show=True: plt.figure()      # (slow; not judged here)
evolve = lmfit.minimizer.differential_evolution


def short(func, bounds, *args, **kw):
    """One generation of a small population."""
    kw.update(maxiter=1, popsize=3, polish=False, seed=7)
    return evolve(func, bounds, *args, **{k: v for k, v in kw.items() if k not in ("rng",)})


lmfit.minimizer.differential_evolution = short


def plain(x):
    return json.loads(json.dumps(x, default=float))


def record(x, f):
    """The whole record, as saved (keys of temperatures are strings there)."""
    return plain({str(T): f.member_dict[T] for T in x.temps}) if x.kind == "SeriesMulti" else plain(f.member)


def files(folder, ext):
    return {n for n in os.listdir(folder) if n.endswith(ext)}


def observe(fx, f, **kw):
    d = dict(params=fx.recorded(f), **kw)
    fx.adopt(d["params"])
    d.update(refs=fx.refs(), used=table(fx.now, fx.temps))
    if fx.imposed:
        d["mu"] = float(fx.fresh_mu)
    return d


def run(h, idx, kind):
    folder = os.path.abspath("data_%d_%d" % (part, idx))
    os.mkdir(folder)
    try:
        x = Single(r, h, folder, kind)
        if not x.sound(x.now):
            return
    except Skip:
        return
    box = {}

    def new():
        box["fit"] = f = x.build()
        return dict(x.aligned(f), params=x.recorded(f), table=table(x.now, x.temps), temps=[str(T) for T in x.temps],
                    labels=[[str(T), b, n] for T, b, n in x.labels], imposed=x.imposed, normalized=x.normalized, weight=float(x.weight))
    tag = "%s %s%s" % (kind, [n for _, _, n in x.labels], " imposed" if x.imposed else "")
    tr.stats["cases"] += 1
    if tr.call("New", new, tag=tag, kind=kind) is None:
        return

    saved = {}

    def evaluate(cand):
        value = x.evaluate(box["fit"], cand)
        return observe(x, box["fit"], value=flt(value), x=[float(v) for v in cand])

    def save():
        f = box["fit"]
        name = r.choice([None, None, "asked_%d" % len(saved), "an other.name"])
        before = files(folder, ".json")
        if name:
            f.save_member_to_json(filename=name)
        else:
            f.save_member_to_json()
        made = sorted(files(folder, ".json") - before)
        if not made:        # overwritten
            made = [box["name"]] if name is None and "name" in box else [n for n in [str(name) + ".json"] if n in before]
        with open(os.path.join(folder, made[0])) as g:
            content = json.load(g)
        box["name"] = made[0]
        saved.clear()
        saved.update(now=copy.deepcopy(x.now), name=made[0], mu=x.fresh_mu)
        return dict(made=made, asked=made[0] if name is None else name + ".json", file=plain(content), record=record(x, f), params=x.recorded(f))

    def load():
        f = x.build(x.other(), r.choice([None, .1]))
        f.json_name = saved["name"]
        f.load_member_from_json()
        box["fit"] = f
        x.now, x.fresh_mu = copy.deepcopy(saved["now"]), saved["mu"]
        sims = x.simulate(f)
        return observe(x, f, rhozz=sims)
    for st in h["hist"]:
        tr.stats["cases"] += 1
        try:
            if st["ev"] == "Eval":
                cand = x.candidate(st["x"])
                x.predict()
                ok = tr.call("Eval", lambda: evaluate(cand), tag=tag)
            elif st["ev"] == "Save":
                ok = tr.call("Save", save, tag=tag)
            else:
                ok = tr.call("Load", load, tag=tag)
        except Skip:
            tr.stats["skipped"] = tr.stats.get("skipped", 0) + 1
            return
        if ok is None:
            return
    tr.stats["histories"] += 1


def fit(idx, kind):
    """A completed fit."""
    folder = os.path.abspath("fit_%d_%d" % (part, idx))
    os.mkdir(folder)
    names = r.choice([["gamma_0"], ["gamma_0", "tz"], ["gamma_k"], ["tz"], ["gamma_0", "Bamp"]])
    x = Single(r, dict(labels=names, imposed=r.random() < .3), folder, kind)
    if not x.sound(x.now):
        return
    method = r.choice(["differential_evolution", "least_square"] if len(x.labels) == 1 else ["differential_evolution"])
    box, evals = {}, []

    def new():
        box["fit"] = f = x.build(tight=True, method=method)
        return dict(x.aligned(f), params=x.recorded(f), table=table(x.now, x.temps), temps=[str(T) for T in x.temps],
                    labels=[[str(T), b, n] for T, b, n in x.labels], imposed=x.imposed, normalized=x.normalized, weight=float(x.weight))
    tag = "%s %s %s%s" % (kind, method, [n for _, _, n in x.labels], " imposed" if x.imposed else "")
    tr.stats["cases"] += 1
    if tr.call("New", new, tag=tag, kind=kind) is None:
        return

    def complete():
        f = box["fit"]
        inner = f.compute_diff

        def watched(pars, *a, **kw):
            v = inner(pars, *a, **kw)
            evals.append(float(np.sum(np.asarray(v) ** 2)))
            return v
        f.compute_diff = watched
        name = r.choice([None, "best"])
        f.runFit(**({} if name is None else dict(filename=name)))
        made = sorted(files(folder, ".json"))
        params = x.recorded(f)
        got = []
        for T, b, n in x.labels:
            m = params[str(x.temps[0] if T == "all" else T)]["b"]
            got.append([m[q][n] for q in "gbs" if n in m[q]][0])
        for label, v in zip(x.labels, got):
            x.put(x.now, label, v)
        x.expect()
        rng_ = x.ranges(tight=True)
        with open(os.path.join(folder, made[0])) as g:
            content = json.load(g)
        return observe(x, f, x=flt(got), evals=flt(evals), made=made, asked=made[0] if name is None else "best.json", file=plain(content), record=record(x, f),
                       bounds=flt([rng_[n][T] if n in x.per_T else rng_[n] for T, b, n in x.labels]),
                       rhozz={str(T): flt((f.admrObject_dict[T] if kind == "SeriesMulti" else f.admrObject).rhozz_array) for T in x.temps})
    try:
        tr.call("RunFit", complete, tag=tag)
    except (Skip, np.linalg.LinAlgError):
        tr.stats["skipped"] = tr.stats.get("skipped", 0) + 1
    plt.close("all")
    tr.stats["histories"] += 1


KINDS = ["Parallel", "Series", "SeriesMulti"]
for i, h in enumerate(histories("c17")):
    if i % parts == part:
        run(h, i, KINDS[(i // parts) % 3])
for i in range(12 if THOROUGH else 2):
    fit(i, KINDS[1 + (i + part) % 2])
tr.close()
