"""C15: generated declarations and sequences of candidates evaluated by the multi-temperature objective."""
import os, sys
import numpy as np
from common import Trace, rng, histories, flt, THOROUGH
import meshes
import matplotlib
matplotlib.use("Agg")
from fits import MultiT, Skip, table

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
meshes.rough(41)
r = rng("c15/%d" % part)
tr = Trace("Trace_C15", "p%d" % part)


def run(h, idx):
    folder = os.path.abspath("data_%d_%d" % (part, idx))
    os.mkdir(folder)
    x = MultiT(r, h, folder)
    box = {}

    def new():
        box["fit"] = fit = x.build()
        return dict(x.declared(), **x.aligned(fit), bounds=[[float(u) for u in b] for b in fit.bounds], params=table(fit.params_dict, x.temps))
    tag = "%d T %d bands %d free" % (len(x.temps), len(x.params[x.temps[0]]), len(x.labels))
    if tr.call("New", new, tag=tag) is None:
        return
    fit = box["fit"]
    phis = {T: list(fit.phis_dict[T]) for T in x.fitted}
    thetas = {T: list(fit.thetas_dict[T]) for T in x.fitted}

    last = None

    def evaluate(cand):
        refs = x.refs(phis, thetas)
        value = fit.compute_fitness(cand) if cand is not None else fit.compute_fitness()
        d = dict(value=float(value), refs=refs, used=table(x.now, x.temps), **x.sims(fit))
        if cand is not None:
            d["x"] = [float(v) for v in cand]
        return d
    for st in h["hist"]:
        tr.stats["cases"] += 1
        cand = x.candidate(st["x"]) if st["ev"] == "Eval" else None
        if cand is not None and last is not None and r.random() < .2:      # a close neighbour of the previous one
            cand = x.near(last) or cand
        last = cand if cand is not None else last
        try:
            ok = tr.call("Eval", lambda: evaluate(cand), tag="%s %s" % (tag, "" if cand is None else [n for _, _, n in x.labels]))
        except Skip:
            tr.stats["skipped"] = tr.stats.get("skipped", 0) + 1
            break
        if ok is None:
            break
    tr.stats["histories"] += 1


for i, h in enumerate(histories("c15")):
    if i % parts == part:
        run(h, i)
tr.close()
