"""C10: generated histories of temperature, window, field and band settings."""
import sys
import numpy as np
from common import Trace, rng, histories, vec, flt, model_ast, THOROUGH
from trans import Values, pf, sets
import meshes
import matplotlib
matplotlib.use("Agg")
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
meshes.rough(81)
r = rng("c10/%d" % part)
tr = Trace("Trace_C10", "p%d" % part)


def run(h):
    v = Values(r, thermal=True)
    cur = {k: v.set[k][min(v.set[k])] for k in v.set}
    cur["T"] = v.set["T"][r.choice([0, 1, 2, 3])]
    models, sp = ["isotropic"], v.scat0()
    band = v.band["p1"]
    march, nbz = r.random() < .3, r.choice([1, 2])
    res = [r.randint(7, 9), r.randint(7, 9), 3]
    made = {}

    def new(p, eps=None):
        bd = BandStructure(v.a, v.b, v.c, v.scale, band_params=dict(p), band_model=v.model, parallel=False, resolution=res,
                           k_max=v.kmax, number_of_bz=nbz)
        bd.march_square = march
        bd.discretize_fermi_surface(**({} if eps is None else dict(epsilon=eps)))
        return bd

    def surf(bd):
        return dict(kf=[vec(x) for x in bd.kf], dkf=vec(bd.dkf), dosmax=float(np.max(bd.dos_k)))

    def eps():
        e = getattr(co, "epsilon_array", None)
        return vec(e) if e is not None else ""

    def build():
        made["c"] = Conductivity(new(band), scattering_models=models, scattering_params=dict(sp), rtol=1e-10, atol=1e-10, **cur)
        e = getattr(made["c"], "epsilon_array", None)
        return dict(eps="" if e is None else vec(e))
    if tr.call("New", build, tag=v.name, model=model_ast(v.model), a=v.a, b=v.b, c=v.c, scale=v.scale, nbz=nbz, params=pf(band),
               set=sets(cur), models=models, sparams=pf(sp)) is None:
        return
    co = made["c"]
    erased = [e["ev"] for e in h["hist"] if e["ev"] in ("SetBand", "Rediscretize")][-1:] == ["SetBand"]
    last = [{"ev": "Rediscretize"}] if erased else []
    if not any(e["ev"] == "Run" for e in h["hist"]):
        last += [{"ev": "Set", "key": "T", "val": r.choice([1, 2, 3])}]
    last += [{"ev": "Run"}] if h["hist"][-1]["ev"] != "Run" else []
    for st in list(h["hist"]) + last:
        ev = st["ev"]
        if ev == "Set":
            x = v.set[st["key"]][st["val"]]

            def f():
                setattr(co, st["key"], x)
                return dict(eps=eps())
            tr.call("Set", f, key=st["key"], val=sets({st["key"]: x})[st["key"]], tag=st["key"])
        elif ev == "SetAttr":
            x = v.scat[st["key"], st["val"]]
            tr.call(ev, lambda: setattr(co, st["key"], x), key=st["key"], val=float(x))
        elif ev == "SetDict":
            d = {k: v.scat[k, x] for k, x in st["params"].items()}
            tr.call(ev, lambda: setattr(co, "scattering_params", d), params=pf(d))
        elif ev == "SetModels":
            models = v.models(st["models"])
            tr.call(ev, lambda: setattr(co, "scattering_models", list(models)), models=models)
        elif ev == "SetBand":
            band = v.band[st["band"]]
            tr.call(ev, lambda: setattr(co.bandObject, "band_params", dict(band)), params=pf(band))
        elif ev == "Rediscretize":
            if tr.call(ev, lambda: co.bandObject.discretize_fermi_surface()) is None:
                return
        elif ev == "Run":
            def f():
                co.runTransport()
                o = dict(sigma=flt(co.sigma), alpha=flt(co.alpha), beta=flt(co.beta), n=int(np.asarray(co.time_array).size), sub=12,
                         eps=eps(), left=[vec(x) for x in co.bandObject.kf], fermi=surf(new(band)), surfs=[])
                if co.T != 0:
                    o["surfs"] = [surf(new(band, float(e))) for e in co.epsilon_array]
                return o
            tr.stats["cases"] += 1
            if tr.call(ev, f, tag="%s march%s B%s T%s N%s cut%s" % (v.name, march, co.Bamp, co.T, co.N_epsilon, co.dfdE_cut_percent)) is None:
                return
    tr.stats["histories"] += 1


for i, h in enumerate(histories("c10")):
    if i % parts == part:
        run(h)
tr.close()
