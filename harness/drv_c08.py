"""C08: generated histories of field, step-count, scattering and band settings; orbits recorded."""
import sys
import numpy as np
from common import Trace, rng, histories, vec, flt, model_ast, THOROUGH
from trans import Values, pf, sets
import meshes
import matplotlib
matplotlib.use("Agg")
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
r = rng("c08/%d" % part)
tr = Trace("Trace_C08", "p%d" % part)
NORB = 12 if THOROUGH else 6


def run(h):
    v = Values(r)
    cur = {k: v.set[k][min(v.set[k])] for k in v.set}
    cur["Bamp"] = v.set["Bamp"][r.choice([0, 1])]
    fine = r.random() < .75
    models = ["isotropic"]
    band = v.band["p1"]
    made = {}
    ast = model_ast(v.model)

    def build():
        bd = BandStructure(v.a, v.b, v.c, v.scale, band_params=dict(band), band_model=v.model, parallel=False,
                           resolution=[r.randint(7, 11), r.randint(7, 11), 3], k_max=v.kmax)
        bd.march_square = r.random() < .3
        bd.res_xy_rough = 81
        bd.discretize_fermi_surface()
        kw = dict(rtol=1e-10, atol=1e-10) if fine else {}
        co = made["c"] = Conductivity(bd, scattering_models=models, scattering_params=v.scat0(), **cur, **kw)
        return dict(B=flt(co.B_vector))
    if tr.call("New", build, tag=v.name, model=ast, a=v.a, b=v.b, c=v.c, scale=v.scale, params=pf(band), set=sets(cur), models=models,
               sparams=pf(v.scat0())) is None:
        return
    co = made["c"]
    erased = [e["ev"] for e in h["hist"] if e["ev"] in ("SetBand", "Rediscretize")][-1:] == ["SetBand"]
    for st in list(h["hist"]) + ([{"ev": "Rediscretize"}] if erased else []) + [{"ev": "Set", "key": "Bamp", "val": r.choice([1, 2, 3])}, {"ev": "Run"},
                                 {"ev": "Set", "key": "N_time", "val": r.choice([1, 2, 3])}]:
        ev = st["ev"]
        if ev == "Set":
            x = v.set[st["key"]][st["val"]]

            def f():
                setattr(co, st["key"], x)
                o = dict(B=flt(co.B_vector))
                if st["key"] == "N_time" and co.time_array is not None:
                    o["time"] = vec(co.time_array)
                return o
            tr.call("Set", f, key=st["key"], val=sets({st["key"]: x})[st["key"]], tag=st["key"])
        elif ev == "AssignB":
            def f():
                try:
                    co.B_vector = np.array([1.0, 2.0, 3.0])
                except AttributeError:
                    pass
                return dict(B=flt(co.B_vector))
            tr.call(ev, f)
        elif ev == "SetAttr":
            x = v.scat[st["key"], st["val"]]
            tr.call(ev, lambda: setattr(co, st["key"], x), key=st["key"], val=float(x))
        elif ev == "SetDict":
            d = {k: v.scat[k, x] for k, x in st["params"].items()}
            tr.call(ev, lambda: setattr(co, "scattering_params", d), params=pf(d))
        elif ev == "SetModels":
            ms = v.models(st["models"])
            tr.call(ev, lambda: setattr(co, "scattering_models", list(ms)), models=ms)
        elif ev == "SetBand":
            p = v.band[st["band"]]
            tr.call(ev, lambda: setattr(co.bandObject, "band_params", dict(p)), params=pf(p))
        elif ev == "Rediscretize":
            if tr.call(ev, lambda: co.bandObject.discretize_fermi_surface()) is None:
                return
        elif ev == "Run":
            def f():
                co.runTransport()
                bd = co.bandObject
                kft, vft = np.asarray(co.kft, float), np.asarray(co.vft, float)
                n = kft.shape[1]
                sel = sorted(r.sample(range(n), min(n, NORB)))
                tight = fine
                return dict(B=flt(co.B_vector), kf=[vec(x) for x in bd.kf], dosmax=float(np.max(bd.dos_k)),
                            start=[vec(x) for x in kft[:, :, 0]], norb=int(n), nt=int(kft.shape[2]), time=vec(co.time_array),
                            orbits=[[vec(kft[i, o]) for i in range(3)] + [vec(vft[i, o]) for i in range(3)] for o in sel],
                            sub=100, tol_k=1e-6 if tight else 5e-3, tol_E=1e-6 if tight else 1e-1, tol_B=1e-7 if tight else 5e-3)
            tr.stats["cases"] += 1
            if tr.call(ev, f, tag="%s B%s th%s ph%s N%s" % (v.name, co.Bamp, co.Btheta, co.Bphi, co.N_time)) is None:
                return
    tr.stats["histories"] += 1


for i, h in enumerate(histories("c08")):
    if i % parts == part:
        run(h)
tr.close()
