"""C19: diagnostics of the surface along generated histories, and fine meshes against state counts."""
import sys, hashlib
import numpy as np
from common import Trace, rng, histories, vec, flt, guard, model_ast, THOROUGH
from trans import Values, pf, sets
import meshes, surfaces
import matplotlib
matplotlib.use("Agg")
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity

part, parts = int(sys.argv[1]), int(sys.argv[2])
show = len(sys.argv) > 3
DEFAULT = meshes.shrink([11, 11, 3])
r = rng("c19/%d" % part)
tr = Trace("Trace_C19", "p%d" % part)
PI = np.pi


def digest(x):
    if x is None:
        return "none"
    x = np.asarray(x, float)
    return "%s %s" % (x.shape, hashlib.md5(np.ascontiguousarray(x).tobytes()).hexdigest())


def look(co):
    b = co.bandObject
    o = {q: digest(getattr(b, q)) for q in ("kf", "vf", "dkf", "dos_k", "dks", "dkz", "n", "p", "resolution", "k_max")}
    o.update(dos=digest(b.dos_epsilon), mass=digest(b.mass), nppk=digest(b.number_of_points_per_kz_list), bp=repr(sorted(b.band_params.items())),
             scale=repr(b.energy_scale), march=repr(b.march_square), a=repr((b.a, b.b, b.c)))
    o.update({q: digest(getattr(co, q)) for q in ("sigma", "alpha", "beta", "kft", "vft", "tau_tot", "gamma_tot_max", "gamma_tot_min",
                                                  "B_vector", "time_array", "epsilon_array") if hasattr(co, q)})
    o.update(omega=digest(getattr(co, "omegac_tau_k", None)), sp=repr(sorted(co.scattering_params.items())), sm=repr(co.scattering_models),
             set=repr([getattr(co, q) for q in ("Bamp", "Btheta", "Bphi", "T", "N_time", "N_epsilon", "dfdE_cut_percent")]))
    return o


def run(h):
    v = Values(r, thermal=True)
    cur = {k: v.set[k][min(v.set[k])] for k in v.set}
    cur["T"] = v.set["T"][r.choice([0, 0, 1])]
    cur["Bamp"] = v.set["Bamp"][r.choice([1, 2, 3])]
    models, sp = ["isotropic"], v.scat0()
    band = dict(v.band["p1"])
    march = h["init"]["march"]
    nzs = {1: r.choice([3, 5]), 2: r.choice([7, 4, 6])}
    nz = nzs[1]      # (an even number of planes given at construction is raised to the next odd one)
    res = [r.randint(7, 11), r.randint(7, 11)]
    made = {}

    def f():
        bd = BandStructure(v.a, v.b, v.c, v.scale, band_params=dict(band), band_model=v.model, parallel=False, resolution=res + [nz],
                           k_max=v.kmax, number_of_bz=r.choice([1, 2]))
        bd.march_square = march
        bd.res_xy_rough = 81
        bd.discretize_fermi_surface()
        made["c"] = Conductivity(bd, scattering_models=list(models), scattering_params=dict(sp), **cur)
    tag = "%s march%s" % (v.name, march)
    if tr.call("New", f, tag=tag, set=sets(cur), models=list(models), sparams=pf(sp), params=pf(band), model=model_ast(v.model),
               a=v.a, b=v.b, c=v.c, scale=v.scale, march=march, nz=nz) is None:
        return
    co = made["c"]
    bd = co.bandObject
    surf = True
    cubes = [not march]

    def ask(ev):
        def g():
            o = dict(before=look(co))
            {"Dos": bd.dos_epsilon_func, "Mass": bd.mass_func, "Omega": co.omegac_tau_func}[ev]()
            o["after"] = look(co)
            kf = np.asarray(bd.kf, float)
            keep = np.ones(kf.shape[1], bool)
            if ev == "Dos":
                o.update(dos=float(bd.dos_epsilon), dkf=vec(bd.dkf))
            elif ev == "Mass":
                o.update(mass=float(bd.mass), dks=vec(bd.dks))
            else:
                keep = np.hypot(kf[0], kf[1]) > 1e-6
                om = np.asarray(co.omegac_tau_k, float)
                assert om.shape == keep.shape, "one product per point of the surface"
                o.update(omega=vec(om[keep]), n=int(keep.sum()), dosmax=float(np.max(bd.dos_k)))
            o["kf"] = [vec(x[keep]) for x in kf]
            return o
        tr.call(ev, g, tag="%s B%s T%s %s" % (tag, co.Bamp, co.T, "+".join(models)))
        tr.stats["cases"] += 1
    hist = list(h["hist"])
    if [e["ev"] for e in hist if e["ev"] in ("SetBand", "Rediscretize")][-1:] == ["SetBand"]:
        hist.append({"ev": "Rediscretize"})
    hist += [{"ev": e} for e in r.sample(["Dos", "Mass", "Omega"], 3)]
    for st in hist:
        ev = st["ev"]
        if ev == "Set":
            x = v.set[st["key"]][st["val"]]
            tr.call("Set", lambda: setattr(co, st["key"], x), key=st["key"], val=sets({st["key"]: x})[st["key"]], tag=st["key"])
        elif ev == "SetAttr":
            x = v.scat[st["key"], st["val"]]
            tr.call(ev, lambda: setattr(co, st["key"], x), key=st["key"], val=float(x))
        elif ev == "SetDict":
            d = {k: v.scat[k, x] for k, x in st["params"].items()}
            tr.call(ev, lambda: setattr(co, "scattering_params", d), params=pf(d))
        elif ev == "SetModels":
            models = v.models(st["models"])
            tr.call(ev, lambda: setattr(co, "scattering_models", list(models)), models=list(models))
        elif ev == "SetBand":
            p = dict(v.band[st["band"]])

            def f():
                if r.random() < .5:
                    bd.band_params = dict(p)
                else:
                    for k in p:
                        bd[k] = p[k]
            tr.call(ev, f, params=pf(p))
        elif ev == "SetMarch":
            march = st["val"]
            tr.call(ev, lambda: setattr(bd, "march_square", march), val=march)
        elif ev == "SetPlanes":
            nz = nzs[st["val"]]
            tr.call(ev, lambda: setattr(bd, "resolution", [r.randint(7, 11), r.randint(7, 11), nz]), val=nz)
        elif ev == "Rediscretize":
            if tr.call(ev, lambda: bd.discretize_fermi_surface() if r.random() < .7 else bd.runBandStructure(), tag=tag) is None:
                return
            cubes[0] = not march
        elif ev == "Run":
            if tr.call(ev, lambda: co.runTransport() and None, tag="%s B%s T%s" % (tag, co.Bamp, co.T)) is None:
                return
            if co.T != 0:
                cubes[0] = not march
        elif ev == "Mass" and cubes[0]:
            pass
        else:
            ask(ev)
    tr.stats["histories"] += 1


# bands whose surfaces are smooth and stay away from van Hove points
SMOOTH = [x for x in surfaces.BANDS if x[0] in ("cuprate", "electron_like", "two_sheets", "hole_pockets", "corner", "cuprate_3d")]


def cross(band, march):
    sp = surfaces.spec_of(r, band, march, res=[r.randint(60, 80), 40, r.choice([3, 5, 8])] if march else [r.randint(50, 60), r.randint(50, 60), r.randint(34, 40)])
    b = BandStructure(**sp)
    if march:
        b.res_xy_rough = 501

    def f():
        b.discretize_fermi_surface()
        b.dos_epsilon_func()
        if march:
            b.mass_func()
        return dict(dos=float(b.dos_epsilon), mass=float(b.mass) if march else 0.0)
    tr.call("Cross", f, tag="%s march%s" % (band[0], march), model=model_ast(sp["band_model"]), a=sp["a"], b=sp["b"], c=sp["c"],
            scale=sp["energy_scale"], params=pf(sp["band_params"]), march=march, kmax=flt(sp["k_max"]), de=float(.02 * sp["energy_scale"]),
            mesh=[72, 72, 40] if not march else [120, 120, 40], nz=sp["resolution"][2], show=show)
    tr.stats["cases"] += 1


for i, h in enumerate(histories("c19")):
    if i % parts == part:
        run(h)
for i, (b, m) in enumerate([(b, m) for b in SMOOTH for m in (False, True)]):
    if i % parts == part or show:
        cross(b, m)
tr.close()
