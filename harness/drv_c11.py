"""C11: generated histories of settings, runs and figures; reference results from new objects."""
import sys
import numpy as np
from common import Trace, rng, histories, vec, flt, guard, THOROUGH
from trans import Values, pf, sets
import meshes
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
meshes.rough(81)
r = rng("c11/%d" % part)
tr = Trace("Trace_C11", "p%d" % part)
FIGS = ["figScatteringColor", "figScatteringPhi", "figOnekft", "figOnevft", "figCumulativevft", "figdfdE", "figParameters",
        "figDiscretizeFS2D", "figDiscretizeFS3D", "figMultipleFS2D", "omegac", "fermi_probe"]


def out(co):
    return dict(sigma=flt(co.sigma), alpha=flt(co.alpha), beta=flt(co.beta), gmax=float(co.gamma_tot_max), gmin=float(co.gamma_tot_min))


def run(h):
    v = Values(r, thermal=True)
    v.set["N_time"] = {1: r.randint(9, 14), 2: r.randint(15, 25), 3: r.randint(26, 40)}
    cur = {k: v.set[k][min(v.set[k])] for k in v.set}
    cur["T"] = v.set["T"][r.choice([0, 0, 1])]
    cur["Bamp"] = v.set["Bamp"][r.choice([0, 1])]
    models, sp = ["isotropic"], v.scat0()
    band = dict(v.band["p1"])
    march, nbz = r.random() < .3, r.choice([1, 2])
    res = [r.randint(7, 9), r.randint(7, 9), 3]
    made, refs, events = {}, [], []
    tols = r.choice([{}, dict(rtol=1e-6, atol=1e-6)])

    def new():
        bd = BandStructure(v.a, v.b, v.c, v.scale, band_params=dict(band), band_model=v.model, parallel=False, resolution=res,
                           k_max=v.kmax, number_of_bz=nbz)
        bd.march_square = march
        bd.discretize_fermi_surface()
        return Conductivity(bd, scattering_models=list(models), scattering_params=dict(sp), **cur, **tols)

    def do(ev, fn, **f):
        ok, o, err = guard(fn)
        if ok:
            events.append((ev, dict(f, **(o or {}))))
        else:
            events.append((ev, dict(f, ok=False, err=err)))
        return ok

    def key():
        return repr((sorted(cur.items()), models, sorted(sp.items()), sorted(band.items())))
    seen = set()

    def ref():
        if key() in seen:
            return
        seen.add(key())

        def f():
            c = new()
            c.runTransport()
            return out(c)
        ok, o, err = guard(f)
        if ok:
            refs.append(dict(set=sets(cur), models=list(models), sparams=pf(sp), params=pf(band), **o))

    def figure(name):
        b = co.bandObject
        small = dict(mesh_xy=31)
        f = {"figScatteringColor": lambda: co.figScatteringColor(kz=r.choice([0, np.pi / v.c]), **small),
             "figScatteringPhi": lambda: co.figScatteringPhi(**small),
             "figOnekft": lambda: co.figOnekft(index_kf=1, meshXY=31),
             "figOnevft": lambda: co.figOnevft(index_kf=1),
             "figCumulativevft": lambda: co.figCumulativevft(),
             "figdfdE": lambda: co.figdfdE(),
             "figParameters": lambda: co.figParameters(fig_show=False),
             "figDiscretizeFS2D": lambda: b.figDiscretizeFS2D(kz=0, meshXY=31),
             "figDiscretizeFS3D": lambda: b.figDiscretizeFS3D(r.choice([0, 1])),
             "figMultipleFS2D": lambda: b.figMultipleFS2D(),
             "omegac": lambda: co.omegac_tau_func(),
             "fermi_probe": probe}[name]
        guard(f)              # (a figure that cannot be drawn in this state is no matter here)
        plt.close("all")

    def look(name):
        def f():
            figure(name)
            return out(co)
        do("Look", f, tag=name)

    def probe():
        b = co.bandObject
        k = np.array([.1, .7, -.4, 2.2])
        b.energy_func(k, k, k), b.velocity_func(k, k[::-1].copy(), k)
        co.tau_tot_func(k, k, k, 1e5 * k, 1e5 * k, 1e5 * k)
        co.tau_total_max(), co.dfdE(3.0), co.energyCutOff(.001)
        b.dos_epsilon_func()
        b.filling(9, 9, 3)
        guard(b.mass_func)
    ok, _, err = guard(lambda: made.update(c=new()))
    if not ok:
        tr.ev("New", ok=False, err=err)
        return
    co = made["c"]
    events.append(("New", dict(set=sets(cur), models=list(models), sparams=pf(sp), params=pf(band))))
    erased = [e["ev"] for e in h["hist"] if e["ev"] in ("SetBand", "Rediscretize")][-1:] == ["SetBand"]
    ran = False
    for st in list(h["hist"]) + ([{"ev": "Rediscretize"}] if erased else []) + [{"ev": "Run"}, {"ev": "Figure", "fig": r.choice(FIGS)}, {"ev": "Run"}]:
        ev = st["ev"]
        if ev == "Set":
            x = v.set[st["key"]][st["val"]]
            do("Set", lambda: setattr(co, st["key"], x), key=st["key"], val=sets({st["key"]: x})[st["key"]], tag=st["key"])
            cur[st["key"]] = x
        elif ev == "SetAttr":
            x = v.scat[st["key"], st["val"]]
            do(ev, lambda: setattr(co, st["key"], x), key=st["key"], val=float(x))
            sp[st["key"]] = x
        elif ev == "SetDict":
            d = {k: v.scat[k, x] for k, x in st["params"].items()}
            do(ev, lambda: setattr(co, "scattering_params", d), params=pf(d))
            sp.update(d)
        elif ev == "SetModels":
            models = v.models(st["models"])
            do(ev, lambda: setattr(co, "scattering_models", list(models)), models=list(models))
        elif ev == "SetBand":
            p = dict(v.band[st["band"]])

            def f():
                if r.random() < .5:
                    co.bandObject.band_params = dict(p)
                else:
                    for k in p:
                        co.bandObject[k] = p[k]
            do(ev, f, params=pf(p))
            band = p
        elif ev == "Rediscretize":
            if not do(ev, lambda: r.choice([co.bandObject.discretize_fermi_surface, lambda: co.bandObject.runBandStructure(printDoping=False)])() and None):
                break
        elif ev == "Figure":
            if ran:
                look(st["fig"])
        elif ev == "Run":
            ref()

            def f():
                co.runTransport()
                return out(co)
            tr.stats["cases"] += 1
            ran = True
            if not do("Run", f, tag="%s march%s B%s T%s" % (v.name, march, co.Bamp, co.T)):
                break
            if r.random() < .4:
                look(r.choice(FIGS))
    tr.ev("Reset")
    for x in refs:
        tr.ev("Ref", **x)
    for ev, f in events:
        tr.ev(ev, **f)
    tr.stats["histories"] += 1


for i, h in enumerate(histories("c11")):
    if i % parts == part:
        run(h)
tr.close()
