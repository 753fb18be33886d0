"""C07: generated histories of scattering settings and evaluations on real objects."""
import sys
import numpy as np
from common import Trace, rng, histories, vec, flt, THOROUGH
from models import CUPRATE, CUP
from surfaces import BANDS
import meshes
import matplotlib
matplotlib.use("Agg")
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
r = rng("c07/%d" % part)
tr = Trace("Trace_C07", "p%d" % part)
PI = np.pi


def run(h, idx):
    a = round(r.uniform(2.8, 5), 3)
    b = a if r.random() < .4 else round(a * r.uniform(.8, 1.3), 3)
    c = round(r.uniform(5, 14), 3)
    kmax = r.choice([[PI, PI, 2 * PI], [2 * PI, 2 * PI, 2 * PI]])
    model, params = (CUPRATE, CUP) if r.random() < .6 else next((m, p) for n, m, p, _, _ in BANDS if n == "skewed")
    if model != CUPRATE and r.random() < .5:    # the inverted band
        model, params = model.replace("+ 0.5)", "- 0.5)"), dict(params, tw=-params["tw"])
    vals = {}
    for p, lo, hi in (("gamma_0", 1, 40), ("gamma_k", 1, 90), ("power", 1, 13), ("power_z", 1, 6), ("gamma_k_sin", 1, 60),
                      ("power_sin", 1, 9), ("gamma_dos_max", 1, 30)):
        for v in ("v1", "v2"):
            x = r.uniform(lo, hi)
            vals[p, v] = r.choice([round(x, 3), int(x) + 1, round(x, 1)])
        if r.random() < .25:
            vals[p, "v2"] = 0
    vals["gamma_0", "v2"] = vals["gamma_0", "v2"] or 5.5
    cur = {p: vals[p, v] for (p, v) in vals if v == "v1"}
    models = ["isotropic"]
    needs = dict(isotropic=["gamma_0"], cos2phi=["gamma_k", "power"], cos2phi_coskz=["gamma_k", "power", "power_z"],
                 sin2phi=["gamma_k_sin", "power_sin"], gamma_dos_func=["gamma_dos_max"])
    if r.random() < .4:      # parameters of models not selected yet come later
        cur = {"gamma_0": cur["gamma_0"]}
    known = set(cur)
    made, last = {}, {}

    def points(kind):
        n = 40 if THOROUGH else 24
        if kind == "again" and "k" in last:      # same points moved by reciprocal lattice vectors
            k, v = last["k"], last["v"]
            g = [r.randint(-3, 3) * 2 * PI / a, r.randint(-3, 3) * 2 * PI / b]
            return [k[0] + g[0], k[1] + g[1], np.array(k[2])], v
        span = {"zone": 1, "far": 7}.get(kind, 2)
        shape = (n,) if kind != "grid" else (n // 4, 4)
        rs = np.random.RandomState(r.randrange(2**31))
        k = [rs.uniform(-span * PI / x, span * PI / x, shape) for x in (a, b, c)]
        if kind == "zone":
            k[0][:3], k[1][:3] = [0, PI / a, -PI / a / 2], [PI / b, 0, PI / b / 2]
        v = [rs.normal(0, 1, shape) * 10**rs.uniform(3.5, 5.5) for _ in range(3)]
        if kind == "scalar_kz":
            k[2] = float(k[2].ravel()[0])
        last["k"], last["v"] = k, v
        return k, v

    def dosmax():
        return float(np.max(made["c"].bandObject.dos_k))

    def build():
        bd = BandStructure(a, b, c, round(r.uniform(60, 200), 1), band_params=dict(params), band_model=model, parallel=False,
                           resolution=[9, 9, 3 if model == CUPRATE else 7], k_max=kmax)
        bd.march_square = r.random() < .3
        bd.res_xy_rough = 81
        bd.discretize_fermi_surface()
        made["c"] = Conductivity(bd, r.choice([0, 15, 30]), Btheta=20, N_time=15, T=r.choice([0, 0, 6]), N_epsilon=3,
                                 dfdE_cut_percent=.05, scattering_models=models, scattering_params=dict(cur))
        return dict(dosmax=dosmax())
    if tr.call("New", build, a=a, b=b, c=c, models=models, params={k: float(v) for k, v in cur.items()}) is None:
        return
    co = made["c"]
    for st in list(h["hist"]) + [{"ev": "Eval", "at": "far"}]:
        ev = st["ev"]
        if ev == "SetAttr":
            v = vals[st["key"], st["val"]]
            known.add(st["key"])
            ok = tr.call(ev, lambda: setattr(co, st["key"], v), key=st["key"], val=float(v))
        elif ev == "SetDict":
            d = {k: vals[k, x] for k, x in st["params"].items()}
            known.update(d)
            ok = tr.call(ev, lambda: setattr(co, "scattering_params", d), params={k: float(v) for k, v in d.items()})
        elif ev == "SetModels":
            ms = list(st["models"])
            r.shuffle(ms)
            if ms == ["cos2phi"] or "isotropic" not in ms and r.random() < .8:
                ms.append("isotropic")
            lack = {p: r.choice([vals[p, "v1"], vals[p, "v2"]]) for m in ms for p in needs[m] if p not in known}
            if lack:
                tr.call("SetDict", lambda: setattr(co, "scattering_params", lack), params={k: float(v) for k, v in lack.items()})
                known.update(lack)
            tr.call(ev, lambda: setattr(co, "scattering_models", list(ms)), models=ms)
            models = ms
        elif ev == "Surface":
            def f():
                co.bandObject["mu"] = round(params["mu"] + r.uniform(-.3, .2), 3)
                co.bandObject.runBandStructure()
                return dict(dosmax=dosmax())
            tr.call(ev, f)
        elif ev == "Eval":
            k, v = points(st["at"])
            k0, v0 = [np.array(x) for x in k], [np.array(x) for x in v]

            def f():
                tau = np.asarray(co.tau_tot_func(k[0], k[1], k[2], v[0], v[1], v[2]), float)
                same = all(np.array_equal(x, y) for x, y in zip(k + v, k0 + v0))
                kz = np.broadcast_to(k0[2], k0[0].shape)
                return dict(tau=vec(tau), inputs_same=same, shape_same=tau.shape == k0[0].shape, n=int(tau.size),
                            k=[vec(k0[0]), vec(k0[1]), vec(kz)], v=[vec(x) for x in v0])
            tr.call(ev, f, tag=st["at"])
            tr.stats["cases"] += 1
        elif ev == "Run":
            if "isotropic" not in models:       # (a rate may vanish somewhere: no longest time)
                continue

            def f():
                co.runTransport()
                bd = co.bandObject
                return dict(gmax=co.gamma_tot_max, gmin=co.gamma_tot_min, k=[vec(x) for x in bd.kf], v=[vec(x) for x in bd.vf],
                            dosmax=dosmax())
            if tr.call(ev, f, tag="B%s T%s" % (co.Bamp, co.T)) is None:
                break
    tr.stats["histories"] += 1


for i, h in enumerate(histories("c07")):
    if i % parts == part:
        run(h, i)
tr.close()
