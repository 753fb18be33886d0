"""C05: generated histories of calls replayed on real bands; reference values from new bands."""
import sys
import numpy as np
from common import Trace, rng, histories, THOROUGH, flt, guard
from models import CUPRATE, CUP
import meshes
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import cuprates_transport.bandstructure as bs
from cuprates_transport.bandstructure import BandStructure

part, parts = int(sys.argv[1]), int(sys.argv[2])
MESH = meshes.shrink([21, 19, 7])
M1 = [17, 16, 5]
r = rng("c05/%d" % part)
tr = Trace("Trace_C05", "p%d" % part)
SQ = "-mu - 2*t*(cos(a*kx) + cos(b*ky)) + t2*cos(a*kx)*cos(b*ky) - 2*tz*cos(c*kz/2)"
SETUPS = [
    (CUPRATE, CUP, {"mu": (-0.83, -1.02), "t": ("tp", -0.136, -0.2)}, False),
    (CUPRATE, CUP, {"mu": (-0.83, -0.7), "t": ("tz", 0.07, 0.0)}, True),
    (SQ, {"mu": -0.6, "t": 1.0, "t2": 0.3, "tz": 0.1}, {"mu": (-0.6, 0.3), "t": ("t", 1.0, 1.3)}, True),
    (SQ, {"mu": 0.0, "t": 1.0, "t2": 0.3, "tz": 0.15}, {"mu": (0, 0.5), "t": ("t2", 0.3, -0.2)}, True),
]


def moments(*cols):
    return flt([np.sum(c) for c in cols])


def fp(x):
    if x is None:
        return []
    x = np.asarray(x, dtype=float)
    if x.size == 0:
        return []
    return flt([x.size, np.sum(np.abs(x)), np.sum(x**2), np.sum(np.abs(x)**3)])


def look(b):
    o = {q: fp(getattr(b, q)) for q in ("kf", "vf", "dkf", "dos_k", "dks", "dkz")}
    o["nppk"] = fp(b.number_of_points_per_kz_list)
    o["dos"], o["mass"], o["n"], o["p"] = fp(b.dos_epsilon), fp(b.mass), fp(b.n), fp(b.p)
    o["moments"] = []
    if b.kf is not None and b.vf is not None and b.dkf is not None and b.dos_k is not None:
        kf, vf, w = np.asarray(b.kf, float), np.asarray(b.vf, float), np.asarray(b.dkf, float) * np.asarray(b.dos_k, float)
        o["moments"] = moments(w, w * vf[0]**2, w * vf[1]**2, w * kf[0]**2, w * kf[1]**2 * vf[0]**2, w * kf[2]**2)
    o["params"] = {k: float(v) for k, v in b.band_params.items()}
    o["scale"] = float(b.energy_scale)
    return o


def newband(setup, settings, march):
    model, params, amap, ortho, kw = setup
    return BandStructure(band_model=model, band_params=dict(settings[0]), energy_scale=settings[1],
                         march_square=march, parallel=False, **kw)


def refs(setup, seen, epss):
    """Reference values for every settings met, in both algorithms, for the energies used."""
    done = set()
    for (params, scale) in seen:
        key = (tuple(sorted(params.items())), scale)
        if key in done:
            continue
        done.add(key)
        for march in (False, True):
            for eps in epss:
                def f():
                    b = newband(setup, (params, scale), march)
                    b.res_xy_rough = 101
                    b.discretize_fermi_surface(epsilon=eps)
                    b.dos_epsilon_func()
                    if march:
                        b.mass_func()
                    return b
                ok, b, err = guard(f)
                if ok:
                    tr.ev("RefSurface", params=pf(params), scale=scale, march=march, eps=float(eps), obs=look(b))
        for mesh, m in (("default", None), ("m1", M1), ("run", [10 * x for x in newband(setup, (params, scale), False).resolution])):
            b = newband(setup, (params, scale), False)
            ok, _, err = guard(lambda: b.update_filling(*(m or MESH)))
            if ok:
                tr.ev("RefFill", params=pf(params), scale=scale, mesh=mesh, obs=dict(n=fp(b.n), p=fp(b.p)))


def pf(d):
    return {k: float(v) for k, v in d.items()}


def run(h, idx):
    model, params, amap, ortho = SETUPS[r.randrange(len(SETUPS))]
    a = round(r.uniform(3, 5), 2)
    kw = dict(a=a, b=a if not ortho else round(a * 1.1, 3), c=round(r.uniform(6, 14), 1),
              resolution=[r.choice([9, 11]), r.choice([9, 11]), r.choice([3, 5])],
              k_max=[np.pi, np.pi, 2 * np.pi], number_of_bz=r.choice([1, 2]))
    setup = (model, params, amap, ortho, kw)
    conc_key = {"mu": "mu", "t": amap["t"][0], "zz": r.choice(["zz", "tpp_", "MU", "kx"])}
    conc = {("mu", "v1"): amap["mu"][0], ("mu", "v2"): amap["mu"][1], ("t", "v1"): amap["t"][1], ("t", "v2"): amap["t"][2]}
    scales = {"s1": 120.0, "s2": 87.5}
    epss = {"e0": 0, "e1": round(r.uniform(2, 9), 2)}
    targets = {"p1": round(r.uniform(0.1, 0.3), 3), "p2": round(r.uniform(0.3, 0.5), 3)}
    base = dict(params, **{"mu": amap["mu"][0], amap["t"][0]: amap["t"][1]})
    march = bool(h["init"])
    obj = "o%d" % idx
    # the history is executed first (recording what happened), then written after the references it needs
    events, cur, scale = [], dict(base), scales["s1"]
    seen = [(dict(cur), scale)]
    made = {}

    def build():
        b = newband(setup, (cur, scale), march)
        b.res_xy_rough = 101
        made["b"] = b
    ok, _, err = guard(build)
    if not ok:
        tr.ev("New", obj=obj, ok=False, err=err)
        return
    b = made["b"]
    events.append(("New", dict(obj=obj, model="m", a=kw["a"], b=kw["b"], c=kw["c"], scale=scale, params=pf(cur),
                               march=march, obs=look(b))))

    def do(ev, fn, **fields):
        def g():
            fn()
            return look(b)
        ok, o, err = guard(g)
        fields["obj"] = obj
        if ok:
            events.append((ev, dict(fields, obs=o)))
        else:
            events.append((ev, dict(fields, ok=False, err=err)))
        return ok
    steps = list(h["hist"]) + [{"ev": "RunBand", "eps": "e0"}]
    for st in steps:
        ev = st["ev"]
        if ev == "SetItem":
            k = conc_key[st["key"]]
            v = conc.get((st["key"], st["val"]), 0.4)
            if not do("SetItem", lambda: b.__setitem__(k, v) if r.random() < .6 else b.set_band_param(k, v), key=k, val=float(v)):
                break
            if k in cur:
                cur[k] = v
        elif ev == "SetParams":
            new = dict(cur)
            for kk, vv in st["params"].items():
                new[conc_key[kk]] = conc[(kk, vv)]
            def assign():
                # a dictionary of one's own, or the band's own dictionary edited and handed back
                if own:
                    p = b.band_params
                    p.update(new)
                    b.band_params = p
                else:
                    b.band_params = dict(new)
            own = r.random() < .4
            if not do("SetParams", assign, params=pf(new)):
                break
            cur = new
        elif ev == "SetScale":
            scale = scales[st["val"]]
            if not do("SetScale", lambda: setattr(b, "energy_scale", scale), val=scale):
                break
        elif ev == "SetMarch":
            march = st["val"]
            if not do("SetMarch", lambda: setattr(b, "march_square", march), val=march):
                break
        elif ev in ("Discretize", "RunBand"):
            eps = epss[st["eps"]]
            f = b.discretize_fermi_surface if ev == "Discretize" else b.runBandStructure
            if not do(ev, lambda: f(epsilon=eps), eps=float(eps)):
                break
        elif ev == "Fill":
            if not do("Fill", lambda: r.choice([b.update_filling, b.doping, b.filling])(*M1), mesh="m1"):
                break
        elif ev == "Dos":
            if not do("Dos", b.dos_epsilon_func):
                break
        elif ev == "Mass":
            if not do("Mass", b.mass_func):
                break
        elif ev == "SetMu":
            direct = r.random() < .6
            t = targets[st["target"]] / kw["number_of_bz"] + (0.5 if kw["number_of_bz"] == 2 else 0)
            before = len(events)
            if not do("SetMu", lambda: b.set_mu_to_doping(t) if direct else bs.set_mu_to_doping([b], t), target=t, direct=direct):
                break
            mu = float(b.band_params["mu"])
            cur["mu"] = mu
            events[-1][1]["val"] = mu
        seen.append((dict(cur), scale))
        if r.random() < 0.25:
            def peek():
                b.energy_func(np.array([0.1, 0.2]), np.array([0.1, 0.3]), np.array([0.1, 0.0]))
                b.velocity_func(np.array([0.1, 0.2]), np.array([0.1, 0.3]), np.array([0.1, 0.0]))
                b.doping_per_kz(11, 11, 3)
                b["mu"], b["nothing"], b.energy_scale, b.band_params
                b.dispersion_grid([3, 3, 3])
            if not do("Look", peek):
                break
    tr.ev("Reset")
    refs(setup, seen, sorted(set(epss.values())))
    for ev, f in events:
        tr.ev(ev, **f)
    tr.stats["histories"] += 1


hs = histories("c05")
for i, h in enumerate(hs):
    if i % parts == part:
        run(h, i)
tr.close()
