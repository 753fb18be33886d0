"""C04: fillings, dopings and chemical-potential searches."""
import sys
import numpy as np
from common import Trace, rng, model_ast, THOROUGH, flt
from models import CATALOGUE, CUPRATE, CUP
from surfaces import BANDS
import meshes
import cuprates_transport.bandstructure as bs
from cuprates_transport.bandstructure import BandStructure

MESH = meshes.shrink()
r = rng("c04")
tr = Trace("Trace_C04", "all")
SQ = "-mu - 2*t*(cos(a*kx) + cos(b*ky)) - 2*tz*cos(c*kz/2)"
HOLE = "mu + 2*t*(cos(a*kx) + cos(b*ky)) + 2*tz*cos(c*kz/2)"      # filling falls with mu
ALL = [(n, m, p) for n, m, p, k, c4 in BANDS] + [(n + "_c", m, p) for n, m, p in CATALOGUE] + \
    [("half", SQ, {"mu": 0, "t": 1, "tz": 0}), ("hole", HOLE, {"mu": 0.4, "t": 1, "tz": 0.1})]
KMAX = [[np.pi, np.pi, 2 * np.pi], [np.pi] * 3, [2 * np.pi, np.pi, np.pi], [np.pi, 2 * np.pi, 4 * np.pi], [2.0, 3.0, 1.5]]


def make(name, model, params, mu=None, easy=False):
    """easy: every doping between 0.05 and 0.9 is reached for some mu in [-10, 10]"""
    p = dict(params)
    if mu is not None:
        p["mu"] = mu
    kw = dict(a=round(r.uniform(2.5, 6), 3), b=round(r.uniform(2.5, 6), 3), c=round(r.uniform(3, 14), 3),
              energy_scale=round(r.uniform(40, 250), 2), k_max=r.choice(KMAX[:2] if easy else KMAX), number_of_bz=r.choice([1, 2] if easy else [1, 1, 2, 4, .5, 1.5]),
              resolution=[r.choice([2, 3, 4]), r.choice([2, 3, 5]), r.choice([1, 2, 3])])
    b = BandStructure(band_params=p, band_model=model, parallel=False, march_square=r.random() < .3, **kw)
    return b, dict(model=name, a=kw["a"], b=kw["b"], c=kw["c"], kmax=flt(kw["k_max"]), nbz=kw["number_of_bz"],
                   scale=kw["energy_scale"], params={k: float(v) for k, v in p.items()})


def rmesh():
    return [r.choice([1, 2, 5, 12, 20, 37]), r.choice([1, 3, 8, 21, 40]), r.choice([1, 2, 3, 7, 12])]


def singles(name, model, params):
    b, d = make(name, model, params)
    for i in range(3):
        m = rmesh() if r.random() < .75 else None
        kind = r.choice(["update", "doping", "filling", "run"] if name not in ("chain_c",) else ["update", "doping", "filling"])
        if kind == "run":
            m = [x * 10 for x in b.resolution]

        def f():
            args = {} if m is None or kind == "run" else dict(res_x=m[0], res_y=m[1], res_z=m[2])
            ret = {"n": "none", "p": "none"}
            if kind == "update":
                ret["n"] = float(b.update_filling(**args))
            elif kind == "doping":
                ret["p"] = float(b.doping(printDoping=r.random() < .5, **args))
            elif kind == "filling":
                ret["n"] = float(b.filling(**args))
            else:
                try:
                    b.runBandStructure(epsilon=r.choice([0, 3.0]))
                except Exception:       # no surface on so coarse a mesh: the filling alone
                    b.doping(res_x=m[0], res_y=m[1], res_z=m[2])
            return dict(n=float(b.n), p=float(b.p), ret=ret)
        tr.call("Fill", f, tag=name + "/" + kind, bands=[d], mesh=m or MESH)
        tr.stats["cases"] += 1
    m = rmesh() if r.random() < .7 else [MESH[0], MESH[1], 11]

    def g():
        n, p = b.doping_per_kz(res_x=m[0], res_y=m[1], res_z=m[2]) if m[2] != 11 else b.doping_per_kz()
        return dict(n=flt(n), p=flt(p))
    tr.call("PerPlane", g, tag=name, bands=[d], mesh=m)
    tr.stats["cases"] += 1


def now(bands, ds):
    return [dict(d, params=dict(d["params"], mu=float(b["mu"]))) for b, d in zip(bands, ds)]


# points exactly at the Fermi level are occupied; on these meshes their energies are exactly zero
LEVEL = [("level_x", "t*kx", {"t": 1.3}), ("level_xy", "t*kx*ky", {"t": -0.7}), ("level_wave", "t*kx*exp(b*ky/3)", {"t": 1.0}),
         ("level_xyz", "t*kx*ky**2*kz", {"t": 2.0})]


def level(name, model, params):
    b, d = make(name, model, params)
    for i in range(2):
        m = [r.choice([3, 5, 9, 17]) for _ in range(3)]

        def f():
            ret = {"n": "none", "p": "none"}
            if r.random() < .5:
                ret["n"] = float(r.choice([b.update_filling, b.filling])(*m))
            else:
                ret["p"] = float(b.doping(*m))
            return dict(n=float(b.n), p=float(b.p), ret=ret)
        tr.call("Level", f, tag=name, bands=[d], mesh=m)

        def g():
            n, p = b.doping_per_kz(*m)
            return dict(n=flt(n), p=flt(p))
        tr.call("LevelPerPlane", g, tag=name, bands=[d], mesh=m)
        tr.stats["cases"] += 2


def wide(p):
    """The same dispersion stretched: chemical potentials of several energy scales."""
    f = r.choice([1, 1, 2, 2.4])
    return {k: v * f for k, v in p.items()}


def search(todo, target, ptol, single):
    pairs = [make(n, m, wide(p) if n in ("half", "hole", "corner", "two_dim_c", "cuprate") else p, easy=True) for n, m, p in todo]
    if r.random() < .35:        # electron doping
        if all(d["nbz"] == 1 for _, d in pairs):
            target = -target
    bands, ds = [x[0] for x in pairs], [x[1] for x in pairs]
    if r.random() < .5:
        for b in bands:
            try:
                b.runBandStructure()
            except Exception:
                pass

    def f():
        kw = {} if ptol is None else dict(ptol=ptol)
        if single:
            bands[0].set_mu_to_doping(target, **kw)
        else:
            bs.set_mu_to_doping(r.choice([tuple, list])(bands), target, **kw)
        return dict(bands=now(bands, ds), ns=["none" if b.n is None else float(b.n) for b in bands])
    tr.call("Search", f, tag="%s/%s" % ("single" if single else "multi", todo[0][0]), target=target,
            ptol=float(ptol or 0.001), mesh=MESH, bands=ds)
    tr.stats["cases"] += 1
    if r.random() < .6:
        tr.call("Total", lambda: dict(ret=float(bs.doping(bands, printDoping=r.random() < .5)), ns=[float(b.n) for b in bands],
                                      bands=now(bands, ds)), tag="after search", mesh=MESH, bands=ds)


for n, m, p in ALL + LEVEL:
    tr.ev("Model", id=n, ast=model_ast(m), text=m)
for x in ALL:
    for i in range(6 if THOROUGH else 2):
        singles(*x)
for x in LEVEL:
    for i in range(6 if THOROUGH else 2):
        level(*x)
MU = [x for x in ALL if "mu" in x[2] and x[0] in
      ("cuprate", "cuprate_3d", "two_dim_c", "two_sheets", "open", "corner", "half", "hole", "sphere", "reconstructed")]
for i in range(40 if THOROUGH else 10):
    search([r.choice(MU)], round(r.uniform(0.06, 0.88), 3), r.choice([None, 0.01, 1e-4]), True)
up = [x for x in MU if x[0] != "hole"]
for i in range(24 if THOROUGH else 7):
    search([r.choice(up) for j in range(r.choice([1, 2, 2, 3]))], round(r.uniform(0.06, 0.88), 3),
           r.choice([None, 0.01, 1e-4]), False)
    tr.stats["histories"] += 1
for i in range(20 if THOROUGH else 6):
    pairs = [make(*r.choice(ALL)) for j in range(r.choice([1, 2, 3, 4]))]
    tr.call("Total", lambda: dict(ret=float(bs.doping([b for b, d in pairs])), ns=[float(b.n) for b, d in pairs]),
            bands=[d for b, d in pairs], mesh=MESH)
    tr.stats["cases"] += 1
tr.close()
