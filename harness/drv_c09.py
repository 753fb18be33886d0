"""C09: zero-temperature conductivities for random bands, fields and scattering."""
import sys
import numpy as np
from common import Trace, rng, vec, flt, model_ast, THOROUGH
from trans import Values, pf
import meshes, surfaces
import matplotlib
matplotlib.use("Agg")
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
r = rng("c09/%d" % part)
tr = Trace("Trace_C09", "p%d" % part)
PI = np.pi


def field(kind):
    B = 0 if kind == "none" else r.choice([round(r.uniform(3, 70), 2), r.randint(5, 60), -round(r.uniform(5, 60), 1)])
    th, ph = r.choice([(0, 0), (90, r.choice([0, 45, 90])), (round(r.uniform(0, 90), 2), round(r.uniform(-180, 180), 2)),
                       (round(r.uniform(90, 180), 2), round(r.uniform(0, 360), 2)), (r.randint(1, 89), r.randint(0, 90))])
    return B, th, ph


def case(kind):
    v = Values(r, bands=surfaces.BANDS if kind == "none" else Values.__init__.__defaults__[0])
    B, th, ph = field(kind)
    ms = r.sample(["isotropic", "cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func"], r.randint(1, 5))
    if "isotropic" not in ms:
        ms.append("isotropic")
    sp = dict(v.scat0(), power=r.choice([2, 12, 3.5]), power_z=r.choice([1, 2.5]), gamma_k_sin=round(r.uniform(1, 30), 1), power_sin=r.choice([2, 4]))
    nbz = r.choice([1, 1, 2, 4])
    N = r.choice([v.set["N_time"][i] for i in (1, 2, 3)])
    formula = kind != "rule"
    march = r.random() < .35
    kw = dict(rtol=1e-10, atol=1e-10) if formula else {}
    made = {}

    def f():
        bd = BandStructure(v.a, v.b, v.c, v.scale, band_params=dict(v.band["p1"]), band_model=v.model, parallel=False,
                           resolution=[r.randint(9, 13), r.randint(9, 13), r.choice([3, 5])], k_max=v.kmax, number_of_bz=nbz)
        bd.march_square = march
        bd.res_xy_rough = 81
        bd.discretize_fermi_surface()
        co = Conductivity(bd, Bamp=B, Btheta=th, Bphi=ph, N_time=N, scattering_models=ms, scattering_params=dict(sp), **kw)
        co.runTransport()
        b = co.bandObject
        n = np.asarray(co.time_array).size
        o = dict(kf=[vec(x) for x in b.kf], dkf=vec(b.dkf), dosmax=float(np.max(b.dos_k)), sigma=flt(co.sigma), n=n, kft=["", "", ""])
        if not formula:
            o["kft"] = [vec(x) for x in np.asarray(co.kft, float)]
        return o
    tr.call("Run", f, tag="%s %s march%s bz%s B%s th%s ph%s %s" % (kind, v.name, march, nbz, B, th, ph, "+".join(ms)),
            model=model_ast(v.model), a=v.a, b=v.b, c=v.c, scale=v.scale, params=pf(v.band["p1"]), models=ms, sparams=pf(sp),
            nbz=nbz, B=float(B), th=float(th), ph=float(ph), N=N, rule=not formula, formula=formula, sub=24)
    tr.stats["cases"] += 1
    tr.stats["histories"] += 1


def drude():
    a, b, c = [round(r.uniform(3, 6), 2) for _ in range(3)]
    m = [1, r.choice([1, 1.7]), r.choice([1, .6])]
    mu, scale = round(r.uniform(.5, .9), 2), round(r.uniform(60, 200), 1)
    model = "-mu + t*((a*kx)**2 + m*(b*ky)**2 + n*(c*kz)**2)/4"
    params = {"mu": mu, "t": 1, "m": m[1] / scale, "n": m[2] / scale}   # (dimensionless m, n enter as fractions of the scale)
    B, th, ph = field(r.choice(["none", "some", "some"]))
    g = round(r.uniform(3, 20), 1)
    nbz = r.choice([1, 2])

    def f():
        bd = BandStructure(a, b, c, scale, band_params=dict(params), band_model=model, parallel=False,
                           resolution=[19, 21, 19], k_max=[PI, PI, PI], number_of_bz=nbz)
        bd.discretize_fermi_surface()
        co = Conductivity(bd, Bamp=B, Btheta=th, Bphi=ph, N_time=400, scattering_models=["isotropic"], scattering_params={"gamma_0": g})
        co.runTransport()
        return dict(sigma=flt(co.sigma))
    coef = [scale / 4 * q * l**2 for q, l in zip(m, (a, b, c))]
    tr.call("Drude", f, tag="m%s B%s th%s ph%s" % (m, B, th, ph), coef=flt(coef), fermi=mu * scale, B=float(B), th=float(th), ph=float(ph),
            sparams={"gamma_0": g}, nbz=nbz)
    tr.stats["cases"] += 1
    tr.stats["histories"] += 1


for i in range(60 if THOROUGH else 10):
    case(["none", "formula", "rule", "formula", "formula"][i % 5])
for i in range(6 if THOROUGH else 1):
    drude()
tr.close()
