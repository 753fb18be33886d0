"""C12: conductivities of settings related by generated chains of transformations."""
import sys
import numpy as np
from common import Trace, rng, histories, flt, THOROUGH
from trans import PERIODIC
import meshes
import matplotlib
matplotlib.use("Agg")
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
r = rng("c12/%d" % part)
tr = Trace("Trace_C12", "p%d" % part)
RATES = ("gamma_0", "gamma_k", "gamma_dos_max", "gamma_k_sin")


def run(h):
    four = h["fourfold"]
    name, model, params, kmax, _ = r.choice([b for b in PERIODIC if b[4] == four])
    params = dict(params, mu=params["mu"] * r.uniform(.975, .999))     # (no mesh point exactly on the surface)
    march = r.random() < .4 and name != "poles"     # (planes miss the caps of a closed surface)
    a = round(r.uniform(3, 5), 3)
    b = a if four else round(a * r.choice([.83, 1.17]), 3)
    c = round(r.uniform(5, 13), 3)
    approx = any(s["kind"] in ("Reverse", "Quarter") for s in h["hist"])
    n = r.choice([33, 37]) if approx else r.choice([9, 11, 13])
    # (symmetry holds up to the discretisation: meshes fine enough for the tolerance below)
    res = [n, n if four else n + r.choice([0, 2]), (17 if march else 15) if approx else r.choice([3, 5])]
    N = r.randint(90, 120) if approx else r.randint(15, 40)
    s = r.choice([2, 2, .5, 4, round(r.uniform(.4, 2.7), 3)])
    exact = s in (2, .5, 4)
    T = 0 if approx or any(x["kind"].startswith("Energy") for x in h["hist"]) or r.random() < .6 else 4   # (the energy laws are those of T = 0)
    z = r.choice([2, 4, 3])
    steps = np.cumsum([0] + [x["k"] for x in h["hist"] if x["kind"] == "Zones"])
    nbz0 = z**int(max(0, -steps.min()))     # (always a whole number of zones)
    B = round(r.uniform(8, 60), 1) if h["field"] else 0.
    # (lifetimes from a fraction of a picosecond to several, where no closed orbit has to be resolved)
    rates = round(r.uniform(5, 15), 2) if approx and B else round(10**r.uniform(-.5, 1.4), 3)
    base = dict(rates=rates, B=B, th=r.choice([0, 90, round(r.uniform(0, 90), 1), round(r.uniform(90, 180), 1)]),
                ph=r.choice([0, round(r.uniform(-90, 90), 1), 30]), scale=round(r.uniform(70, 180), 1), a=a)
    models = ["isotropic"] + r.sample(["cos2phi", "sin2phi", "cos2phi_coskz", "gamma_dos_func"], r.randint(0, 3))
    if approx and base["B"]:    # (sharp features on the Fermi surface need ever finer meshes)
        models = [m for m in models if m != "cos2phi_coskz"]
    if name == "poles":         # (no azimuth where the surface meets the axis: rounding would choose the rate there)
        models = [m for m in models if "phi" not in m]
    ratio = {"gamma_0": 1, "gamma_k": r.uniform(.3, 2), "gamma_dos_max": r.uniform(.2, 1), "gamma_k_sin": r.uniform(.2, 1)}
    power = {"power": r.choice([2, 3.5]) if approx else r.choice([2, 3.5, 12]), "power_sin": 2, "power_z": 2}
    tols = dict(rtol=1e-9, atol=1e-9) if not approx else dict(rtol=1e-6, atol=1e-6)
    cur = dict(base, ex=dict(rates=0, field=0, energy=0, lattice=0), sign=1, turns=0, zones=0)
    made = {}

    def val():
        f = lambda k: float(s)**cur["ex"][k]
        return dict(rates=base["rates"] * f("rates"), B=cur["sign"] * base["B"] * f("field"), scale=base["scale"] * f("energy"),
                    a=base["a"] * f("lattice"), ph=base["ph"] + 90 * cur["turns"], nbz=int(round(nbz0 * float(z)**cur["zones"])))

    def sp(v):
        return dict(power, **{k: v["rates"] * x for k, x in ratio.items()})

    def build(v):
        f = v["a"] / base["a"]
        bd = BandStructure(a * f, b * f, c * f, v["scale"], band_params=dict(params), band_model=model, parallel=False,
                           resolution=res, k_max=list(kmax), number_of_bz=v["nbz"])
        bd.march_square = march
        bd.res_xy_rough = 201 if approx else 81
        bd.discretize_fermi_surface()
        made["c"] = Conductivity(bd, Bamp=v["B"], Btheta=base["th"], Bphi=v["ph"], N_time=N, T=T, N_epsilon=3,
                                 dfdE_cut_percent=.3, scattering_models=list(models), scattering_params=sp(v), **tols)

    def in_place(v, kind):
        co = made["c"]
        if kind in ("RatesField", "Rates", "Reverse", "Quarter"):
            if kind in ("RatesField", "Rates"):
                if r.random() < .5:
                    co.scattering_params = sp(v)
                else:
                    for k in RATES:
                        setattr(co, k, sp(v)[k])
            co.Bamp, co.Bphi = v["B"], v["ph"]
        elif kind in ("EnergyRates", "Energy"):
            co.scattering_params = sp(v)
            co.bandObject.energy_scale = v["scale"]
            co.bandObject.runBandStructure()
        else:
            build(v)

    def do(ev, how, **kw):
        v = val()

        def f():
            how(v)
            made["c"].runTransport()
            return dict(sigma=flt(made["c"].sigma))
        tr.stats["cases"] += 1
        return tr.call(ev, f, tag="%s march%s T%s %s %s" % (name, march, T, "+".join(models), kw.get("kind", "")), **{k: flt(x) for k, x in v.items()}, **kw)
    if do("Base", build, s=flt(s), z=flt(z), fine=flt(2e-5 if exact else 1e-3), coarse=flt((.12 if name == "open" else .05) if march else .03)) is None:
        return
    for st in h["hist"]:
        kind, k = st["kind"], st["k"]
        ex = {"RatesField": ("rates", "field"), "EnergyRates": ("rates", "energy"), "LatticeField": ("lattice", "field"),
              "Energy": ("energy",), "Rates": ("rates",)}.get(kind, ())
        for x in ex:
            cur["ex"][x] += k * (-2 if kind == "LatticeField" and x == "field" else 1)
        if kind == "Reverse":
            cur["sign"] *= -1
        if kind == "Quarter":
            cur["turns"] += k
        if kind == "Zones":
            cur["zones"] += k
        if do("Do", (lambda v: in_place(v, kind)) if r.random() < .5 else build, kind=kind, k=k) is None:
            return
    tr.stats["histories"] += 1


for i, h in enumerate(histories("c12")):
    if i % parts == part:
        run(h)
tr.close()
