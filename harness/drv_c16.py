"""C16: random data tables given to every kind of fit; the aligned matrices are recorded."""
import copy, os, sys
import numpy as np
from common import Trace, rng, flt, THOROUGH
import meshes
import matplotlib
matplotlib.use("Agg")
from models import CUPRATE, CUP
from fits import Curve
from cuprates_transport.fitting_admr_parallel_multiT import Fitness
from cuprates_transport.fitting_admr_parallel_oneT import FittingADMRParallel
from cuprates_transport.fitting_admr_series_oneT import FittingADMR as Series
from cuprates_transport.fitting_admr_series_multi_T import FittingADMR as SeriesMulti

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
meshes.rough(41)
r = rng("c16/%d" % part)
tr = Trace("Trace_C16", "p%d" % part)

BASE = dict(band_name="LargePocket", a=3.75, b=3.75, c=13.2, energy_scale=160, band_params=dict(CUP), band_model=CUPRATE,
            resolution=[7, 7, 5], T=0, Bamp=r.choice([0, 45]), N_time=10, scattering_models=["isotropic"],
            scattering_params={"gamma_0": 12.0, "gamma_k": 60.0, "power": 12})


def world(folder, limits):
    """Data dictionary of several temperatures: keys in any order, each with its own curve."""
    temps = r.sample([25, 20, 12, 6, 4.5, .35, 1.6], r.randint(1, 3))
    pairs = [(T, p) for T in temps for p in r.sample([0, 15, 30, 45, 22.5, 22, 22.25, -15, -15.5, 60.0], r.randint(1, 5))]
    if r.random() < .6:
        r.shuffle(pairs)
    data, curves = {}, {}
    for i, (T, phi) in enumerate(pairs):
        lo, hi = limits(T)
        c = Curve(r, os.path.join(folder, "d%d.dat" % i), lo, hi, r.choice([1, 1e-5, 7.3, 120, -2.5]))
        data[T, phi], curves[T, phi] = c, c
    return temps, data, curves


def multi(folder):
    norms = {}

    def limits(T):
        lo = r.choice([0, 0, -10.5, 20, 3.3])
        return lo, lo + r.choice([20, 40, 60.5, 90])
    temps, data, curves = world(folder, limits)
    table = {}
    for (T, phi), c in data.items():
        lo = r.choice([0, 0, -10.5, 20, 3.3])
        hi = lo + r.choice([7.7, 20, 40, 60.5, 90, .6])
        norms.setdefault(T, r.choice([0, 0, lo, hi, round(r.uniform(lo, hi), 2), 200]))
        table[T, phi] = [c.path, c.ct, c.cr, lo, hi, r.choice([5, 7, 10, 2.5, 1.1, .3]), norms[T], r.choice([1, 1e-5, 6.71e-5, 3])]
    params = {T: {"b": copy.deepcopy(BASE)} for T in temps}
    bounds = {"all": {"b": {"tz": (0, 1)}}}
    fitted = r.sample(temps, r.randint(1, len(temps)))
    for T in fitted:
        bounds[T] = {}
    box = {}
    given = copy.deepcopy(table)

    def make():
        box["f"] = Fitness(table, params, bounds)
    if tr.call("New", make) is None:
        return
    for T in fitted:
        tr.stats["cases"] += 1

        def read():
            f = box["f"]
            phis = [float(p) for p in f.phis_dict[T]]
            rows = [given[T, p] for p in phis]
            return dict(phis=flt(phis), thetas=flt(f.thetas_dict[T]), rzz=flt(f.rzz_data_dict[T]), rhozz=flt(f.rhozz_data_dict[T]),
                        expected=[float(p) for t, p in given if t == T], los=[float(x[3]) for x in rows], his=[float(x[4]) for x in rows],
                        steps=[float(x[5]) for x in rows], norm=float(norms[T]), scale=[float(x[7]) for x in rows],
                        curves=[curves[T, p].fields() for p in phis])
        tr.call("MultiT", read, tag="T %s" % T)


def single(folder, kind):
    lo = r.choice([0, 0, 5, -10, 10.2, 20])
    step = r.choice([5, 10, 2.5, .1, .3, .7, 1.1, 7])
    n = r.randint(2, 7)
    hi = round(lo + step * n + r.choice([0, 0, .4 * step]), 6)
    temps, data, curves = world(folder, lambda T: (min(lo, 0), hi))
    table = {}
    for (T, phi), c in data.items():
        cut = r.choice([90, hi, hi, round(lo + step * max(1, r.randint(1, n)), 6), round(lo + step * 1.5, 6), hi + 30])
        table[T, phi] = [c.path, c.ct, c.cr, cut, r.choice([6.71e-5, 1, 5.5e-5])]
    given = copy.deepcopy(table)
    member = dict(copy.deepcopy(BASE), fixdoping=2, data_p=.24, Btheta_min=lo, Btheta_max=hi, Btheta_step=step)
    T = r.choice(temps)
    used = r.sample(temps, r.randint(1, len(temps))) if kind == "SeriesMulti" else [T]
    have = {T: [p for t, p in given if t == T] for T in used}
    common = sorted({p for T in used for p in have[T]})
    if kind == "SeriesMulti":     # (the azimuths asked for are the same at all temperatures)
        asked = [p for p in common if r.random() < .8] + [75]
        for T in used:
            if not set(asked) & set(have[T]):
                asked.append(have[T][0])
        member["data_T"] = used
        scalar = r.random() < .5
        member["T"] = {t: 0 for t in used} if scalar else 0
    else:
        asked = r.sample(have[T], r.randint(1, len(have[T]))) + ([75] if r.random() < .5 else [])
        member["data_T"] = T
    if r.random() < .5:
        r.shuffle(asked)
    member["Bphi_array"] = asked if r.random() < .7 else np.array(asked)
    box = {}

    def make():
        if kind == "Parallel":
            box["f"] = FittingADMRParallel(member, {"gamma_0": [5, 20]}, table, folder=folder)
        else:
            box["f"] = {"Series": Series, "SeriesMulti": SeriesMulti}[kind](member, {"gamma_0": [5, 20]}, table, folder=folder)
            box["f"].load_and_interp_data()
    if tr.call("New", make, tag=kind) is None:
        return

    def read(T):
        f = box["f"]
        if kind == "SeriesMulti":
            phis, thetas, rzz, rhozz = f.Bphi_dict[T], f.Btheta_dict[T], f.rzz_data_i_dict[T], f.rhozz_data_i_dict[T]
        else:
            phis, thetas, rzz, rhozz = f.Bphi_array, f.Btheta_array, f.rzz_data_matrix, f.rhozz_data_matrix
        phis = [float(p) for p in phis]
        return dict(phis=flt(phis), thetas=flt(thetas), rzz=flt(rzz), rhozz=flt(rhozz), lo=float(lo), hi=float(hi), step=float(step),
                    expected=[float(p) for p in have[T] if p in asked], cuts=[float(given[T, p][3]) for p in have[T] if p in asked],
                    scale=[float(given[T, p][4]) for p in phis], curves=[curves[T, p].fields() for p in phis])
    for again in range(r.randint(1, 3)):
        for T in used:
            tr.stats["cases"] += 1
            if tr.call("OneT", lambda: read(T), tag="%s %s..%s/%s" % (kind, lo, hi, step)) is None:
                return
        if kind == "SeriesMulti":
            for T in used:
                for p in have[T]:
                    if p in asked and r.random() < .5:
                        f = box["f"]
                        tr.call("Raw", lambda: dict(theta=flt(f.Btheta_data_dict[T, p]), rzz=flt(f.rzz_data_dict[T, p]), rhozz=flt(f.rhozz_data_dict[T, p]),
                                                    curve=curves[T, p].fields(), cut=float(given[T, p][3]), scale=float(given[T, p][4])), tag=kind)
        # the data are loaded again, for some fits after an evaluation
        if again == 0 and r.random() < .4:
            f = box["f"]
            if kind == "Parallel":
                go = lambda: f.compute_diff2([11.5]) and None
            else:
                go = lambda: f.compute_diff(f.pars) is None and None
        else:
            go = box["f"].load_and_interp_data
        if tr.call("Again", lambda: go() and None, tag=kind) is None:
            return


n = 60 if THOROUGH else 8
for i in range(n * 4):
    folder = os.path.abspath("data_%d_%d" % (part, i))
    os.mkdir(folder)
    kind = ["Multi", "Parallel", "Series", "SeriesMulti"][i % 4]
    if kind == "Multi":
        multi(folder)
    else:
        single(folder, kind)
    tr.stats["histories"] += 1
tr.close()
