"""Bands and scans shared by the drivers of C13 and C14: an ADMR object replaying a generated
history, with the settings of every band kept aside so that new objects can be built from them."""
import copy, os
import numpy as np
from common import guard
from trans import PERIODIC, shallow
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity
from cuprates_transport.admr import ADMR
import matplotlib.pyplot as plt
import models


MORE = [(n, m, p, [np.pi] * 3, False) for n, m, p in models.CATALOGUE if n in ("capital_order", "sympy_names")]


class Scans:
    def __init__(self, r, nbands=None, exotic=False):
        self.r = r
        self.conf, self.cache = [], {}
        n = nbands or r.choice([1, 2, 2, 3])
        B = r.choice([0, round(r.uniform(5, 60), 1), r.randint(5, 60), 45])
        T = 0 if r.random() < .96 else "thermal"
        a, c = round(r.uniform(3, 5), 2), round(r.uniform(6, 13), 2)
        scale = round(r.uniform(60, 200), r.choice([0, 1, 3]))
        first = r.choice(PERIODIC) if r.random() < .8 else r.choice([next(b for b in PERIODIC if "M" in b[2])] + MORE)
        if r.random() < .3:
            first = r.choice([b for b in PERIODIC if b[0] in ("tilted", "skewed")])
        for i in range(n):
            name, model, params, kmax, _ = first if r.random() < .5 else r.choice(PERIODIC)
            if "M" in params:
                params = dict(params, M=r.choice([1, 1, -1]) * params["M"])
            self.conf.append(dict(
                band=dict(band_name=r.choice(["LargePocket", "hPocket", "ePocket", "Band_%d" % i, "band 1"]), a=a, b=a if r.random() < .6 else round(a * 1.1, 3), c=c,
                          energy_scale=scale, band_params=dict(params), band_model=model, k_max=list(kmax),
                          resolution=[r.choice([7, 9]), r.choice([7, 9]), 5], number_of_bz=r.choice([1, 1, 2]), parallel=False),
                march=r.random() < .4,
                cond=dict(Bamp=B, T=T, N_time=r.randint(10, 20), N_epsilon=2, dfdE_cut_percent=.2,
                          scattering_models=["isotropic"] + r.sample(["cos2phi", "sin2phi", "gamma_dos_func"], r.choice([0, 1])),
                          scattering_params=dict(gamma_0=round(r.uniform(5, 20), 1), gamma_k=round(r.uniform(5, 40), 1), power=r.choice([2, 12]),
                                                 gamma_k_sin=4.5, power_sin=2, gamma_dos_max=3.25)),
                base=dict(params)))
        for c in self.conf:
            if c["cond"]["T"] == "thermal":
                room = shallow(c["band"]["band_model"], c["band"]["band_params"], a, c["band"]["b"], c["band"]["c"], c["band"]["k_max"])
                c["cond"]["T"] = round(min(.3 * room * scale / .3, 4), 1)
        self.lo = r.choice([0, 0, -15, 10, -90])
        self.step = r.choice([5, 7, 20, 35, 2.5, .1, 1.3])
        self.n = r.randint(1, 5)
        self.hi = self.lo + self.step * (self.n - 1) + (round(self.step * r.uniform(.1, .8), 3) if r.random() < .35 else 0)
        self.phis = [r.choice([0, 15, 45, 22.5, -30, 135])]
        if r.random() < .7:
            self.phis = r.sample([0, 15, 30, 45, 22.5, -30, 135, 300], r.randint(1, 3))
        if r.random() < .4:     # opposite azimuths, and angles on both sides of the plane
            self.phis = r.choice([[0, 180], [30, 210, -30], [45, -135], [15, 195], [60, 240, 60]])
            if r.random() < .7:
                self.lo, self.step, self.n, self.hi = r.choice([(60, 30, 3, 120), (75, 15, 3, 105), (-45, 45, 3, 45), (0, 60, 4, 180), (40, 100, 2, 141)])
        self.norm = r.choice([self.lo, self.lo, round(r.uniform(self.lo, max(self.lo, self.lo + self.step * (self.n - 1))), 2)])

    def band(self, c):
        bd = BandStructure(**copy.deepcopy(c["band"]))
        bd.march_square = c["march"]
        bd.res_xy_rough = 81
        bd.runBandStructure(printDoping=False)
        return bd

    def build(self, c):
        return Conductivity(self.band(c), **copy.deepcopy(c["cond"]))

    def start(self):
        self.conds = [self.build(c) for c in self.conf]
        self.admr = ADMR(self.conds, Btheta_min=self.lo, Btheta_max=self.hi, Btheta_step=self.step, Btheta_norm=self.norm,
                         Bphi_array=list(self.phis), show_progress=False)
        self.thetas = list(self.admr.Btheta_array)
        return dict(lo=float(self.lo), hi=float(self.hi), step=float(self.step), thetas=[float(x) for x in self.thetas])

    def redo(self, c, co):
        co.bandObject.runBandStructure(printDoping=False)

    def set_band(self, b, kind):
        r, n = self.r, len(self.conf)
        i = (b - 1) % n
        c, co = self.conf[i], self.admr.condObject_list[i]
        if kind == "field":
            B = r.choice([0, round(r.uniform(5, 60), 1), 30])
            for c, co in zip(self.conf, self.admr.condObject_list):
                co.Bamp = c["cond"]["Bamp"] = B
        elif kind == "rates":
            c["cond"]["scattering_params"]["gamma_0"] = co.gamma_0 = round(r.uniform(5, 30), 2)
        elif kind == "models":
            c["cond"]["scattering_models"] = ["isotropic"] + r.sample(["cos2phi", "sin2phi"], r.randint(0, 2))
            co.scattering_models = list(c["cond"]["scattering_models"])
        elif kind == "T":
            T = 0
            co.T = c["cond"]["T"] = T
        elif kind == "mesh":
            c["band"]["resolution"] = [r.choice([7, 9, 11]), 9, r.choice([5, 7])]
            co.bandObject.resolution = list(c["band"]["resolution"])
            self.redo(c, co)
        elif kind == "doping":
            co.bandObject.filling(9, 9, 3)
            x = float(co.bandObject.p) + r.uniform(-.04, .04)
            co.bandObject.set_mu_to_doping(min(max(x, -.9), .9))
            c["band"]["band_params"]["mu"] = co.bandObject["mu"]
            self.redo(c, co)
        else:
            k = r.choice(sorted(c["band"]["band_params"]))
            v = c["base"][k] * (r.uniform(.96, .99) if k == "mu" else r.uniform(.85, 1.08))
            if "M" in c["base"] and r.random() < .6:     # reconstructed or not, whatever the value
                k, v = "M", r.choice([.004, -c["base"]["M"], c["base"]["M"] / 2, .2])   # not 0: no velocity where its root vanishes
            c["band"]["band_params"][k] = v
            co.bandObject[k] = v
            self.redo(c, co)

    def set_phis(self, q):
        pool = self.r.choice([[0, 15, 30, 45, -60, 200.5], [0, 180, 30, 210, -60, 120]])
        self.phis = [pool[i % len(pool)] for i in q]
        self.admr.Bphi_array = np.array(self.phis)

    def set_thetas(self, q):
        pool = self.r.choice([[0, 12.5, 30, 61, 85, 100], [0, 180, 60, 120, 40, 140], [-30, 30, 150, 75, 105, -75]])
        self.thetas = sorted({pool[i % len(pool)] for i in q})
        self.admr.Btheta_array = np.array(self.thetas)
        self.set_norm(self.r.randint(0, 3))

    def set_norm(self, x):
        t = self.thetas
        self.norm = {0: t[0], 1: t[-1], 2: t[len(t) // 2]}.get(x, round(self.r.uniform(t[0], t[-1]), 2))
        self.admr.Btheta_norm = self.norm

    def scan(self):
        self.admr.runADMR()

    def refs(self):
        """Conductivities of new objects, and their fillings."""
        fresh = []
        for c in self.conf:
            k = repr(c)
            if k not in self.cache:
                self.cache[k] = self.build(c)
            fresh.append(self.cache[k])
        fills = [float(x.bandObject.n) for x in fresh]
        rows = []
        for phi in self.phis:
            row = []
            for th in self.thetas:
                ts = []
                for x in fresh:
                    x.Bphi, x.Btheta = float(phi), float(th)
                    x.runTransport()
                    ts.append([[float(y) for y in z] for z in x.sigma])
                row.append(ts)
            rows.append(row)
        return rows, fills

    def singular(self, refs):
        return any(np.linalg.cond(np.sum(np.array(ts), axis=0)) > 1e11 for row in refs for ts in row)

    def look(self, what, folder):
        a = self.admr
        f = {"export": lambda: a.fileADMR(folder=folder), "figure": lambda: a.figADMR(fig_show=False, fig_save=True, folder=folder),
             "name": a.file_name_func, "totals": a.update_total_doping,
             "parameters": lambda: a.condObject_list[0].figParameters(fig_show=False)}[what]
        try:
            return f()
        finally:
            plt.close("all")
