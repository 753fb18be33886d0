"""Concrete values of the settings of a generated transport history."""
import itertools
import numpy as np
from models import CUPRATE, CUP
import surfaces

# name, model, params, k_max: dispersions whose velocity is meaningful along orbits leaving the box
PERIODIC = [b for b in surfaces.BANDS if b[0] not in ("sphere", "ellipsoid", "shifted")]


def occupied(model, params, a, b, c, kmax):
    """Smaller of the occupied and empty fractions of the zone."""
    k = np.meshgrid(*[np.linspace(-m / x, m / x, 12) for m, x in zip(kmax, (a, b, c))])
    e = eval(model, dict(params, a=a, b=b, c=c, kx=k[0], ky=k[1], kz=k[2], cos=np.cos, sin=np.sin, sqrt=np.sqrt, exp=np.exp))
    f = np.mean(e < 0)
    return min(f, 1 - f)


def shallow(model, params, a, b, c, kmax):
    """How far (in energy scales) the Fermi level can move with a surface left on coarse meshes."""
    room = []
    for nx, ny, nz in itertools.product((7, 9, 11, 13), (7, 9, 11, 13), (3, 5)):
            k = np.meshgrid(*[np.linspace(-m / x, m / x, q) for m, x, q in zip(kmax, (a, b, c), (nx, ny, nz))])
            e = eval(model, dict(params, a=a, b=b, c=c, kx=k[0], ky=k[1], kz=k[2], cos=np.cos, sin=np.sin, sqrt=np.sqrt, exp=np.exp))
            room.append(min(-e.min(), e.max()))
    return .6 * min(room)


class Values:
    """Concrete value of every abstract value of MC_Transport."""

    def __init__(self, r, bands=PERIODIC, thermal=False):
        self.r = r
        name, model, params, kmax, _ = r.choice(bands)
        self.name, self.model, self.kmax = name, model, list(kmax)
        self.a = round(r.uniform(3, 5), 3)
        self.b = self.a if r.random() < .4 else round(self.a * r.uniform(.8, 1.25), 3)
        self.c = round(r.uniform(5, 14), 3)
        self.scale = round(r.uniform(60, 200), 1)
        self.band = {"p1": dict(params)}
        base = occupied(model, params, self.a, self.b, self.c, kmax)
        while True:
            p2 = dict(params)
            k = r.choice(sorted(p2))
            p2[k] = p2[k] * r.uniform(.93, .99) if k == "mu" else p2[k] * r.uniform(.8, 1.1)
            if occupied(model, p2, self.a, self.b, self.c, kmax) >= .6 * base and shallow(model, p2, self.a, self.b, self.c, kmax) > .02:
                break
        self.band["p2"] = p2
        B = [0] + [r.choice([round(r.uniform(5, 70), 2), r.randint(5, 70), -round(r.uniform(5, 40), 1),
                           float("%.3g" % 10**r.uniform(-2, .5))]) for _ in range(3)]
        self.set = {"Bamp": {i: b for i, b in enumerate(B)},
                    "Btheta": {i: x for i, x in enumerate([0, 0, 90, round(r.uniform(0, 90), 2), round(r.uniform(90, 180), 1),
                                                            -round(r.uniform(0, 180), 1), r.randint(0, 89)])},
                    "Bphi": {i: x for i, x in enumerate([0, 0, 45, round(r.uniform(-180, 180), 2), round(r.uniform(180, 400), 1), r.randint(0, 90)])},
                    "T": {0: 0, 1: r.choice([round(r.uniform(1, 12), 2), float("%.3g" % 10**r.uniform(-2, 0))]), 2: r.randint(12, 60), 3: round(r.uniform(60, 200), 1)},
                    "N_time": {1: r.randint(12, 30), 2: r.randint(30, 60), 3: r.randint(60, 110)},
                    "N_epsilon": {1: 2, 2: r.choice([3, 5]), 3: r.choice([4, 6])},
                    "dfdE_cut_percent": {1: r.choice([.1, .05]), 2: round(r.uniform(.001, .4), 3)}}
        self.scat = {("gamma_0", "v1"): round(r.uniform(6, 25), 2), ("gamma_0", "v2"): r.randint(5, 40),
                     ("gamma_k", "v1"): round(r.uniform(5, 70), 1), ("gamma_k", "v2"): r.choice([0, r.randint(1, 60)]),
                     ("power", "v1"): r.choice([12, 2, 3]), ("power", "v2"): round(r.uniform(1, 6), 1)}
        if thermal:   # every surface of the window must exist
            room = min(shallow(model, p, self.a, self.b, self.c, kmax) for p in self.band.values()) * self.scale
            cut = min(self.set["dfdE_cut_percent"].values())
            tmax = room / (2 * 0.08617333 * np.arccosh(1 / np.sqrt(cut)))
            self.set["T"] = {0: 0, 1: round(tmax * r.uniform(.05, .3), 2), 2: round(tmax * r.uniform(.3, .7), 2), 3: round(tmax * r.uniform(.7, 1), 1)}
            if r.random() < .3:
                self.set["T"][1] = float("%.3g" % min(tmax, 10**r.uniform(-2, 0)))
            if self.set["T"][2] > 2 and r.random() < .5:
                self.set["T"][2] = int(self.set["T"][2])
            self.set["N_time"] = {1: 12, 2: r.randint(13, 20), 3: r.randint(20, 30)}
        self.gdos = round(r.uniform(3, 20), 1)

    def models(self, ms):
        ms = list(ms)
        if "isotropic" not in ms:
            ms.append("isotropic")
        self.r.shuffle(ms)
        return ms

    def scat0(self):
        return {"gamma_0": self.scat["gamma_0", "v1"], "gamma_k": self.scat["gamma_k", "v1"],
                "power": self.scat["power", "v1"], "gamma_dos_max": self.gdos}


def pf(d):
    return {k: float(v) for k, v in d.items()}


def sets(d):
    """Settings as recorded: counts stay integers, everything else is real."""
    return {k: (int(v) if k.startswith("N_") else float(v)) for k, v in d.items()}
