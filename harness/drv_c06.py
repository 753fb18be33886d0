"""C06: generated histories of building, writing and assigning, replayed on real objects; after
every step every live object's settings, stored results and recomputed results are recorded."""
import copy, json, os, sys
import numpy as np
from common import Trace, rng, histories, guard, vec
import meshes
import matplotlib
matplotlib.use("Agg")
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity
from cuprates_transport.admr import ADMR
from cuprates_transport.fitting_admr_parallel_multiT import Fitness, SimADMR
from cuprates_transport.fitting_admr_parallel_oneT import FittingADMRParallel
from cuprates_transport.fitting_admr_series_oneT import FittingADMR
from cuprates_transport.fitting_admr_series_multi_T import FittingADMR as FittingSeriesT

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
meshes.rough(81)
r = rng("c06/%d" % part)
tr = Trace("Trace_C06", "p%d" % part)
PI = np.pi
T1, T2 = 10, 20
FILES = {}
for T in (T1, T2):
    p = os.path.abspath("data_%d.dat" % T)
    np.savetxt(p, [[x, 1 + 0.01 * x + T * 1e-3] for x in (0, 20, 40, 60, 90)])
    FILES[T] = p

BP = {"v1": {"t": 1, "tp": -0.136, "tpp": 0.068, "tz": 0.07, "mu": -0.83}}
BP["v2"] = dict(BP["v1"], mu=-0.95, tp=-0.16)
BP["v3"] = dict(BP["v1"], mu=-0.7, tp=-0.1)
SP = {"v1": {"gamma_0": 10.0, "gamma_k": 20.0, "power": 4, "gamma_k_sin": 3.0, "power_sin": 2}}
SP["v2"] = dict(SP["v1"], gamma_0=25.0, gamma_k=5.5)
SP["v3"] = dict(SP["v1"], gamma_0=17.5, gamma_k=41.0)
RES = {"v1": [7, 7, 3], "v2": [9, 7, 3], "v3": [7, 9, 5]}
KMAX = {"v1": [PI, PI, 2 * PI], "v2": [PI, PI, PI], "v3": [PI, PI, 1.5 * PI]}
MODELS = {"v1": ["isotropic"], "v2": ["isotropic", "cos2phi"], "v3": ["sin2phi", "isotropic"]}
FREE = {"mu": (-1.2, -0.5), "tp": (-0.2, 0.0), "gamma_0": (1, 60), "gamma_k": (1, 60)}
BHI = {"v1": 60, "v2": 45, "v3": 80}
DHI = {"v1": 60, "v2": 40, "v3": 80}


def bounds_of(v):
    one = {k: list(x) for k, x in FREE.items()}
    one["gamma_0"][1] = BHI[v]
    return {"multi": {"all": {"band": copy.deepcopy(one)}, T1: {"band": {}}, T2: {"band": {}}}, "one": one,
            "per": {k: list(x) for k, x in one.items()}}


def data_of(v):
    return {"multi": {(T, 0): [FILES[T], 0, 1, 0, DHI[v], 20, 0, 1] for T in (T1, T2)},
            "one": {(T, 0): [FILES[T], 0, 1, DHI[v], 1e-5] for T in (T1, T2)}}


VALUE = {"bp": lambda v: copy.deepcopy(BP[v]), "sp": lambda v: copy.deepcopy(SP[v]), "res": lambda v: list(RES[v]),
         "kmax": lambda v: list(KMAX[v]), "models": lambda v: list(MODELS[v]), "bounds": bounds_of, "data": data_of}
KEYS = {"bp": "band_params", "sp": "scattering_params", "res": "resolution", "kmax": "k_max", "models": "scattering_models"}


def canon(field, x):
    if x is None:
        return "None"
    if field in ("bp", "sp"):
        return json.dumps({k: float(y) for k, y in sorted(x.items())})
    if field in ("res", "kmax"):
        return json.dumps([round(float(y), 12) for y in x])
    if field in ("models", "members"):
        return json.dumps(list(x))
    # bounds, data: what distinguishes the values
    if field == "bounds":
        return json.dumps([float(y) for y in x])
    if field == "data":
        return json.dumps([[str(k), [str(y) for y in v]] for k, v in sorted(x.items())])


def newdict(v="v1"):
    d = {"a": 3.75, "b": 3.75, "c": 13.2, "energy_scale": 160, "band_name": "band", "number_of_bz": 1, "Bamp": 20,
         "T": 0, "N_time": 20, "fixdoping": 2, "data_T": T1, "data_p": 0.2,
         "Btheta_min": 0, "Btheta_max": 60, "Btheta_step": 30, "Bphi_array": [0]}
    for f, k in KEYS.items():
        d[k] = VALUE[f](v)
    return d


def dummies():
    out = []
    for i in range(3):
        b = BandStructure(3.75, 3.75, 13.2, 160, band_params=BP["v1"], band_name="k%d" % i, resolution=[7, 7, 3], parallel=False)
        b.runBandStructure()
        out.append(Conductivity(b, 10 + i, N_time=10, scattering_models=["isotropic"], scattering_params={"gamma_0": 10. + i}))
    return out


PROTO = dummies()


class World:
    def __init__(self):
        self.o = {"U": newdict(), "A": newdict(), "L": [PROTO[0]]}
        for s in ("U", "A"):
            self.o[s] = {"p": self.o[s], "bounds": bounds_of("v1"), "data": data_of("v1")}
        self.K = PROTO
        self.kind = {}
        # which fit class and which form of the members the history uses
        self.P1 = r.choice(["parallel", "series", "multi"])
        self.phis, self.thetas = np.array([0., 15.]), np.array([0., 30.])
        if self.P1 == "multi":
            for s in ("U", "A"):
                self.o[s]["p"]["data_T"] = [T1, T2]
        self.v = {}            # slot -> field -> abstract value (for candidates of fits)

    # --- building -------------------------------------------------------------
    def build(self, s, src):
        U = self.o["U"]
        if s[0] == "B":
            self.o[s] = BandStructure(**U["p"], parallel=False)
        elif s[0] == "D":
            self.o[s] = BandStructure(3.75, 3.75, 13.2, 160, parallel=False)
        elif s[0] == "C":
            x = self.o[src["bp"]]
            self.o[s] = Conductivity(x.bandObject if isinstance(x, Conductivity) else x, **U["p"])
        elif s == "R":
            self.o[s] = ADMR(self.o["L"], Btheta_min=0, Btheta_max=40, Btheta_step=20, Bphi_array=self.phis, show_progress=False)
        elif s == "S":
            self.o[s] = SimADMR({"band": U["p"]}, self.phis, self.thetas)
        elif s == "F":
            self.o[s] = Fitness(U["data"]["multi"], {T1: {"band": U["p"]}, T2: {"band": copy.deepcopy(U["p"])}}, U["bounds"]["multi"])
        elif s == "P":
            if self.P1 == "parallel":
                self.o[s] = FittingADMRParallel(U["p"], U["bounds"]["one"], U["data"]["one"], folder=os.getcwd())
            else:
                cls = FittingADMR if self.P1 == "series" else FittingSeriesT
                f = cls(U["p"], U["bounds"]["one"], U["data"]["one"], folder=os.getcwd())
                f.load_and_interp_data()
                self.o[s] = f

    # --- reading --------------------------------------------------------------
    def band_set(self, b):
        return {"bp": canon("bp", b.band_params), "kmax": canon("kmax", b.k_max), "res": canon("res", b.resolution)}

    def cond_set(self, c):
        d = self.band_set(c.bandObject)
        d["sp"] = canon("sp", {k: getattr(c, k) for k in c.scattering_params})
        d["models"] = canon("models", c.scattering_models)
        return d

    def dict_set(self, p):
        return {f: canon(f, p[k]) for f, k in KEYS.items()}

    def settings(self, s):
        x = self.o[s]
        if s in ("U", "A"):
            d = self.dict_set(x["p"])
            d["bounds"] = canon("bounds", [y for k in sorted(x["bounds"]["one"]) for y in x["bounds"]["one"][k]])
            d["data"] = canon("data", x["data"]["one"])
            return d, json.dumps([{k: str(v) for k, v in x["p"].items() if k not in KEYS.values()},
                                  str(x["bounds"]), str(x["data"])])
        if s == "L":
            return {"members": canon("members", [c.bandObject.band_name for c in x])}, ""
        if s[0] in "BD":
            return self.band_set(x), json.dumps([x.a, x.b, x.c, x.energy_scale, x.band_name, x.number_of_bz, x.march_square, x.res_xy_rough])
        if s[0] == "C":
            return self.cond_set(x), json.dumps([x.Bamp, x.Bphi, x.Btheta, x.T, x.N_time, x.bandObject.energy_scale, x.bandObject.a,
                                                canon("sp", x.scattering_params)])
        if s == "R":
            return {"members": canon("members", [c.bandObject.band_name for c in x.condObject_list])}, \
                json.dumps([vec(x.Bphi_array), vec(x.Btheta_array), x.Btheta_norm])
        if s == "S":
            return self.cond_set(x.admrObject.condObject_list[0]), json.dumps([str(x.params_dict), vec(x.Bphi_array), vec(x.Btheta_array)])
        if s == "F":
            d = self.dict_set(x.params_dict[T2]["band"])
            d1 = self.dict_set(x.params_dict[T1]["band"])
            d["bounds"] = canon("bounds", [y for k in sorted(x.bounds_dict["all"]["band"]) for y in x.bounds_dict["all"]["band"][k]])
            d["data"] = canon("data", {k: [v[0], v[1], v[2], v[4], 1e-05] for k, v in x.data_dict.items()})
            return d, json.dumps([d1, str(x.bounds), str(x.bounds_dict), str(x.data_dict), str(x.T_list)])
        if s == "P":
            d = self.dict_set(self.member(x))
            bd = x.bounds_dict if self.P1 == "parallel" else x.ranges_dict
            d["bounds"] = canon("bounds", [y for k in sorted(bd) for y in bd[k]])
            d["data"] = canon("data", x.data_dict)
            return d, json.dumps([self.dict_set(x.init_member), str(getattr(x, "bounds", "")), str(bd)] +
                                 ([str(x.data_T_list), str([self.dict_set(x.member_dict[T]) for T in x.member_dict])] if self.P1 == "multi" else []))

    def member(self, x):
        return x.member_dict[x.data_T_list[0]] if self.P1 == "multi" else x.member

    def recomputed(self, s):
        if s in ("U", "A", "L"):
            return ""
        x = copy.deepcopy(self.o[s])
        if s[0] in "BD":
            return band_res(x)
        if s[0] == "C":
            x.bandObject.discretize_fermi_surface()
            x.runTransport()
            return vec(list(x.sigma.flatten()) + [x.gamma_tot_max, x.gamma_tot_min, np.sum(np.abs(x.kft))])
        if s == "R":
            x.runADMR()
            return vec(x.rhozz_array)
        if s == "S":
            x.compute_rhozz()
            return vec(x.rhozz_sim_matrix)
        if s == "F":
            return vec([x.compute_fitness()] + [y for T in x.T_list for y in x.rhozz_sim_dict[T].flatten()])
        if s == "P":
            if self.P1 == "parallel":
                x.generate_admr()
            else:
                x.produce_ADMR_object()
            if self.P1 == "multi":
                for T in x.data_T_list:
                    x.admrObject_dict[T].runADMR()
                return vec([y for T in x.data_T_list for y in x.admrObject_dict[T].rhozz_array.flatten()])
            x.admrObject.runADMR()
            return vec(x.admrObject.rhozz_array)

    def stored(self, s):
        x = self.o[s]
        if s[0] in "BD":
            return arrs(x.kf, x.vf, x.dkf, x.dos_k, x.n, x.p)
        if s[0] == "C":
            b = x.bandObject
            return arrs(b.kf, b.vf, b.dkf, b.dos_k, b.n, x.sigma if np.size(x.kft) > 1 else None, x.gamma_tot_max)
        if s == "R":
            return arrs(x.rhozz_array, x.rzz_array)
        if s == "S":
            return arrs(x.rhozz_sim_matrix, x.rzz_sim_matrix)
        if s == "F":
            return arrs(*[x.rzz_data_dict[T] for T in x.T_list], *[x.rhozz_sim_dict.get(T) for T in x.T_list])
        if s == "P":
            if self.P1 == "multi":
                return arrs(*[d[T] for T in x.data_T_list for d in (x.rzz_data_i_dict, x.rhozz_data_i_dict)])
            return arrs(x.rzz_data_matrix, x.rhozz_data_matrix)
        return ""

    # --- writing --------------------------------------------------------------
    def cand(self, s):
        bp, sp = BP[self.v[s]["bp"]], SP[self.v[s]["sp"]]
        return dict(mu=bp["mu"], tp=bp["tp"], gamma_0=sp["gamma_0"], gamma_k=sp["gamma_k"])

    def write(self, s, f, v):
        x, val = self.o[s], VALUE[f](v) if f != "members" else None
        if s in ("U", "A"):
            if f in KEYS:
                inplace(x["p"][KEYS[f]], val)
            else:
                inplace(x[f], val)
            if self.P1 == "multi":     # the caller's other lists and arrays change too
                x["p"]["data_T"][:] = r.choice([[T1], [T2], [T1, T2], [T2, T1]])
        elif f == "members":
            lst = x if s == "L" else x.condObject_list
            if s == "L":
                self.phis += 7
                self.thetas[1] += 5
            lst[:] = {"v1": [self.K[0]], "v2": [self.K[0], self.K[1]], "v3": [self.K[2]]}[v]
        elif s[0] in "BD":
            write_band(x, f, val)
        elif s[0] == "C":
            write_cond(x, f, val)
        elif s == "S":
            if f in ("bp", "sp"):
                if r.random() < .5:
                    inplace(x.params_dict["band"][KEYS[f]], val)
                    x.update_params()
                else:
                    new = copy.deepcopy(x.params_dict)
                    new["band"][KEYS[f]] = val
                    x.params_dict = new
            else:
                write_cond(x.admrObject.condObject_list[0], f, val)
        elif s == "F":
            self.v[s][f] = v
            c = self.cand(s)
            cand = [c[lab[2]] for lab in x.free_params_labels]
            if r.random() < .5:
                x.update_parameters(cand)
            else:
                x.compute_fitness(cand)
        elif s == "P":
            self.v[s][f] = v
            c = self.cand(s)
            if self.P1 == "parallel":
                x.compute_diff2([c[n] for n in x.free_pars_name])
            else:
                from lmfit import Parameters
                ps = Parameters()
                for n in x.ranges_dict:
                    ps.add(n, value=c[n])
                x.compute_diff(ps)

    def assign(self, s, src):
        x = self.o[s]
        d = self.o[list(src.values())[0]]["p"]
        if s[0] in "BD":
            x.band_params = d["band_params"]
        elif s[0] == "C":
            if "bp" in src:
                x.bandObject.band_params = d["band_params"]
            else:
                x.scattering_params = d["scattering_params"]
        elif s == "S":
            x.params_dict = {"band": d}


def inplace(obj, val):
    if isinstance(obj, list):
        if len(obj) == len(val) and r.random() < .5:
            for i, y in enumerate(val):
                obj[i] = y
        else:
            obj[:] = val
    elif all(isinstance(v, (dict, list)) for v in val.values()) and set(obj) == set(val):
        for k in val:
            inplace(obj[k], val[k])
    else:
        if r.random() < .3:
            obj.clear()
        obj.update(val)


def write_band(b, f, val):
    if f == "bp":
        if r.random() < .5:
            for k in val:
                b[k] = val[k]
        else:
            b.band_params = val
    elif f == "kmax":
        inplace(b.k_max, val)
    else:
        inplace(b.resolution, val)


def write_cond(c, f, val):
    if f in ("bp", "kmax", "res"):
        write_band(c.bandObject, f, val)
    elif f == "sp":
        if r.random() < .5:
            c.scattering_params = val
        else:
            for k in val:
                setattr(c, k, val[k])
    else:
        inplace(c.scattering_models, val)


def arrs(*xs):
    out = []
    for x in xs:
        if x is None or np.size(x) == 0:
            out += [0, 0, 0]
        else:
            x = np.asarray(x, float)
            out += [x.size, np.sum(np.abs(x)), np.sum(x**2)]
    return vec(out)


def band_res(b):
    b.discretize_fermi_surface()
    b.update_filling(9, 9, 3)
    w = b.dkf * b.dos_k
    return vec([b.kf.shape[1], np.sum(np.abs(b.kf)), np.sum(b.kf**2), np.sum(w), np.sum(w * b.vf[0]**2), b.n])


DEFAULTS = {"bp": canon("bp", {"t": 1, "tp": -0.136, "tpp": 0.068, "tz": 0.07, "mu": -0.83}),
            "res": canon("res", [21, 21, 3]), "kmax": canon("kmax", [PI, PI, 2 * PI])}
KIND = {"U": "dict", "A": "dict", "Z": "defaults", "L": "list", "R": "scan", "S": "sim", "F": "fit", "P": "fit1"}


def observe(w, live):
    obs = {}
    for s in live:
        if s == "Z":
            b = BandStructure(3.75, 3.75, 13.2, 160, parallel=False)
            obs[s] = dict(set=w.band_set(b), view="", res="", stored="")
            continue
        st, view = w.settings(s)
        obs[s] = dict(set=st, view=view, res=w.recomputed(s), stored=w.stored(s))
    return obs


def run(h):
    w = World()
    live = ["U", "A", "Z", "L"]
    w.v = {"U": {}, "A": {}}
    for s in ("U", "A"):
        w.v[s] = {f: "v1" for f in list(KEYS) + ["bounds", "data"]}
    if tr.call("Init", lambda: dict(obs=observe(w, live)), defaults=DEFAULTS) is None:
        return
    for st in h["hist"]:
        ev, s = st["ev"], st["slot"]
        f = dict(slot=s, kind=KIND.get(s) or {"B": "band", "D": "band", "C": "cond"}[s[0]])
        if ev == "Build":
            f["from"] = st["from"]
            w.v[s] = {k: w.v.get(d, {}).get(k, "v1") for k, d in st["from"].items()}

            def act():
                w.build(s, st["from"])
                # some objects compute their results at once, others later
                if r.random() < .5:
                    if s[0] in "BD":
                        w.o[s].discretize_fermi_surface()
                    elif s[0] == "C":
                        w.o[s].bandObject.discretize_fermi_surface()
                        w.o[s].runTransport()
                    elif s == "S":
                        w.o[s].compute_rhozz()
                live.append(s)
                return dict(obs=observe(w, live))
        elif ev == "Write":
            v = st["val"]
            f["field"] = st["field"]
            if st["field"] == "members":
                f["val"] = canon("members", {"v1": ["k0"], "v2": ["k0", "k1"], "v3": ["k2"]}[v])
            elif st["field"] == "bounds":
                b = bounds_of(v)["one"]
                f["val"] = canon("bounds", [y for k in sorted(b) for y in b[k]])
            elif st["field"] == "data":
                f["val"] = canon("data", data_of(v)["one"])
            else:
                f["val"] = canon(st["field"], VALUE[st["field"]](v))
            w.v.setdefault(s, {})[st["field"]] = v

            def act():
                w.write(s, st["field"], v)
                return dict(obs=observe(w, live))
        else:
            f["from"] = st["from"]
            for k, d in st["from"].items():
                w.v.setdefault(s, {})[k] = w.v[d][k]

            def act():
                w.assign(s, st["from"])
                return dict(obs=observe(w, live))
        if tr.call(ev, act, **f) is None:
            break
    tr.stats["histories"] += 1


for i, h in enumerate(histories("c06")):
    if i % parts == part:
        run(h)
tr.close()
