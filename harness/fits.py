"""Multi-temperature fits shared by the drivers of C15, C16 and C18: declarations, data files and
reference simulations (new objects built from the driver's own copy of the parameters)."""
import copy, os
import numpy as np
from common import flt
from trans import shallow
import surfaces
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity
from cuprates_transport.admr import ADMR
from cuprates_transport.fitting_admr_parallel_multiT import Fitness

BANDS = [b for b in surfaces.BANDS if b[0] not in ("sphere", "ellipsoid", "shifted", "poles", "wide_zone")]
GENERAL = ("a", "b", "c", "energy_scale", "Bamp", "T", "N_time", "N_epsilon", "number_of_bz")
ZERO = ("Bamp", "T", "gamma_k")


class Skip(BaseException):
    """The candidate has no meaningful simulation (no surface, singular tensor)."""


def material(r, kind, c):
    name, model, params, kmax, _ = kind
    return dict(band_name=r.choice(["LargePocket", "hPocket", "b"]), a=c["a"], b=c["b"], c=c["c"], energy_scale=c["scale"],
                band_params=dict(params), band_model=model, k_max=list(kmax), resolution=[r.choice([7, 9]), r.choice([7, 9]), 5], number_of_bz=1,
                Bamp=c["B"], T=0, N_time=r.randint(10, 16), N_epsilon=2, dfdE_cut_percent=.3,
                scattering_models=["isotropic", "cos2phi"],
                scattering_params=dict(gamma_0=round(r.uniform(6, 20), 1), gamma_k=round(r.uniform(5, 40), 1), power=r.choice([2, 12])))


def sections(m):
    return dict(g={k: float(m[k]) for k in GENERAL}, b={k: float(v) for k, v in m["band_params"].items()},
                s={k: float(v) for k, v in m["scattering_params"].items()})


def table(params, temps):
    return {str(T): {b: {k: flt_(v) for k, v in sections(m).items()} for b, m in params[T].items()} for T in temps}


def flt_(d):
    return {k: float(v) for k, v in d.items()}


def healthy(m):
    """Does the band keep a surface on every coarse mesh?"""
    try:
        return shallow(m["band_model"], m["band_params"], m["a"], m["b"], m["c"], m["k_max"]) > .02
    except Exception:
        return False


def reference(bands, phis, thetas):
    """rho_zz table of new objects with these parameters."""
    conds = []
    try:
        for m in bands.values():
            m = copy.deepcopy(m)
            bd = BandStructure(**m, parallel=False)
            bd.march_square = True
            bd.runBandStructure()
            conds.append(Conductivity(bd, **m))
        a = ADMR(conds, show_progress=False)
        a.Bphi_array, a.Btheta_array = np.array(phis), np.array(thetas)
        a.runADMR()
    except Exception:
        raise Skip()
    if not np.all(np.isfinite(a.rhozz_array)) or np.max(np.abs(a.rhozz_array)) > 1e3:
        raise Skip()
    return a.rhozz_array


class Curve:
    """A measured curve and the file holding it."""

    def __init__(self, r, path, lo, hi, scale=1.0):
        n = r.randint(4, 11)
        th = sorted({round(lo - r.uniform(0, 3), 3), round(hi + r.uniform(0, 3), 3)} | {round(r.uniform(lo, hi), 3) for _ in range(n)})
        if r.random() < .3:     # the data stop short of the limits
            th = th[1:-1]
        f, ph = r.uniform(.02, .09), r.uniform(0, 6)
        rho = [scale * (1 + .3 * np.sin(f * t + ph) + .05 * r.random()) for t in th]
        self.theta, self.rho = th, [float("%.8e" % x) for x in rho]
        cols = r.randint(2, 5)
        self.ct, self.cr = r.sample(range(cols), 2)
        rows = list(zip(self.theta, self.rho))
        order = r.choice(["up", "down", "shuffled"])
        if order == "down":
            rows.reverse()
        elif order == "shuffled":
            r.shuffle(rows)
        with open(path, "w") as f:
            if r.random() < .7:
                f.write("# theta rho\n")
            for t, v in rows:
                line = ["%.5e" % r.uniform(-9, 9) for _ in range(cols)]
                line[self.ct], line[self.cr] = repr(t), "%.8e" % v
                f.write(r.choice(["\t", "  "]).join(line) + "\n")
        self.path = path
        if order != "up":
            q = list(range(len(rows)))
            self.theta, self.rho = [rows[i][0] for i in q], [rows[i][1] for i in q]

    def fields(self):
        return dict(theta=flt(self.theta), rho=flt(self.rho))


def around(r, n, v):
    """Limits of a search that keeps a surface."""
    if n == "Bamp":
        return 3.0, round(r.uniform(20, 60), 1)
    if n == "T":
        return 0.0, round(r.uniform(.2, .6), 2)
    if n == "gamma_k":
        return 0.0, v * 1.5
    return tuple(sorted((v * (.93 if n == "mu" else .9), v * (1.0 if n == "mu" else 1.1))))


class MultiT:
    def __init__(self, r, h, folder, tight=False):
        self.r = r
        temps = r.sample([25, 20, 12, 6, 4.5, 100, .35, 1.6], r.choice([1, 2, 2, 3]))
        first = r.choice(BANDS)
        kinds = {"b%d" % (i + 1): first if i and r.random() < .5 else r.choice(BANDS) for i in range(r.choice([1, 1, 2]))}
        self.temps, bands = temps, list(kinds)
        a = round(r.uniform(3, 5), 2)
        c = dict(a=a, b=a, c=round(r.uniform(6, 13), 2), scale=round(r.uniform(60, 200), 1), B=r.choice([0, 45, round(r.uniform(5, 60), 1)]))
        if any(not k[4] for k in kinds.values()):
            c["b"] = round(a * 1.1, 3)
        self.params, shared = {}, None
        alias = r.random() < .35
        for T in temps:
            if shared is None or not alias:
                shared = {b: material(r, k, c) for b, k in kinds.items()}
            self.params[T] = shared if not alias or r.random() < .5 else dict(shared)
        # declarations
        want = []
        for t, b, n in h["labels"]:
            T = "all" if t == "all" else temps[int(t[1:]) % len(temps)]
            b = bands[int(b[1:]) % len(bands)]
            ps = sorted(kinds[b][2])
            n = {"tz": ps[0], "mu": ps[len(ps) // 2], "tp": ps[-1]}.get(n, n)
            if n == "T" and r.random() < .6:
                n = "Bamp"
            if n == "a" and kinds[b][4]:
                n = "energy_scale"
            if not any(w[1] == b and w[2] == n and (w[0] == T or "all" in (w[0], T)) for w in want):
                want.append((T, b, n))
        self.bounds = {}
        keys = [w[0] for w in want] + (list(temps) if r.random() < .6 else r.sample(temps, 1))    # some are not fitted
        if r.random() < .3:
            r.shuffle(keys)
        for T in keys:
            self.bounds.setdefault(T, {})
        for i, (T, b, n) in enumerate(want):
            lo = float(i + 1) + .25
            limits = (-lo, round(r.uniform(lo, 99), 2))
            if tight:
                m = self.params[temps[0] if T == "all" else T][b]
                limits = around(r, n, m[n] if n in m else m["band_params"].get(n, m["scattering_params"].get(n)))
            self.bounds[T].setdefault(b, {})[n] = r.choice([list, tuple])(limits)
        self.labels = [(T, b, n) for T in self.bounds for b in self.bounds[T] for n in self.bounds[T][b]]
        self.fitted = [T for T in self.bounds if T != "all"]
        # data
        self.data, self.curves = {}, {}
        order = list(temps) + r.sample([33, 50], r.randint(0, 1))
        pairs = [(T, p) for T in order for p in r.sample([0, 15, 30, 45, 22.5], r.choice([1, 2, 2, 3]))]
        if r.random() < .4:
            r.shuffle(pairs)
        norm = {}
        for i, (T, phi) in enumerate(pairs):
            lo = r.choice([0, 0, -10, 20])
            hi = lo + r.choice([20, 40, 60])
            step = r.choice([10, 15, 20, 25])
            norm.setdefault(T, r.choice([0, 0, lo, 30, round(r.uniform(lo, hi), 2)]))
            self.curves[T, phi] = Curve(r, os.path.join(folder, "d%d.dat" % i), lo, hi, r.choice([1, 1e-5, 6.7]))
            cv = self.curves[T, phi]
            self.data[T, phi] = [cv.path, cv.ct, cv.cr, lo, hi, step, norm[T], r.choice([1, 1e-5, 6.71e-5])]
        self.norm = norm
        self.normalized = r.random() < .65
        self.now = {T: copy.deepcopy(self.params[T]) for T in temps}
        for T in temps:          # the driver's copies share nothing
            self.now[T] = {b: copy.deepcopy(m) for b, m in self.params[T].items()}
        self.base = copy.deepcopy(self.now)
        self.cache = {}

    def build(self):
        return Fitness(self.data, self.params, self.bounds, normalized_data=self.normalized) if not self.normalized or self.r.random() < .5 \
            else Fitness(self.data, self.params, self.bounds)

    def put(self, now, label, v):
        T, b, n = label
        for T in (self.fitted if T == "all" else [T]):
            m = now[T][b]
            d = m if n in m else m["band_params"] if n in m["band_params"] else m["scattering_params"]
            d[n] = v

    def candidate(self, ks):
        """Concrete values for abstract ones (0: zero where it makes sense), keeping surfaces."""
        r, x = self.r, []
        trial = copy.deepcopy(self.now)
        for i, label in enumerate(self.labels):
            T, b, n = label
            k = ks[i % len(ks)] if ks else 1
            m = self.base[self.fitted[0] if T == "all" else T][b]
            v0 = m[n] if n in m else m["band_params"].get(n, m["scattering_params"].get(n))
            for attempt in range(12):
                if n == "Bamp":
                    v = [0, round(r.uniform(5, 60), 1), r.randint(5, 60)][k]
                elif n == "T":
                    v = [0, 0, round(r.uniform(.3, 1.5), 2)][k]
                elif k == 0 and (n == "gamma_k" or n in m["band_params"]) and attempt < 3:
                    v = 0
                elif k == 0:
                    v = v0
                elif n in m["band_params"]:
                    v = v0 * r.uniform(.9, .98) if n == "mu" else v0 * r.uniform(.8, 1.1)
                else:
                    v = v0 * r.uniform(.85, 1.15)
                v = r.choice([v, float(v), np.float64(v)])
                u = copy.deepcopy(trial)
                self.put(u, label, v)
                if all(healthy(mm[b]) for mm in u.values()):
                    break
            else:
                v = v0
            self.put(trial, label, v)
            x.append(v)
        self.now = trial
        return r.choice([list, tuple, np.array])(x)

    def near(self, cand):
        """A candidate close to cand (None where a surface is lost)."""
        trial = copy.deepcopy(self.now)
        x = [v * (1 + self.r.choice([1e-2, 1e-3, 1e-4]) * self.r.choice([-1, 1])) for v in cand]
        for label, v in zip(self.labels, x):
            self.put(trial, label, v)
        if all(healthy(m) for q in trial.values() for m in q.values()):
            self.now = trial
            return x

    def refs(self, phis, thetas):
        out = {}
        for T in self.fitted:
            k = repr((self.now[T], list(phis[T]), list(thetas[T])))
            if k not in self.cache:
                self.cache[k] = reference(self.now[T], phis[T], thetas[T])
            out[str(T)] = flt(self.cache[k])
        return out

    def declared(self):
        return dict(labels=[[str(T), b, n] for T, b, n in self.labels], temps=[str(T) for T in self.fitted],
                    declared=[[float(x) for x in self.bounds[T][b][n]] for T, b, n in self.labels],
                    table=table(self.now, self.temps), normalized=self.normalized,
                    norm={str(T): float(self.norm[T]) for T in self.fitted})

    def aligned(self, fit):
        """What the data were aligned to, and the curves themselves in the order of the fit's azimuths."""
        phis = {T: list(fit.phis_dict[T]) for T in self.fitted}
        return dict(phis={str(T): flt(phis[T]) for T in self.fitted}, thetas={str(T): flt(fit.thetas_dict[T]) for T in self.fitted},
                    curves={str(T): [self.curves[T, p].fields() for p in phis[T]] for T in self.fitted},
                    scale={str(T): [float(self.data[T, p][7]) for p in phis[T]] for T in self.fitted})

    def sims(self, fit):
        return dict(rzz={str(T): flt(fit.rzz_sim_dict[T]) for T in self.fitted}, rhozz={str(T): flt(fit.rhozz_sim_dict[T]) for T in self.fitted},
                    params=table(fit.params_dict, self.temps))


class Single:
    """Declarations and data of a single-temperature or series fit (kind: Parallel, Series, SeriesMulti)."""

    def __init__(self, r, h, folder, kind):
        self.r, self.kind, self.folder = r, kind, folder
        self.temps = r.sample([25, 20, 12, 6, 4.5, .35, 1.6], r.choice([1, 2, 2, 3]) if kind == "SeriesMulti" else 1)
        self.imposed = h["imposed"]
        self.band = r.choice([b for b in BANDS if "mu" in b[2] or not self.imposed])
        a = round(r.uniform(3, 5), 2)
        self.c = dict(a=a, b=a, c=round(r.uniform(6, 13), 2), scale=round(r.uniform(60, 200), 1), B=r.choice([0, 45, round(r.uniform(5, 60), 1)]))
        if not self.band[4]:
            self.c["b"] = round(a * 1.1, 3)
        n = r.randint(2, 6)
        self.lo, self.step = r.choice([0, 0, 5, -10, 20, 10.2]), r.choice([5, 10, 2.5, .7, 15, .1, .3, 1.1])
        self.hi = round(self.lo + self.step * n + r.choice([0, 0, .4 * self.step]), 6)
        base = material(r, self.band, self.c)
        self.p = self.doping(base) if self.imposed else None
        # free parameters
        ps = sorted(self.band[2])
        want = []
        for n in h["labels"]:
            n = {"tz": ps[0], "mu": ps[len(ps) // 2], "tp": ps[-1]}.get(n, n)
            if n == "T" and r.random() < .6:
                n = "Bamp"
            if n == "a" and self.band[4]:
                n = "energy_scale"
            if kind == "SeriesMulti" and len(self.temps) > 1 and "Bamp" not in want and r.random() < .3:
                n = "Bamp"
            if n not in want and not (n == "mu" and self.imposed):
                want.append(n)
        want = want or ["gamma_0"]
        # general settings given temperature by temperature (not those of the shared band)
        self.per_T = [n for n in ("Bamp", "T") if kind == "SeriesMulti" and r.random() < .6]
        self.want = want
        if kind == "Parallel":
            self.labels = [("all", "b", n) for n in sorted(want)]
        else:
            self.labels = [l for n in want for l in ([(T, "b", n) for T in self.temps] if n in self.per_T else [("all", "b", n)])]
        # data
        have = {T: r.sample([0, 15, 30, 45, 22.5], r.choice([1, 2, 2, 3])) for T in self.temps}
        self.asked = sorted({p for v in have.values() for p in v})
        self.phis = {T: sorted(have[T]) for T in self.temps}
        self.data, self.curves = {}, {}
        for T in list(self.temps) + [33]:
            for phi in have.get(T, [0]):
                cut = r.choice([90, self.hi, round(self.lo + self.step * r.randint(1, n_(self.lo, self.hi, self.step)), 6)])
                cv = Curve(r, os.path.join(folder, "d%s_%s.dat" % (T, phi)), min(self.lo, 0), self.hi, r.choice([1, 1e-5, 6.7]))
                self.curves[T, phi] = cv
                self.data[T, phi] = [cv.path, cv.ct, cv.cr, cut, r.choice([1, 1e-5, 6.71e-5])]
        self.normalized = r.random() < .6
        self.limits = {}
        self.weight = r.choice([0, 0, 1, .3]) if kind == "SeriesMulti" else 0
        self.now = {T: {"b": copy.deepcopy(base)} for T in self.temps}
        for n in self.per_T:
            for T in self.temps:
                self.now[T]["b"][n] = round(r.uniform(5, 60), 1) if n == "Bamp" else r.choice([0, 0, 1.2])
        self.base = copy.deepcopy(self.now)
        self.cache = {}

    # --- what the fit is given ---
    def member(self, now, p):
        m = copy.deepcopy(now[self.temps[0]]["b"])
        for n in self.per_T:
            m[n] = {T: now[T]["b"][n] for T in self.temps}
        m.update(fixdoping=2 if p is None else p, data_p=.24, data_T=list(self.temps) if self.kind == "SeriesMulti" else self.temps[0],
                 Btheta_min=self.lo, Btheta_max=self.hi, Btheta_step=self.step, Bphi_array=list(self.asked))
        return m

    def ranges(self, tight=False):
        out = {}
        for n in self.want:
            m = self.base[self.temps[0]]["b"]
            one = lambda v: list(tight and self.limits.setdefault(n, around(self.r, n, v)) or (-1e4, 1e4))
            if n in self.per_T:
                out[n] = {T: sorted(one(self.base[T]["b"][n])) for T in self.temps}
            else:
                out[n] = sorted(one(m[n] if n in m else m["band_params"].get(n, m["scattering_params"].get(n))))
        return out

    def build(self, now=None, p=None, tight=False, **kw):
        from cuprates_transport.fitting_admr_parallel_oneT import FittingADMRParallel
        from cuprates_transport.fitting_admr_series_oneT import FittingADMR as Series
        from cuprates_transport.fitting_admr_series_multi_T import FittingADMR as SeriesMulti
        cls = {"Parallel": FittingADMRParallel, "Series": Series, "SeriesMulti": SeriesMulti}[self.kind]
        m = self.member(now or self.now, p if now else self.p)
        if self.r.random() < .6:
            kw["folder"] = self.folder
        else:                       # the working directory by default
            os.chdir(self.folder)
        f = cls(m, self.ranges(tight), self.data, normalized_data=self.normalized, **kw)
        if self.kind == "SeriesMulti":
            f.weight_rhozz = self.weight
        if self.kind != "Parallel":
            f.load_and_interp_data()
        return f

    def other(self):
        """Other settings of the same kind of material."""
        now = {T: {"b": copy.deepcopy(m["b"])} for T, m in self.base.items()}
        r = self.r
        f = {k: r.uniform(.8, 1.1) for k in ("band", "gamma", "scale", "c")}
        for m in now.values():
            m = m["b"]
            for k in m["band_params"]:
                m["band_params"][k] *= f["band"]
            for k in ("gamma_0", "gamma_k"):
                m["scattering_params"][k] *= f["gamma"]
            m["energy_scale"] = round(m["energy_scale"] * f["scale"], 1)
            m["c"] = round(m["c"] * f["c"], 2)
        return now

    # --- the driver's own copy ---
    def doping(self, m):
        bd = BandStructure(**copy.deepcopy(m), parallel=False)
        return float(bd.doping())

    def mu(self, m):
        bd = BandStructure(**copy.deepcopy(m), parallel=False)
        bd.set_mu_to_doping(self.p)
        return float(bd["mu"])

    def put(self, now, label, v):
        T, b, n = label
        for T in (self.temps if T == "all" else [T]):
            m = now[T][b]
            d = m if n in m else m["band_params"] if n in m["band_params"] else m["scattering_params"]
            d[n] = v

    def candidate(self, ks):
        r, trial = self.r, copy.deepcopy(self.now)
        x = []
        for i, label in enumerate(self.labels):
            T, b, n = label
            k = ks[i % len(ks)]
            m = self.base[self.temps[0] if T == "all" else T][b]
            v0 = m[n] if n in m else m["band_params"].get(n, m["scattering_params"].get(n))
            for attempt in range(12):
                if n == "Bamp":
                    v = [0, round(r.uniform(5, 60), 1), r.randint(5, 60)][k]
                elif n == "T":
                    v = [0, 0, round(r.uniform(.3, 1.5), 2)][k]
                elif k == 0 and (n == "gamma_k" or n in m["band_params"]) and attempt < 3:
                    v = 0
                elif k == 0:
                    v = v0
                elif n in m["band_params"]:
                    v = v0 * r.uniform(.9, .98) if n == "mu" else v0 * r.uniform(.8, 1.1)
                else:
                    v = v0 * r.uniform(.85, 1.15)
                u = copy.deepcopy(trial)
                self.put(u, label, v)
                if self.sound(u):
                    break
            else:
                v = v0
            self.put(trial, label, v)
            x.append(v)
        if getattr(self, "last", None) and r.random() < .2:       # a close neighbour of the previous one
            x = [v * (1 + r.choice([1e-2, 1e-3, 1e-4]) * r.choice([-1, 1])) for v in self.last]
            for label, v in zip(self.labels, x):
                self.put(trial, label, v)
        if not self.sound(trial):
            raise Skip()
        self.now, self.last = trial, x
        self.expect()
        return [float(v) for v in x] if r.random() < .7 else x

    def sound(self, now):
        m = copy.deepcopy(now[self.temps[0]]["b"])
        try:
            if self.imposed:
                m["band_params"]["mu"] = self.mu(m)
            return healthy(m)
        except Exception:
            return False

    def expect(self):
        """The imposed doping moves mu."""
        self.fresh_mu = self.mu(self.now[self.temps[0]]["b"]) if self.imposed else None

    def predict(self):
        """(skips candidates without a meaningful simulation)"""
        kept = copy.deepcopy(self.now)
        if self.imposed:
            for T in self.temps:
                self.now[T]["b"]["band_params"]["mu"] = self.fresh_mu
        self.refs()
        self.now = kept

    def adopt(self, params):
        """Take over the recorded chemical potential (checked against fresh_mu by the specification)."""
        if self.imposed:
            for T in self.temps:
                self.now[T]["b"]["band_params"]["mu"] = params[str(T)]["b"]["b"]["mu"]

    def recorded(self, f):
        ms = f.member_dict if self.kind == "SeriesMulti" else {self.temps[0]: f.member}
        return table({T: {"b": ms[T]} for T in self.temps}, self.temps)

    def aligned(self, f):
        th = {T: f.Btheta_dict[T] if self.kind == "SeriesMulti" else f.Btheta_array for T in self.temps}
        self.thetas = {T: [float(x) for x in th[T]] for T in self.temps}
        return dict(thetas={str(T): flt(self.thetas[T]) for T in self.temps},
                    curves={str(T): [self.curves[T, p].fields() for p in self.phis[T]] for T in self.temps},
                    scale={str(T): [float(self.data[T, p][4]) for p in self.phis[T]] for T in self.temps})

    def refs(self):
        out = {}
        for T in self.temps:
            k = repr((self.now[T], self.phis[T], self.thetas[T]))
            if k not in self.cache:
                self.cache[k] = reference(self.now[T], self.phis[T], self.thetas[T])
            out[str(T)] = flt(self.cache[k])
        return out

    def evaluate(self, f, x):
        if self.kind == "Parallel":
            return [float(f.compute_diff2(x))]
        pars = copy.deepcopy(f.pars)
        for name, v in zip(list(pars), x):      # (declared in the order of the labels)
            pars[name].value = v
        return [float(v) for v in f.compute_diff(pars)]

    def simulate(self, f):
        """The curves of the recorded material, without a candidate."""
        if self.kind == "Parallel":
            f.generate_admr()
        else:
            f.produce_ADMR_object()
        out = {}
        for T in self.temps:
            a = f.admrObject_dict[T] if self.kind == "SeriesMulti" else f.admrObject
            a.runADMR()
            out[str(T)] = flt(a.rhozz_array)
        return out


def n_(lo, hi, step):
    return max(1, int(np.floor(round((hi - lo) / step, 6))))
