"""C18: worker copies, pools of processes and completed parallel fits."""
import copy, json, multiprocessing, os, pickle, sys
import types
from multiprocessing.reduction import ForkingPickler
import numba.cloudpickle
import numpy as np
import scipy.optimize
from common import Trace, rng, histories, flt, contain, THOROUGH
import meshes
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from fits import MultiT, Single, Skip, table, healthy
from cuprates_transport.conductivity import Conductivity
import cuprates_transport.fitting_admr_parallel_multiT as multi
import cuprates_transport.fitting_admr_parallel_oneT as single

JIT = sys.argv[1] == "jit"           # (compiled functions travel to the workers in their own way)
part, parts = (99, 1) if JIT else (int(sys.argv[1]), int(sys.argv[2]))
meshes.shrink([11, 11, 3])
meshes.rough(41)
contain()
r = rng("c18/%d" % part)
tr = Trace("Trace_C18", "p%s" % part)
Conductivity.figParameters = lambda self, fig_show=True: plt.figure()


# Without numba's compiler the generated functions are plain ones, which pickle refuses; with it they travel as
# their code.  Here they do so as well.
def plain_functions(self, obj):
    if isinstance(obj, types.FunctionType) and getattr(sys.modules.get(obj.__module__), obj.__qualname__, None) is not obj \
            and "." not in obj.__qualname__:
        return numba.cloudpickle.loads, (numba.cloudpickle.dumps(obj),)
    return NotImplemented


ForkingPickler.reducer_override = plain_functions


def dumps(x):
    return bytes(ForkingPickler.dumps(x))


def hush(fn, *a, **kw):
    """(child processes print too)"""
    sys.stdout.flush()
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        return fn(*a, **kw)
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


class Multi(MultiT):
    kind, imposed = "Multi", False

    def __init__(self, r, h, folder, tight=False):
        super().__init__(r, h, folder, tight)
        self.temps_used = self.fitted

    def objective(self, f):
        return f.compute_fitness

    def new(self, f):
        self.ph = {T: list(f.phis_dict[T]) for T in self.fitted}
        self.th = {T: list(f.thetas_dict[T]) for T in self.fitted}
        return dict(self.declared(), **self.aligned(f))

    def references(self):
        return self.refs(self.ph, self.th)

    def recorded(self, f):
        return table(f.params_dict, self.temps)

    def used(self):
        return table(self.now, self.temps)

    def limits_(self):
        return [self.bounds[T][b][n] for T, b, n in self.labels]


class One(Single):
    def __init__(self, r, h, folder, tight=False):
        super().__init__(r, h, folder, "Parallel")
        self.tight = tight
        self.base_ = copy.deepcopy(self.now)

    def build(self):
        return super().build(now=self.base_, p=self.p, tight=self.tight)

    def objective(self, f):
        return f.compute_diff2

    def new(self, f):
        return dict(self.aligned(f), table=table(self.now, self.temps), temps=[str(T) for T in self.temps], imposed=self.imposed,
                    labels=[[str(T), b, n] for T, b, n in self.labels], normalized=self.normalized)

    def references(self):
        if self.imposed:
            self.now[self.temps[0]]["b"]["band_params"]["mu"] = self.fresh_mu
        return self.refs()

    def used(self):
        return table(self.now, self.temps)

    def limits_(self):
        g = self.ranges(True)
        return [g[n] for _, _, n in self.labels]


def take(x, cand):
    """The driver's own table becomes that of the candidate."""
    for label, v in zip(x.labels, cand):
        x.put(x.now, label, float(v))
    if x.imposed:
        x.expect()


def observe(fx, **kw):
    refs = fx.references()
    d = dict(refs=refs, used=fx.used(), **kw)
    if fx.imposed:
        d["mu"] = float(fx.fresh_mu)
    return d


def cheap(cand):
    return [float(v) for v in cand]


def run(h, idx, cls):
    folder = os.path.abspath("data_%d_%d" % (part, idx))
    os.mkdir(folder)
    os.chdir(folder)
    h = dict(h, imposed=r.random() < .25, labels=h["labels"] if cls is Multi else [n for _, _, n in h["labels"]])
    try:
        x = cls(r, h, folder)
        if cls is One and not x.sound(x.now):
            return
    except Skip:
        return
    box = {}

    def new():
        box["fit"] = x.build()
        return x.new(box["fit"])
    tag = "%s %d free" % (x.kind, len(x.labels))
    tr.stats["cases"] += 1
    if tr.call("New", new, tag=tag, kind=x.kind) is None:
        return
    master = box["fit"]
    seed = dumps(master)
    workers, done = {}, []

    def value(w, cand):
        if w not in workers:
            workers[w] = pickle.loads(seed)
        v = float(x.objective(workers[w])(cand))
        return observe(x, value=v, x=cheap(cand))
    for st in h["hist"]:
        tr.stats["cases"] += 1
        try:
            if st["ev"] == "Eval":
                cand = x.candidate(st["x"])
                x.references()
            elif done:                       # an earlier candidate once more
                cand = r.choice(done)
                if r.random() < .6:          # or its close neighbour
                    cand = [v * (1 + r.choice([1e-2, 1e-3, 1e-4]) * r.choice([-1, 1])) for v in cand]
                take(x, cand)
                if not all(x.sound(x.now) if cls is One else healthy(m) for q in x.now.values() for m in q.values()):
                    raise Skip()
                x.references()
            else:
                continue
        except Skip:
            tr.stats["skipped"] = tr.stats.get("skipped", 0) + 1
            break
        done.append(cand)
        if tr.call("Value", lambda: value(st["worker"], cand), tag=tag) is None:
            break
    # the same candidates spread over real processes
    if done and r.random() < .5:
        tr.stats["cases"] += 1
        xs = [r.choice(done) for _ in range(r.randint(2, 6))] if r.random() < .5 else r.sample(done, len(done))
        n, chunk = r.randint(1, 3), r.choice([None, 1, 2, 3])

        def pooled():
            alone = []
            for c in xs:
                alone.append(float(x.objective(pickle.loads(seed))(c)))
            counter = multiprocessing.Value("i", 0)
            m = multi if x.kind == "Multi" else single
            f = x.objective(master) if x.kind == "Multi" or r.random() < .5 else master.compute_diff

            def go():
                with multiprocessing.Pool(n, initializer=m.init, initargs=(counter,)) as pool:
                    return pool.map(f, xs, chunk)
            values = hush(go)
            params = x.recorded(master)
            return dict(values=flt(values), alone=flt(alone), params=params)
        tr.call("Pool", pooled, tag="%s, %d processes" % (tag, n))
    tr.stats["histories"] += 1


evolve = scipy.optimize.differential_evolution


def climb(func, bounds, maxiter, seed, workers=1, callback=None, args=(), popsize=2, **ignored):
    """Another search with the same interface: it improves on the best so far one coordinate at a time."""
    rs = np.random.RandomState(seed)
    spread = workers if callable(workers) else map
    lim = np.array([[float(v) for v in b] for b in bounds])
    best, low, n = None, np.inf, 0
    for g in range(maxiter + 1):
        xs = lim[:, 0] + rs.rand(max(popsize * len(lim), 5), len(lim)) * (lim[:, 1] - lim[:, 0])
        if best is not None:
            for x in xs:
                i = rs.randint(len(lim))
                keep, x[i] = x[i], best[i]
                if len(lim) > 1:
                    x[:] = best
                    x[i] = keep
        energies = list(spread(func, xs))
        n += len(xs)
        if min(energies) < low:
            low = min(energies)
            best = np.array(xs[int(np.argmin(energies))])
        if callback is not None and g and callback(best.copy(), convergence=1 / (g + 1)):
            break
    return scipy.optimize.OptimizeResult(x=best, fun=low, nfev=n, nit=g, success=False, message="Maximum number of iterations reached",
                                         population=xs, population_energies=np.array(energies))


def fit(idx, cls):
    """A completed parallel fit and its serial twin."""
    folder = os.path.abspath("fit_%d_%d" % (part, idx))
    os.mkdir(folder)
    os.chdir(folder)
    long = not JIT and r.random() < .5       # several generations, whose best candidates share parameters
    names = r.choice([["gamma_0", "tz"], ["tz", "energy_scale"], ["gamma_0", "Bamp"], ["c", "gamma_k"], ["gamma_0", "gamma_k", "tz"]] if long else
                     [["gamma_0"], ["gamma_0", "tz"], ["gamma_k"], ["tz", "energy_scale"], ["gamma_0", "Bamp"], ["c", "gamma_k"]])
    generations = r.choice([3, 5]) if long else 1
    labels = names if cls is One else [(r.choice(["all", "all", "t1"]), r.choice(["b1", "b1", "b2"]), n) for n in names]
    try:
        x = cls(r, dict(labels=labels, imposed=r.random() < .3), folder, tight=True)
        if cls is One and not x.sound(x.now):
            return
    except Skip:
        return
    if len(x.labels) > 3:
        return
    box = {}

    def new():
        box["fit"] = x.build()
        return x.new(box["fit"])
    cpus = r.randint(1, 3)
    percent = r.choice([100, 100, 200 if cpus < 2 else 67])
    tag = "%s %d cpus %d%% %s" % (x.kind, cpus, percent, [n for _, _, n in x.labels])
    tr.stats["cases"] += 1
    if tr.call("New", new, tag=tag, kind=x.kind) is None:
        return
    pristine = dumps(box["fit"])
    evals, seen = [], {}
    sd = r.randint(1, 10**6)

    def small(func, bounds, *a, **kw):
        seen.update(kw)
        seen["bounds"] = bounds
        kw.update(maxiter=generations, seed=sd)
        w = kw.get("workers", 1)
        if callable(w):
            def spread(f, it):
                it = list(it)
                out = list(w(f, it))
                evals.extend(float(v) for v in out)
                return out
            kw["workers"] = spread
        else:
            inner = func

            def func(z):
                evals.append(float(inner(z)))
                return evals[-1]
        return search(func, bounds, *a, **kw)
    search = climb if long and r.random() < .5 else evolve
    popsize = r.choice([2, 3, 4] if not long else [2, 3])

    def serial(how):
        """The serial twin: a fresh object for every candidate."""
        alone = []

        def fresh(z):
            alone.append(float(x.objective(pickle.loads(pristine))(z)))
            return alone[-1]
        try:
            return search(fresh, limits, popsize=popsize, maxiter=generations, seed=sd,
                          **dict(dict(polish=False, updating="deferred"), **how, **mixing, workers=1)), alone
        except (np.linalg.LinAlgError, UnboundLocalError, ValueError):
            raise Skip()
    limits = [tuple(float(v) for v in b) for b in x.limits_()]
    mixing = dict(mutation=(.5, 1), recombination=.7)
    given = {}
    if r.random() < (.6 if long else .3):
        given = mixing = dict(mutation=r.choice([.4, (.3, .9)]), recombination=r.choice([.3, .5, .9]))

    def attempt(fn, *a, **kw):
        try:
            return hush(fn, *a, **kw)
        except Exception:
            serial({})          # (perhaps a candidate without a meaningful simulation)
            raise

    def complete():
        for m in (multi, single):
            m.differential_evolution = small
        scipy.optimize.differential_evolution = small
        kw = dict(given, popsize=popsize, num_cpu=cpus, percent_workers=percent, normalized_data=x.normalized)
        if r.random() < .5:
            kw["filename"] = "asked"
        if cls is Multi:
            f = attempt(multi.fit_admr_parallel, x.params, x.bounds, x.data, **kw)
            params = table(f.params_dict, x.temps)
            rho = {str(T): flt(f.rhozz_sim_dict[T]) for T in x.fitted}
        else:
            m = attempt(single.fit_admr_parallel, x.member(x.base_, x.p), x.ranges(True), x.data, **kw)
            params = table({T: {"b": m} for T in x.temps}, x.temps)
            made = sorted(n for n in os.listdir(folder) if n.endswith(".json"))
            if "filename" in kw:
                assert made == ["asked.json"], made
            with open(os.path.join(folder, made[0])) as g:
                saved = json.load(g)
            assert table({T: {"b": saved} for T in x.temps}, x.temps) == params, "the file holds another record"
        got = []
        for T, b, n in x.labels:
            q = params[str((x.fitted if cls is Multi else x.temps)[0] if T == "all" else T)][b]
            got.append([q[s][n] for s in "gbs" if n in q[s]][0])
        take(x, got)
        # the rest of the search is the code's own choice
        twin, alone = serial({k: v for k, v in seen.items() if k in ("strategy", "tol", "init", "atol", "updating", "polish", "x0", "integrality")})
        d = observe(x, x=flt(got), serial=flt(twin.x), evals=flt(evals), alone=flt(alone), serialbest=float(twin.fun),
                    bounds=flt(limits), params=params)
        if cls is One:
            rho = d["refs"]       # (only the record is returned)
        d["rhozz"] = rho
        d["best"] = float(min(evals)) if evals else float("nan")
        return d
    try:
        tr.call("Fit", complete, tag=tag)
    except Skip:
        tr.stats["skipped"] = tr.stats.get("skipped", 0) + 1
    finally:
        for m in (multi, single):
            m.differential_evolution = evolve
        scipy.optimize.differential_evolution = evolve
    plt.close("all")
    tr.stats["histories"] += 1


if JIT:
    fit(0, One)
    tr.close()
    sys.exit()
for i, h in enumerate(histories("c18")):
    if i % parts == part:
        run(h, i, [Multi, One][(i // parts) % 2])
for i in range(16 if THOROUGH else 4):
    fit(i, [Multi, One][(i + part) % 2])
tr.close()
