"""C01: bands of many dispersions are built, modified along generated histories and evaluated."""
import sys
import numpy as np
from common import Trace, rng, histories, model_ast, THOROUGH, flt
from models import CATALOGUE, ABC, random_model
from cuprates_transport.bandstructure import BandStructure

JIT = sys.argv[1] == "jit"
r = rng("c01" + sys.argv[1])


def kpoints(abc, n):
    out = []
    for i in range(n):
        w = r.choice([0.3, 1.0, 1.0, 2.7])
        out.append([w * r.uniform(-np.pi, np.pi) / abc[0], w * r.uniform(-np.pi, np.pi) / abc[1],
                    w * r.uniform(-2 * np.pi, 2 * np.pi) / abc[2]])
    out.append([0.0, 0.0, 0.0])
    out.append([np.pi / abc[0], -np.pi / abc[1], 2 * np.pi / abc[2]])
    return np.array(out)


def observe(tr, obj, name, abc, shape=1):
    k = kpoints(abc, 4)
    if shape == 2:
        k = k.reshape(2, 3, 3)
    if shape == 3:
        k = k.reshape(2, 3, 1, 3)

    def f():
        kx, ky, kz = (np.ascontiguousarray(k[..., i]) for i in range(3))
        keep = k.copy()
        e = np.asarray(obj.energy_func(kx, ky, kz), dtype=float)
        v = obj.velocity_func(kx, ky, kz)
        v = [np.asarray(x, dtype=float) for x in v]
        assert len(v) == 3 and all(x.shape == kx.shape for x in v) and e.shape == kx.shape
        assert np.array_equal(np.stack([kx, ky, kz], -1), keep), "inputs modified"
        return {"e": flt(e.ravel()), "v": flt(np.stack([x.ravel() for x in v], -1))}
    tr.call("Eval", f, obj=name, k=flt(k.reshape(-1, 3)))
    tr.stats["cases"] += len(k.reshape(-1, 3))


def run(tr, idx, mid, model, params, abc, hist, parallel=False):
    name = "o%d" % idx
    scale = round(r.uniform(20, 300), 3) * r.choice([1, 1, 1, -1])
    keys = list(params)
    r.shuffle(keys)
    params = {k: params[k] for k in keys}
    made = {}

    def build():
        made["b"] = BandStructure(a=abc[0], b=abc[1], c=abc[2], energy_scale=scale, band_params=params,
                                  band_model=model, parallel=parallel)
    fields = dict(obj=name, model=mid, a=float(abc[0]), b=float(abc[1]), c=float(abc[2]),
                  scale=scale, march=False)
    tr.call("New", build, tag=mid, params=flt_dict(params), **fields)
    if "b" not in made:
        return
    b = made["b"]
    observe(tr, b, name, abc, shape=r.choice([1, 2, 3]))
    # abstract keys/values of the history -> this model's parameters
    amap = {"mu": r.choice(keys), "t": r.choice(keys)}

    def value(v):
        return {"v0": 0, "v1": round(r.uniform(-2, 2), 4), "v2": r.choice([1, -1, 0.5, 1e-3, 2])}[v]
    for h in hist["hist"]:
        if h["ev"] == "SetItem":
            k = amap.get(h["key"], "not_declared")
            v = value(h["val"])
            if r.random() < 0.5:
                tr.call("SetItem", lambda: b.__setitem__(k, v), obj=name, key=k, val=float(v))
            else:
                tr.call("SetItem", lambda: b.set_band_param(k, v), obj=name, key=k, val=float(v))
            tr.call("Get", lambda: {"ret": num(b[k] if r.random() < .5 else b.get_band_param(k))}, obj=name, key=k)
        elif h["ev"] == "SetParams":
            ks = list(keys)
            r.shuffle(ks)
            ps = {k: value(r.choice(["v0", "v1", "v1", "v2"])) for k in ks}
            tr.call("SetParams", lambda: setattr(b, "band_params", ps), obj=name, params=flt_dict(ps))
        elif h["ev"] == "SetScale":
            v = {"s0": 1, "s1": round(r.uniform(5, 400), 2) * r.choice([1, 1, -1]), "s2": 160}[h["val"]]
            tr.call("SetScale", lambda: setattr(b, "energy_scale", v), obj=name, val=float(v))
        observe(tr, b, name, abc)
        tr.call("GetAll", lambda: {"ret": flt_dict(b.band_params), "scale": float(b.energy_scale)}, obj=name)
        for k in keys:
            tr.call("Get", lambda: {"ret": num(b[k])}, obj=name, key=k)
    tr.stats["histories"] += 1


def num(x):
    return "none" if x is None else float(x)


def flt_dict(d):
    return {k: float(v) for k, v in d.items()}


tr = Trace("Trace_C01", sys.argv[1])
hs = histories("c01")
todo = []
if JIT:
    todo = [(CATALOGUE[0], True), (CATALOGUE[3], False), (CATALOGUE[5], True)]
    if THOROUGH:
        todo += [(CATALOGUE[i], bool(i % 2)) for i in (1, 2, 4, 8, 9)]
else:
    todo = [(m, False) for m in CATALOGUE]
    for i in range(60 if THOROUGH else 16):
        m, p = random_model(r)
        todo.append((("random%d" % i, m, p), False))
for i, ((mid, model, params), par) in enumerate(todo):
    tr.ev("Model", id=mid, ast=model_ast(model), text=model)
    for rep in range(3 if THOROUGH and not JIT else 1):
        run(tr, 100 * i + rep, mid, model, params, r.choice(ABC), r.choice(hs), par)
    if i % 3 == 0:    # the same dispersion again in the same process, with a parameter it does not use
        more = dict(params)
        more[r.choice(["aa_unused", "zz_unused", "m_unused"])] = round(r.uniform(-2, 2), 3)
        run(tr, 100 * i + 99, mid, model, more, r.choice(ABC), r.choice(hs), par)
# the documented default band
if not JIT:
    from models import CUPRATE, CUP
    tr.ev("Model", id="default", ast=model_ast(CUPRATE), text=CUPRATE)
    d = {}
    tr.call("New", lambda: d.update(b=BandStructure(a=3.75, b=3.9, c=13.2, energy_scale=160)), obj="dflt",
            model="default", a=3.75, b=3.9, c=13.2, scale=160.0, march=False, params=flt_dict(CUP))
    if d:
        observe(tr, d["b"], "dflt", (3.75, 3.9, 13.2))
tr.close()
