"""C03: weighted surfaces of many bands, both algorithms."""
import sys
import numpy as np
from common import Trace, rng, model_ast, THOROUGH, flt, vec
from surfaces import BANDS, spec_of
from cuprates_transport.bandstructure import BandStructure
part, parts, show = int(sys.argv[1]), int(sys.argv[2]), len(sys.argv) > 3
r = rng("c03/%d" % part)
tr = Trace("Trace_C03", "p%d" % part)


def surface(band, march, speck=None, res=None):
    sp = spec_of(r, band, march, res=[r.randint(34, 60), r.randint(20, 60), r.choice([3, 5, 6, 7])] if march else
                 [r.randint(34, 52), r.randint(34, 52), r.randint(26, 40)], zone=.5)
    if res:
        sp.update(resolution=res)
    if speck:
        sp.update(resolution=[r.randint(3, 5), r.randint(3, 5), r.choice([3, 5])], b=round(sp["a"] * r.choice([.7, .83, 1.2, 1.45]), 3))
    b = BandStructure(**sp)
    if march:
        b.res_xy_rough = r.choice([501, 401])
    eps = 0 if speck or r.random() < 0.6 else round(r.uniform(-0.1, 0.1) * sp["energy_scale"], 3)

    def f():
        if r.random() < 0.7 or res:     # (the doping of a run is counted ten times as finely)
            b.discretize_fermi_surface(epsilon=eps)
        else:
            b.runBandStructure(epsilon=eps)
        kf = np.asarray(b.kf, dtype=float)
        o = dict(n=kf.shape[1], kx=vec(kf[0]), ky=vec(kf[1]), kz=vec(kf[2]), dkf=vec(b.dkf), nz=b.resolution[2])
        if march:
            o.update(dks=vec(b.dks), dkz=vec(b.dkz), nppk=[int(x) for x in b.number_of_points_per_kz_list])
        return o
    tr.call("Surface", f, tag=band[0], model=band[0], a=sp["a"], b=sp["b"], c=sp["c"], scale=sp["energy_scale"],
            params={k: float(v) for k, v in sp["band_params"].items()}, march=march,
            eps=float(eps), kmax=flt(sp["k_max"]), show=show,
            de=float((speck or .04) * sp["energy_scale"]) if march else "none", fine=600 if speck else 300, coarse=bool(speck))
    tr.stats["cases"] += 1
    tr.stats["histories"] += 1


todo = [(b, m) for b in BANDS for m in (False, True)]
for i, (b, m) in enumerate(todo):
    if i % parts != part:
        continue
    tr.ev("Model", id=b[0], ast=model_ast(b[1]), text=b[1])
    for rep in range(6 if THOROUGH or show else 2):
        surface(b, m)
# finely drawn contours (more points than usual)
for band in ([r.choice(BANDS)] if part % 4 == 2 or THOROUGH else []):
    tr.ev("Model", id=band[0], ast=model_ast(band[1]), text=band[1])
    surface(band, True, res=[r.randint(250, 420), r.randint(150, 420), 3])
# pockets much smaller than the mesh asked for, in pairs
for i in range((4 if THOROUGH or show else 2) if part % 2 else 0):
    t, ty, tp = r.choice([.05, -.05, -.05, .003]), round(r.uniform(.3, .8), 3), round(r.uniform(.6, 1), 3)
    d = round(10**r.uniform(-2.3, -1.2), 4)
    x, sign = round(r.uniform(.2, .7), 2), r.choice(["-", "+"])
    model = "%s(2*t*cos(a*kx - %s) + 2*ty*cos(b*ky) + 2*tp*cos(2*a*kx - %s)) %s tz*cos(c*kz) - mu" % (sign, x, round(2 * x, 2), sign)
    # the deeper well is filled to d + 4 |t|, the other one to d
    mu = (1 if sign == "+" else -1) * (2 * tp + 2 * ty - 2 * abs(t) - d)
    band = ("speck%d" % i, model, dict(t=t, ty=ty, tp=tp, tz=.2 * d, mu=mu), [np.pi, np.pi, np.pi], False)
    tr.ev("Model", id=band[0], ast=model_ast(model), text=model)
    surface(band, True, speck=d / 4)
tr.close()
