"""C02: surfaces of many bands, both algorithms, at several energies."""
import numpy as np
from common import Trace, rng, model_ast, THOROUGH, flt
from surfaces import BANDS, spec_of, sample
from cuprates_transport.bandstructure import BandStructure
import sys
part, parts = int(sys.argv[1]), int(sys.argv[2])
r = rng("c02/%d" % part)
tr = Trace("Trace_C02", "p%d" % part)


def runs(kz):
    """Maximal runs of equal kz: [kz, length]."""
    out = []
    for z in kz:
        if out and out[-1][0] == z:
            out[-1][1] += 1
        else:
            out.append([float(z), 1])
    return [[repr(z), n] for z, n in out]


def surface(band, march, fine=False):
    sp = spec_of(r, band, march, res=[r.randint(12, 41), r.randint(12, 41), r.randint(3, 9)] if march else None, zone=.5)
    if fine:
        sp.update(resolution=[r.randint(250, 420), r.randint(150, 420), 3])
    b = BandStructure(**sp)
    rough = None
    if march:
        b.res_xy_rough = rough = r.choice([501, 301, 201])
    for k in range(2):
        eps = 0 if k == 0 and r.random() < 0.6 else round(r.uniform(-0.12, 0.12) * sp["energy_scale"], 3)
        use_run = r.random() < 0.3 and not fine    # (its doping is counted on a mesh ten times as fine)

        def f():
            if use_run:
                b.runBandStructure(epsilon=eps)
            elif eps == 0 and r.random() < 0.5:
                b.discretize_fermi_surface()
            else:
                b.discretize_fermi_surface(epsilon=eps)
            kf, vf, dos = (np.asarray(x, dtype=float) for x in (b.kf, b.vf, b.dos_k))
            assert kf.ndim == 2 and kf.shape[0] == 3 and vf.shape == kf.shape and dos.ndim == 1
            n = kf.shape[1]
            lens = {"kf": n, "vf": vf.shape[1], "dkf": len(b.dkf), "dos_k": len(dos)}
            if march:
                lens.update(dks=len(b.dks), dkz=len(b.dkz))
            idx = sample(r, min(n, len(dos)), 260 if THOROUGH else 120)
            return dict(n=n, lens=lens, absmax=flt(np.max(np.abs(kf), axis=1)), resolution=list(b.resolution),
                        kf=flt(kf[:, idx].T), vf=flt(vf[:, idx].T), dos=flt(dos[idx]),
                        nppk=[int(x) for x in b.number_of_points_per_kz_list] if march else [],
                        kzs=runs(kf[2]) if march else [])
        tr.call("Surface", f, tag=band[0], model=band[0], a=sp["a"], b=sp["b"], c=sp["c"], scale=sp["energy_scale"],
                params={k: float(v) for k, v in sp["band_params"].items()}, march=march,
                eps=float(eps), kmax=flt(sp["k_max"]), requested=sp["resolution"], rough=rough or 0)
        tr.stats["cases"] += 1
    tr.stats["histories"] += 1


todo = [(b, m) for i, b in enumerate(BANDS) for m in (False, True)]
for i, (b, m) in enumerate(todo):
    if (i // 2) % parts != part:
        continue
    tr.ev("Model", id=b[0], ast=model_ast(b[1]), text=b[1])
    for rep in range(4 if THOROUGH else 1):
        surface(b, m)
    if m and i // 2 == part and (THOROUGH or part % 2):
        surface(b, m, fine=True)
tr.close()
