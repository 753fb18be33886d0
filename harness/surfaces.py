"""Bands with Fermi surfaces, used as inputs of the surface checks."""
import math
import numpy as np
from models import CUPRATE, CUP

PI = math.pi
# name, model, params, k_max, four-fold (tetragonal plane algorithm applies), note
BANDS = [
    ("cuprate", CUPRATE, CUP, [PI, PI, 2 * PI], True),
    ("cuprate_3d", CUPRATE, dict(CUP, tz=0.3, mu=-1.1), [PI, PI, 2 * PI], True),
    ("electron_like", CUPRATE, dict(CUP, mu=-1.6), [PI, PI, 2 * PI], True),
    ("sphere", "-mu + t*((a*kx)**2 + (b*ky)**2 + (c*kz)**2)/4", {"t": 1.0, "mu": 0.9}, [PI, PI, PI], True),
    ("ellipsoid", "-mu + t*((a*kx)**2 + 2*(b*ky)**2 + 0.5*(c*kz)**2)/4", {"t": 1.0, "mu": 0.8}, [PI, PI, PI], False),
    ("shifted", "-mu + t*((a*kx - 1)**2 + (b*ky + 0.7)**2 + 0.4*(c*kz - 0.5)**2)", {"t": 1.0, "mu": 0.9}, [PI, PI, PI], False),
    ("two_sheets", "-mu - 2*t*cos(2*a*kx) - 2*t*cos(b*ky) - 2*tz*cos(c*kz/2)", {"t": 1.0, "tz": 0.25, "mu": -2.6}, [PI, PI, 2 * PI], False),
    ("open", "-mu - 2*t*cos(a*kx) - 2*tb*cos(b*ky) - 2*tz*cos(c*kz)", {"t": 1.0, "tb": 0.3, "tz": 0.1, "mu": -0.3}, [PI, PI, PI], False),
    ("hole_pockets", "-mu + 2*t*(cos(a*kx) + cos(b*ky)) + 4*tp*cos(a*kx)*cos(b*ky) - 2*tz*cos(c*kz/2)",
     {"t": 0.5, "tp": -0.35, "tz": 0.05, "mu": 1.2}, [PI, PI, 2 * PI], True),
    ("corner", "-mu - 2*t*(cos(a*kx) + cos(b*ky)) - 2*tz*cos(c*kz/2)", {"t": 1.0, "tz": 0.2, "mu": 2.0}, [PI, PI, 2 * PI], True),
    ("poles", "-mu - 2*t*(cos(a*kx) + cos(b*ky)) - 2*tz*cos(c*kz)", {"t": 1.0, "tz": 0.9, "mu": -4.2}, [PI, PI, PI], True),
    ("wide_zone", CUPRATE, CUP, [2 * PI, 2 * PI, 2 * PI], True),
    ("reconstructed", "-mu + 2*tp*cos(a*kx)*cos(b*ky) - sqrt((2*t*(cos(a*kx) + cos(b*ky)))**2 + M**2) - 2*tz*cos(c*kz/2)",
     {"t": 1.0, "tp": 0.5, "M": 0.6, "tz": 0.02, "mu": -1.1}, [PI, PI, 2 * PI], True),
    # no two-fold axis; no inversion either
    ("tilted", "-mu - 2*t*cos(a*kx) - 2*t*cos(b*ky) - 2*tz*cos(c*kz/2 + a*kx)", {"t": 1.0, "tz": 0.15, "mu": -0.8}, [PI, PI, 2 * PI], False),
    ("skewed", "-mu - 2*t*(cos(a*kx) + cos(b*ky)) - 2*tz*cos(c*kz/2 + 0.5) - 2*tw*sin(a*kx + c*kz/2)",
     {"t": 1.0, "tz": 0.1, "tw": 0.15, "mu": -1.0}, [PI, PI, 2 * PI], False),
]


def occupied(model, params, a, b, c, kmax, n=25):
    """Occupied fraction of the zone."""
    k = np.meshgrid(*[np.linspace(-m / x, m / x, n) for m, x in zip(kmax, (a, b, c))])
    e = eval(model, dict(params, a=a, b=b, c=c, kx=k[0], ky=k[1], kz=k[2], cos=np.cos, sin=np.sin, sqrt=np.sqrt, exp=np.exp))
    return np.mean(e < 0)


def spec_of(r, band, march, res=None, zone=0):
    """Constructor arguments for a random realisation of a catalogued band (zone: how often its bounds vary)."""
    name, model, params, kmax, c4 = band
    a = round(r.uniform(2.5, 6), 3)
    c = round(r.uniform(3, 14), 3)
    # equal, nearly equal or unequal in-plane constants (equal for bands with and without four-fold symmetry)
    b = a if r.random() < (.5 if march and c4 else .3) else round(a * r.choice([r.uniform(0.6, 1.6), r.uniform(1.003, 1.02)]), 3)
    if r.random() < zone:
        for attempt in range(20):
            f = [r.uniform(.62, 1), r.uniform(.62, 1), r.uniform(.62, 1)]
            if r.random() < .5:
                f[1] = f[0]
            new = [round(m * x, 4) for m, x in zip(kmax, f)]
            levels = [occupied(model, dict(params, mu=params["mu"] + d), a, b, c, new) for d in (-.12, 0, .12)]
            if min(levels) > .17 and max(levels) < .83:
                kmax = new
                break
    if res is None:
        res = [r.randint(26, 44), r.randint(26, 44), r.randint(20, 34)]
    return dict(a=a, b=b, c=c, energy_scale=round(r.uniform(40, 250), 2), band_params=dict(params),
                band_model=model, resolution=list(res), k_max=list(kmax), march_square=march, parallel=False)


def sample(r, n, m):
    idx = list(range(n))
    if n > m:
        idx = sorted(r.sample(idx, m))
    return idx
