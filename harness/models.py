"""Dispersions used as inputs: a catalogue and a seeded generator."""
import math

CUPRATE = ("- mu - 2*t*(cos(a*kx) + cos(b*ky))- 4*tp*cos(a*kx)*cos(b*ky)"
           "- 2*tpp*(cos(2*a*kx) + cos(2*b*ky))- 2*tz*(cos(a*kx) - cos(b*ky))**2"
           "*cos(a*kx/2)*cos(b*ky/2)*cos(c*kz/2)")
CUP = {"t": 1, "tp": -0.136, "tpp": 0.068, "tz": 0.07, "mu": -0.83}

CATALOGUE = [
    ("cuprate", CUPRATE, CUP),
    ("parabola", "-mu + t*((a*kx)**2 + (b*ky)**2 + (c*kz)**2)/4", {"t": 1.0, "mu": 0.9}),
    ("mass_tensor", "-mu + mx*(kx*a)**2 + my*(ky*b)**2 + mz*(kz*c)**2 + w*kx*ky*a*b",
     {"mu": 0.5, "mx": 0.2, "my": 0.35, "mz": 0.04, "w": 0.07}),
    ("two_dim", "-mu - 2*t*cos(a*kx) - 2*tb*cos(b*ky)", {"t": 1, "tb": 0.6, "mu": -0.4}),
    ("chain", "-mu - 2*t*cos(b*ky)", {"t": 0.7, "mu": 0.1}),
    ("sympy_names", "-mu - 2*E*cos(a*kx) - 2*N*cos(b*ky) - 2*gamma*cos(c*kz) - beta*S*sin(a*kx)*sin(b*ky) - I*cos(a*kx)*cos(b*ky) - Q",
     {"E": 1.0, "N": 0.8, "gamma": 0.3, "beta": 0.15, "S": 0.4, "I": 0.21, "Q": 0.05, "mu": -0.3}),
    ("capital_order", "-mu - 2*T1*cos(a*kx) - 2*t1*cos(b*ky) - 2*Tz*cos(c*kz) - 2*t10*cos(2*a*kx) - 2*t2*cos(2*b*ky)",
     {"t10": 0.11, "t2": -0.07, "T1": 1.0, "t1": 0.9, "Tz": 0.2, "mu": -0.7}),
    ("dirac", "v*(sin(a*kx) + 2*sin(b*ky)) + m*(2 - cos(a*kx) - cos(b*ky)) - mu", {"v": 0.6, "m": 1.0, "mu": 0.5}),
    ("sqrt_gap", "-mu + sqrt((2*t*cos(a*kx) - 2*t*cos(b*ky))**2 + M**2 + 9) - 2*tz*cos(c*kz)",
     {"t": 0.5, "M": 0.2, "tz": 0.1, "mu": 0.8}),
    ("linear", "-mu + v*a*kx + 2*w*b*ky - 2*tz*cos(c*kz)", {"v": 0.4, "w": 0.2, "tz": 0.1, "mu": 0.05}),
    ("gaussian", "-mu - t*exp(-(a*kx)**2/4 - (b*ky)**2/3)*cos(c*kz/2) + 0.1*sin(a*kx)**3",
     {"t": 1.2, "mu": -0.5}),
    ("lattice_explicit", "-mu + t*(kx**2 + ky**2) + s*kz**2*c**2/a**2 + u*a*kx*b*ky*c*kz",
     {"mu": 0.4, "t": 2.0, "s": 0.3, "u": 0.02}),
    ("constants_only_k", "cos(a*kx) + cos(b*ky) + 0.5*cos(c*kz) + m0", {"m0": -0.3}),
    ("bands_product", "-mu - 2*t*t2*cos(a*kx) - 2*t*(1 + t2**2)*cos(b*ky) - 2*tz*cos(c*kz)",
     {"t": 0.2, "t2": 0.3, "tz": 0.1, "mu": -0.2}),
]

ABC = [(3.75, 3.75, 13.2), (3.75, 3.9, 13.2), (5.1, 4.2, 7.7), (4.0, 4.0, 4.0), (2.9, 6.3, 11.0)]


def random_model(r):
    """A random tight-binding sum with random parameter names and values."""
    names = r.sample(["mu", "t", "tp", "tz", "D", "alpha1", "x", "W", "lam", "q2", "zeta", "Gamma", "U",
                      "e0", "pi_", "beta", "C", "O", "g_k", "_h"], r.randint(2, 6))
    terms = []
    for n in names:
        f = r.choice(["1", "cos(a*kx)", "cos(b*ky)", "cos(c*kz)", "cos(a*kx)*cos(b*ky)", "cos(2*a*kx)",
                      "sin(a*kx)*sin(b*ky)", "cos(a*kx/2)*cos(b*ky/2)*cos(c*kz/2)", "sin(c*kz)",
                      "(cos(a*kx)-cos(b*ky))**2", "(a*kx)**2", "sin(b*ky)", "cos(a*kx+b*ky)",
                      "cos(2*b*ky)*cos(c*kz)", "exp(-(b*ky)**2)", "b*ky", "c*kz"])
        terms.append("%s %s*%s*%s" % (r.choice("+-"), r.choice(["2", "4", "1", "0.5"]), n, f))
    return " ".join(terms), {n: round(r.uniform(-1.5, 1.5), 4) for n in names}
