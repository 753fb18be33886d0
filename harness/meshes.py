"""Smaller default meshes: the library's defaults (500^3 points) need gigabytes per call.

Only the *defaults* are replaced; explicit meshes are untouched.  Code that
hard-codes a huge mesh is capped where meshes are built (dispersion_grid)."""
import types
from cuprates_transport.bandstructure import BandStructure

DEFAULT = [31, 29, 21]


def shrink(mesh=None):
    mesh = list(mesh or DEFAULT)
    for name, f in list(vars(BandStructure).items()):
        if isinstance(f, types.FunctionType) and f.__defaults__:
            code = f.__code__
            names = code.co_varnames[:code.co_argcount][-len(f.__defaults__):]
            new = []
            for n, d in zip(names, f.__defaults__):
                if isinstance(d, int) and not isinstance(d, bool) and d >= 300 and n.startswith("res_"):
                    d = mesh["xyz".index(n[-1])]
                new.append(d)
            f.__defaults__ = tuple(new)
    grid = getattr(BandStructure, "dispersion_grid", None)
    if isinstance(grid, types.FunctionType):
        def capped(self, resolution, *a, **k):
            try:
                big = resolution[0] * resolution[1] * resolution[2] > 4e6
            except Exception:
                big = False
            return grid(self, mesh if big else resolution, *a, **k)
        BandStructure.dispersion_grid = capped
    return mesh


def rough(n):
    """Coarser starting grid of the plane-by-plane contours (501 by default)."""
    init = BandStructure.__init__

    def __init__(self, *a, **k):
        init(self, *a, **k)
        self.res_xy_rough = n
    BandStructure.__init__ = __init__
