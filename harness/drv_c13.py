"""C13: generated histories of angle scans; reference conductivities from new objects."""
import os, sys
import numpy as np
from common import Trace, rng, histories, flt
import meshes
import matplotlib
matplotlib.use("Agg")
from scans import Scans

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
r = rng("c13/%d" % part)
tr = Trace("Trace_C13", "p%d" % part)


class Skip(BaseException):
    pass


def run(h, idx):
    x = Scans(r)
    if tr.call("New", lambda: {k: flt(v) for k, v in x.start().items()}, tag="%s..%s/%s" % (x.lo, x.hi, x.step)) is None:
        return
    folder = os.path.abspath("out_%d_%d" % (part, idx))
    os.mkdir(folder)
    ref = {}

    def totals():
        return dict(filling=float(x.admr.total_filling), doping=float(x.admr.total_hole_doping))

    def scan():
        refs, fills = x.refs()
        if x.singular(refs):     # (a mesh so coarse that nothing moves along some axis)
            raise Skip()
        x.scan()
        ref["f"] = fills
        return dict(totals(), phis=flt(x.phis), thetas=flt(x.thetas), norm=float(x.norm), rhozz=flt(x.admr.rhozz_array), rzz=flt(x.admr.rzz_array),
                    refs=flt(refs), fills=flt(fills))

    def look(what):
        x.look(what, folder)
        return dict(totals(), fills=flt(ref["f"]))
    changed = False
    for st in list(h["hist"]) + [{"ev": "Scan"}] + [{"ev": "Scan"}] * r.randint(0, 1):
        ev = st["ev"]
        tag = "%d bands %s" % (len(x.conf), st.get("val", st.get("what", "")))
        if ev == "Scan":
            tr.stats["cases"] += 1
            changed = False
            try:
                ok = tr.call("Scan", scan, tag=tag)
            except Skip:
                tr.stats["skipped"] = tr.stats.get("skipped", 0) + 1
                break
        elif ev == "SetBand":
            changed = True
            ok = tr.call(ev, lambda: x.set_band(st["band"], st["val"]), tag=tag)
        elif ev == "SetPhis":
            ok = tr.call(ev, lambda: x.set_phis(st["phis"]), tag=tag)
        elif ev == "SetThetas":
            ok = tr.call(ev, lambda: x.set_thetas(st["thetas"]), tag=tag)
        elif ev == "SetNorm":
            ok = tr.call(ev, lambda: x.set_norm(st["val"]), tag=tag)
        else:
            if changed or st["what"] in ("export", "figure"):
                continue
            ok = tr.call("Look", lambda: look(st["what"]), tag=tag)
        if ok is None:
            break
    tr.stats["histories"] += 1


for i, h in enumerate(histories("c13")):
    if i % parts == part:
        run(h, i)
tr.close()
