"""C14: what finished scans write and how they are named."""
import os, re, sys
import numpy as np
from common import Trace, rng, histories, flt, vec, THOROUGH
import meshes
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from scans import Scans

part, parts = int(sys.argv[1]), int(sys.argv[2])
meshes.shrink([11, 11, 3])
r = rng("c14/%d" % part)
tr = Trace("Trace_C14", "p%d" % part)
figures = [10 if THOROUGH else 2]
HOME = os.getcwd()


class Skip(BaseException):
    pass


def files(root):
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            res[os.path.relpath(p, root)] = (os.stat(p).st_mtime_ns, os.stat(p).st_ino)
    return res


def results(x):
    """Everything a scan left behind, flattened to one string."""
    a = x.admr
    out = [a.rhozz_array, a.rzz_array, a.Bphi_array, a.Btheta_array, a.total_filling, a.total_hole_doping, a.Btheta_norm]
    for co in a.condObject_list:
        b = co.bandObject
        out += [co.sigma, co.alpha, co.beta, co.Bamp, co.Bphi, co.Btheta, co.T, b.kf, b.vf, b.dkf, b.n, b.p, b.energy_scale, b.resolution]
        out += [float(v) for _, v in sorted(b.band_params.items())]
    return vec(np.concatenate([np.asarray(o, dtype=float).ravel() for o in out]))


def read(path):
    with open(path) as f:
        lines = f.read().split("\n")
    head = [c for c in lines[0].lstrip("#").strip().split("\t")]
    rows = [[float(c) for c in line.split()] for line in lines[1:] if line.strip()]
    labels, az = [], []
    for c in head:
        m = re.match(r"rho_?zz\(phi=([^)]*)\)", c.strip())
        if m:
            az.append(float(m.group(1)))
            labels.append("rho")
        else:
            labels.append(c.strip().split("[")[0])
    return labels, az, rows


def run(h, idx):
    x = Scans(r)
    if x.conf[0]["cond"]["T"] and len(x.phis) > 1:
        x.phis = x.phis[:1]
    root = os.path.join(HOME, "out_%d_%d" % (part, idx))
    os.makedirs(os.path.join(root, "data", "deep"))
    os.chdir(root)
    if tr.call("New", lambda: x.start() and None, tag="") is None:
        return

    def scan():
        try:
            x.scan()
        except np.linalg.LinAlgError:
            if x.singular(x.refs()[0]):     # a mesh so coarse that nothing moves along some axis
                raise Skip()
            raise

    def described(fn):
        c0 = x.admr.condObject_list[0]
        b0 = x.conf[0]["band"]
        before, listing = results(x), files(root)
        res = fn()
        now = files(root)
        after = results(x)
        written = sorted(p.replace(os.sep, "/") for p in now if now[p] != listing.get(p))
        return res, written, dict(
            T=float(x.conf[0]["cond"]["T"]), B=float(x.conf[0]["cond"]["Bamp"]), scale=float(b0["energy_scale"]),
            params={k: float(v) for k, v in b0["band_params"].items()}, names=[c["band"]["band_name"] for c in x.conf],
            fills=[float(co.bandObject.n) for co in x.admr.condObject_list], before=before, after=after)

    def where():
        folder = r.choice(["", "data", "data/deep", root, os.path.join(root, "data")])
        rel = os.path.relpath(folder, root) if os.path.isabs(folder) else folder
        return folder, "" if rel == "." else rel.replace(os.sep, "/")

    def export():
        folder, rel = where()
        name = r.choice([None, None, "scan.dat", "my scan_1.txt"])
        kw = {} if folder == "" and r.random() < .5 else dict(folder=folder)
        if name is not None:
            kw["filename"] = name
        _, written, d = described(lambda: x.admr.fileADMR(**kw))
        labels, az, rows = read(os.path.join(root, written[0])) if written else ([], [], [])
        return dict(d, folder=rel, filename=name, written=written, labels=labels, azimuths=flt(az), rows=flt(rows), res=flt(x.conf[0]["band"]["resolution"]),
                    phis=flt(x.phis), thetas=flt(x.thetas), rhozz=flt(x.admr.rhozz_array))

    def figure():
        folder, rel = where()
        name = r.choice([None, None, "fig.pdf"])
        kw = dict(folder=folder, **({} if name is None else {"filename": name}))
        try:
            _, written, d = described(lambda: x.admr.figADMR(fig_show=False, **kw))
        finally:
            plt.close("all")
        head = open(os.path.join(root, written[0]), "rb").read(5) if written else b""
        return dict(d, folder=rel, filename=name, written=written, pdf=head == b"%PDF-")

    def name():
        res, _, d = described(x.admr.file_name_func)
        return dict(d, name=res)
    changed = True
    looks = 0
    for st in list(h["hist"]) + [{"ev": "Scan"}, {"ev": "Look", "what": "export"}, {"ev": "Look", "what": "name"}, {"ev": "Look", "what": "figure"}]:
        ev = st["ev"]
        tag = "%d bands %s" % (len(x.conf), st.get("val", st.get("what", "")))
        if ev == "Scan":
            if len(x.phis) * len(x.thetas) > 6 and x.conf[0]["cond"]["T"]:
                ok = tr.call("SetPhis", lambda: x.set_phis([r.randint(0, 5)]), tag=tag)
            changed = False
            try:
                ok = tr.call("Scan", scan, tag=tag)
            except Skip:
                tr.stats["skipped"] = tr.stats.get("skipped", 0) + 1
                break
        elif ev == "SetBand":
            changed = True
            ok = tr.call(ev, lambda: x.set_band(st["band"], st["val"]), tag=tag)
        elif ev == "SetPhis":
            changed = True
            ok = tr.call(ev, lambda: x.set_phis(st["phis"]), tag=tag)
        elif ev == "SetThetas":
            changed = True
            ok = tr.call(ev, lambda: x.set_thetas(st["thetas"]), tag=tag)
        elif ev == "SetNorm":
            ok = tr.call(ev, lambda: x.set_norm(st["val"]), tag=tag)
        elif changed:
            continue
        elif st["what"] == "export":
            tr.stats["cases"] += 1
            ok = tr.call("Export", export, tag=tag)
        elif st["what"] == "figure":
            if figures[0] == 0 or (r.random() < .6 and not THOROUGH):
                continue
            figures[0] -= 1
            tr.stats["cases"] += 1
            ok = tr.call("Figure", figure, tag=tag)
        elif st["what"] == "parameters":
            continue
        else:
            tr.stats["cases"] += 1
            ok = tr.call("Name", name, tag=tag)
        if ok is None:
            break
    tr.stats["histories"] += 1
    os.chdir(HOME)


for i, h in enumerate(histories("c14")):
    if i % parts == part:
        run(h, i)
tr.close()
