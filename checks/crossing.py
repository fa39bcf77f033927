"""Run configurations crossed pair by pair: a fault that needs two particular options together shows in one of them."""
from checks.e2e import *

OPAC = ("constant", "gaussian", "siewert1", "siewert2", "fake_sedov")
FACTORS = dict(
    entry=("plane_IC", "square_IC", "square_source", "gaussian_IC", "gaussian_source", "MMS"),
    unc=(1, 0), mov=(1, 0), opacity=OPAC, geometry=("slab", "sphere"), bounds=("none", "left", "right", "both"), scaling=(0, 1),
    cells=(2, 4), angles=(2, 4), order=(0, 1))
REPORT = dict(several=(0, 1), chosen=(0, 1))


def sensible(c):
    """combinations the solver has equations for"""
    if c["geometry"] == "sphere" and (c["entry"] not in ("plane_IC", "square_IC") or c["opacity"] != "constant" or c["bounds"] != "none"):
        return False
    if c["entry"] in ("square_IC", "square_source") and c["cells"] < 4:     # needs a cell in every part of its mesh
        return False
    if c["entry"] == "MMS" and (c["unc"] or c["opacity"] != "constant" or c["bounds"] != "none"):
        return False
    if c["bounds"] != "none" and c["unc"]:
        return False
    return True


def options(c):
    """keyword arguments of e2e.config"""
    d = dict(geometry=c["geometry"], sizes=((c["cells"], c["angles"], c["order"]),), sigma_func={k: k == c["opacity"] for k in OPAC},
             Msigma=1, epsilon_scaling=bool(c["scaling"]))
    if c["bounds"] != "none":
        d.update(boundary_source=True, boundary_on=[int(c["bounds"] in ("left", "both")), int(c["bounds"] in ("right", "both"))])
    if c.get("several"):
        d["eval_times"] = True
    if c.get("chosen"):
        d["choose_xs"] = True
    return d


def label(c):
    return " ".join("%s" % c[k] if k in ("entry", "opacity", "geometry") else "%s=%s" % (k, c[k]) for k in c)


def scenarios(**change):
    f = dict(FACTORS)
    f.update(change)
    f = {k: v for k, v in f.items() if v is not None}
    return [(label(c), c["entry"], options(c), c["unc"], c["mov"]) for c in pairwise(f, sensible)]
