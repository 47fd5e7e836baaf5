"""Restricting the simulated area equals simulating the restricted model."""

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C09"
RULE = (
    "random problems with survey_pad (integer, per side, None entries, zero, huge) or origin plus initial wavefields; the area is "
    "computed from the documentation, the models are cropped and the locations shifted by hand; sizes, outputs and gradients "
    "(zero outside the area) must agree; plus a directed probe of velocity points on the last row; non-trivial: the area is "
    "smaller than the model and an output is non-zero"
)
N = {"quick": 2600, "thorough": 60000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"kind:pad": 500, "kind:origin": 300, "cropped": 500, "prop:acoustic": 100, "prop:elastic": 100}


def gen(rng, i, tier):
    if i % 50 == 49:
        return dict(kind="lastrow", prop=["acoustic", "elastic"][i // 50 % 2], ndim=1 + i // 100 % 3, seed=rng.randrange(1 << 30), dtype="double")
    kind = rng.choice(["pad", "pad", "pad", "origin", "origin", "equal"])
    o = dict(wide=False, extract=kind if kind != "equal" else "none", mgsi=1, big=6)
    if kind == "origin":
        o["wf"] = rng.choice(["some", "all"])
    c = cases.gen_case(rng, **o)
    c["kind"] = kind
    nd = c["ndim"]
    m = rng.random()
    if m < 0.25:
        c["sp"] = rng.choice([0, 1, 2, 3, 5])
    elif m < 0.35:
        c["sp"] = 1000
    else:
        c["sp"] = [rng.choice([None, 0, 0, 1, 2, 3, 6, 50]) for _ in range(2 * nd)]
    c["equal"] = rng.choice(["hugepad", "nonepad", "originzero"])
    return c


def run(c, mon):
    if c["kind"] == "lastrow":
        return lastrow(c, mon)
    prop, kw = cases.materialise(c)
    nd = c["ndim"]
    if c["kind"] == "pad":
        wf = [k for k in ref.wavefield_names(prop, nd) if kw.get(k) is not None]
        kw["survey_pad"] = c["sp"]
        if wf:
            # sized for the new area below
            for k in wf:
                del kw[k]
            kw.setdefault("nt", c["nt"]) if not any(k.startswith("source_amp") for k in kw) else None
        locs = [kw[k] for k in kw if "locations" in k]
        if not locs:
            raise Skip
        g = ref.Geometry(c["shape"], c["pml"], kw, locs, {})
        if any(b - a < (3 if prop in ("acoustic", "elastic") else 1) for a, b in g.ext):
            raise Skip
        gen = torch.Generator().manual_seed(c["seed"] + 9)
        for k in wf:
            kw[k] = torch.randn(c["n_shots"], *g.n, generator=gen, dtype=torch.float64).to(kw[ref.model_names(prop)[0]].dtype)
    elif c["kind"] == "origin":
        g = ref.Geometry(c["shape"], c["pml"], kw, [], {k: kw.get(k) for k in ref.wavefield_names(prop, nd)})
    else:
        kc = dict(kw)
        haswf = any(kw.get(k) is not None for k in ref.wavefield_names(prop, nd))
        if c["equal"] == "originzero":
            if not haswf:
                raise Skip
            kc["origin"] = [0] * nd
        elif c["equal"] == "hugepad":
            kc["survey_pad"] = 10**6
        else:
            kc["survey_pad"] = [None] * 2 * nd
        both(c, prop, kw, kc, [(0, s) for s in c["shape"]], mon)
        return
    if cases.last_row_outside(c, kw, any_pml=True):
        raise Skip  # would be refused when cropped by hand
    # crop by hand
    kc = {k: v for k, v in kw.items() if k not in ("survey_pad", "origin")}
    kc["max_vel"] = rel.true_max_vel(prop, kw)
    kw2 = dict(kw)
    reg = (Ellipsis,) + tuple(slice(*e) for e in g.ext)
    for k in ref.model_names(prop):
        kc[k] = kw[k][reg].clone()
    off = torch.tensor([e[0] for e in g.ext])
    for k in kw:
        if "locations" in k:
            l = kw[k].clone()
            a = ref.active(l)
            l[a] = l[a] - off.to(l.dtype)
            kc[k] = l
    both(c, prop, kw2, kc, g.ext, mon)


def both(c, prop, kw, kc, ext, mon):
    nd = c["ndim"]
    tol = rel.rtol(c, 1e-11, 2e-4)
    fi = cases.float_inputs(kw)
    o0 = rel.outs(prop, kc)
    ws = rel.weights(o0, c["seed"])
    oc, gc = rel.run_grads(prop, kc, fi, ws)
    fg = rel.group_floor(kc, gc, c["dtype"])
    fi = rel.subset(prop, fi, c["seed"])
    o, g = rel.run_grads(prop, kw, fi, ws)
    n = [e[1] - e[0] + c["pml"][2 * d] + c["pml"][2 * d + 1] for d, e in enumerate(ext)]
    for k, v in o.items():
        if k.startswith("w:"):
            mon.check(list(v.shape[1:]) == n, f"area:{prop}", f"{k} has shape {tuple(v.shape)}, expected {n}")
    rel.compare(mon, o, oc, tol, f"crop:{prop}", rel.out_floor(prop, oc, c["dtype"]))
    reg = (Ellipsis,) + tuple(slice(*e) for e in ext)
    for k in fi:
        a = g[k]
        if k in ref.model_names(prop):
            out = a.clone()
            out[reg] = 0
            mon.check(bool((out == 0).all()), f"outside-grad:{prop}:{k}", "gradient outside the simulated area")
            a = a[reg]
        mon.close(a, gc[k], tol, f"crop-grad:{prop}:{k}", floor=fg(k))
    mon.count(f"kind:{c['kind']}")
    mon.count(f"prop:{prop}")
    small = any(e[1] - e[0] < s for e, s in zip(ext, c["shape"]))
    mon.count("cropped", small)
    if (small or c["kind"] == "equal") and any(bool((v != 0).any()) for v in oc.values()):
        mon.nontrivial(c["kind"])


def lastrow(c, mon):
    """A velocity receiver on the last row of the area, which has no PML there,
    must record what it records in a larger area (it is inside the model)."""
    prop, nd = c["prop"], c["ndim"]
    n = 12
    shape = [n] * nd
    t = ref.dims_of(nd)[0]
    kw = dict(grid_spacing=1.0, dt=0.2, accuracy=2, pml_width=0, _ndim=nd, max_vel=1.0)
    one = torch.ones(shape, dtype=torch.float64)
    if prop == "acoustic":
        kw.update(v=one, rho=one)
    else:
        kw.update(lamb=0.5 * one, mu=0.25 * one, buoyancy=one)
    mid = n // 2
    kw["source_locations_p"] = torch.tensor([[[mid - 2] + [mid] * (nd - 1)]])
    kw["source_amplitudes_p"] = torch.ones(1, 1, 12, dtype=torch.float64)
    kw[f"receiver_locations_{t}"] = torch.tensor([[[mid] + [mid] * (nd - 1)]])
    w, full = cases.call(prop, kw)
    w, r = cases.call(prop, kw, survey_pad=[None, 0] + [None] * (2 * nd - 2))
    mon.count("lastrow")
    mon.check(bool((r[t] != 0).any()) or not bool((full[t] != 0).any()), f"last-row:{prop}",
              "a velocity receiver on the last row of the selected area (no PML there) recorded only zeros")
