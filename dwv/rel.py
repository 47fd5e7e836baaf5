"""Helpers for checks that relate several runs of the code under test."""

import random

import torch

from . import cases, ref

SKIP_KEYS = ("locations",)


def outs(prop, kw, **extra):
    """Run; flat dict of outputs (missing receivers dropped)."""
    w, r = cases.call(prop, kw, **extra)
    o = {f"w:{k}": v for k, v in w.items()}
    o.update({f"r:{k}": v for k, v in r.items() if v is not None})
    return o


def weights(o, seed, scale=None):
    """Random functional of a dict of outputs (normalised per output)."""
    g = torch.Generator().manual_seed(seed + 77)
    ws = {}
    for k in sorted(o):
        w = torch.randn(o[k].shape, generator=g, dtype=torch.float64)
        m = o[k].detach().abs().max().item() if o[k].numel() else 0.0
        if scale is not None:
            m = scale.get(k, 0.0)
        ws[k] = (w / m if m > 1e-200 else w * 0).to(o[k].dtype)
    return ws


def dot(ws, o):
    return sum((ws[k] * o[k]).sum() for k in ws if k in o)


def leaf(kw, names):
    kw = dict(kw)
    for k in names:
        kw[k] = kw[k].detach().clone().requires_grad_()
    return kw


def grads(loss, kw, names):
    gs = torch.autograd.grad(loss, [kw[k] for k in names], allow_unused=True)
    return {k: (torch.zeros_like(kw[k]) if g is None else g) for k, g in zip(names, gs)}


def subset(prop, names, seed):
    """Which inputs require gradients: all, or a random selection."""
    r = random.Random(seed * 7919 + 13)
    models = [k for k in names if k in ref.model_names(prop)]
    rest = [k for k in names if k not in models]
    how = r.randrange(8)
    if how == 0 and models:
        out = models
    elif how == 1 and models:
        out = [r.choice(models)]
    elif how == 2 and rest:
        out = rest
    elif how == 3:
        out = [k for k in names if r.random() < 0.5]
    elif how == 4 and prop == "born":
        # none that the background depends on: a kernel of its own
        out = ["scatter"] + [k for k in names if "_sc_" in k and r.random() < 0.3]
        out = [k for k in names if k in out]
    else:
        out = names
    return list(out) or list(names)


def run_grads(prop, kw, names, ws, **extra):
    """-> (outputs, gradients of sum ws*outputs)."""
    kw = leaf(kw, names)
    o = outs(prop, kw, **extra)
    L = dot(ws, o)
    if not torch.is_tensor(L) or not L.requires_grad:
        return {k: v.detach() for k, v in o.items()}, {k: torch.zeros_like(kw[k]) for k in names}
    return {k: v.detach() for k, v in o.items()}, grads(L, kw, names)


def compare(mon, got, want, tol, tag, floor_of=None):
    """Compare dicts of tensors key by key."""
    if set(got) != set(want):
        mon.violate(f"{tag}:keys", f"{sorted(set(got) ^ set(want))}")
        return
    for k in want:
        mon.close(got[k], want[k], tol, f"{tag}:{k}", floor=1e-13 if floor_of is None else floor_of(k))


def group_floor(kw, g, dtype):
    """Rounding level of gradients g of inputs kw, in each one's own units."""
    s = [(g[k].abs().max() * kw[k].detach().abs().max()).item() for k in g if g[k].numel()]
    s = max(s) if s else 0.0
    rel = 1e-3 if dtype == "float" else 1e-5
    return lambda k: max(1e-30, rel * s / max(kw[k].detach().abs().max().item(), 1e-30)) if kw[k].numel() else 1e-30


def out_floor(prop, o, dtype):
    """Rounding level for outputs: relative to fields of the same kind."""
    def kind(k):
        n = k[2:]
        if k.startswith("r:"):
            n = {"": "wavefield_0", "bg": "wavefield_0", "p": "pressure_0"}.get(n, f"v{n}_0")
            if prop == "elastic" and k == "r:p":
                n = "sigmaxx_0"
        if n.startswith("wavefield"):
            return "u_sc" if "_sc" in n or (prop == "born" and k == "r:") else "u"
        if n.startswith(("psi", "zeta", "phi", "m_")):
            return n.split("_")[0] + ("sc" if "_sc" in n else "") + ("s" if "sigma" in n else "")
        return n[0]
    top = {}
    for k, v in o.items():
        if v.numel():
            top[kind(k)] = max(top.get(kind(k), 0.0), v.detach().abs().max().item())
    rel = 1e-3 if dtype == "float" else 1e-5
    return lambda k: max(1e-30, rel * top.get(kind(k), 0.0))


def rtol(c, double=1e-10, single=2e-4):
    return single if c["dtype"] == "float" else double


def shot_dim_inputs(prop, kw, ndim):
    """Names of keyword arguments whose first dimension is the shot."""
    names = []
    for k, v in kw.items():
        if not torch.is_tensor(v):
            continue
        if k in ref.model_names(prop):
            if v.ndim == ndim + 1:
                names.append(k)
        else:
            names.append(k)
    return names


def select_shots(prop, kw, idx, ndim):
    """Restrict a problem to the listed shots (any order)."""
    kw = dict(kw)
    for k in shot_dim_inputs(prop, kw, ndim):
        kw[k] = kw[k][idx]
    return kw


def true_max_vel(prop, kw):
    if kw.get("max_vel") is not None:
        return abs(kw["max_vel"])
    if prop == "elastic":
        vs2 = kw["mu"].double() * kw["buoyancy"].double()
        vp2 = kw["lamb"].double() * kw["buoyancy"].double() + 2 * vs2
        return max(vp2.abs().max().sqrt().item(), vs2.abs().max().sqrt().item())
    return kw["v"].abs().max().item()
