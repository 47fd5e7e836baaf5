"""Gradients equal the derivative of the forward map."""

import torch

from .. import cases, ref
from ..harness import Skip
from .c03 import tol_of

ID = "C04"
RULE = (
    "random problems as for C03, random linear functional of every output; the gradient with respect to every model, "
    "source amplitude and initial wavefield from backward() is compared with autograd through an independent float64 "
    "reference; non-trivial: some reference gradient is non-zero"
)
N = {"quick": 3200, "thorough": 90000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"comparisons": 5000, "prop:scalar": 100, "prop:born": 100, "prop:acoustic": 100, "prop:elastic": 100}


def gen(rng, i, tier):
    o = dict(mgsi=cases.interval(rng), tail=0.06)
    if rng.random() < (0.2 if tier == "thorough" else 0.03):
        o["wide"] = True
    elif rng.random() < 0.9:
        o["wide"] = False
    c = cases.gen_case(rng, **o)
    c["subset"] = rng.random() < 0.25
    c["partial_out"] = rng.random() < 0.3
    return c


def losses(c, W, R):
    return [*W.values(), *[x for x in R.values() if x is not None]]


def weights(c, outs):
    g = torch.Generator().manual_seed(c["seed"] + 1)
    ws = []
    for o in outs:
        w = torch.randn(o.shape, generator=g, dtype=torch.float64)
        m = o.detach().abs().max().item() if o.numel() else 0
        w = w / m if m > 1e-200 else w * 0
        if c.get("partial_out") and torch.rand(1, generator=g).item() < 0.5:
            w = w * 0
        ws.append(w)
    return ws


def run(c, mon):
    prop, kw = cases.materialise(c)
    if cases.last_row_outside(c, kw):
        raise Skip
    fi = cases.float_inputs(kw)
    if c.get("subset"):
        g = torch.Generator().manual_seed(c["seed"] + 2)
        fi = [k for k in fi if torch.rand(1, generator=g).item() < 0.5] or fi[:1]
    kd = cases.to_double(kw)
    for k in fi:
        kw[k] = kw[k].requires_grad_()
        kd[k].requires_grad_()
    W, R, info = ref.run(prop, kd)
    outs = losses(c, W, R)
    ws = weights(c, outs)
    L = sum((a * b).sum() for a, b in zip(ws, outs))
    if not L.requires_grad:
        raise Skip
    G = torch.autograd.grad(L, [kd[k] for k in fi], allow_unused=True)
    w, r = cases.call(prop, kw)
    o2 = losses(c, w, r)
    L2 = sum((a.to(b.dtype) * b).sum() for a, b in zip(ws, o2))
    if not mon.check(L2.requires_grad, f"detached:{prop}", "outputs do not require grad"):
        return
    G2 = torch.autograd.grad(L2, [kw[k] for k in fi], allow_unused=True)
    tol = tol_of(c)
    nz = 0
    # rounding in the loss, dimensionally converted to each gradient
    scale = max((a.abs().max() * kd[k].detach().abs().max()).item() for k, a in zip(fi, G) if a is not None and a.numel())
    rel = 1e-4 if c["dtype"] == "float" else 1e-6
    for k, a, b in zip(fi, G, G2):
        a = torch.zeros_like(kd[k]) if a is None else a
        if b is None:
            b = torch.zeros_like(kw[k])
        mon.close(b, a, tol, f"grad:{prop}:{k}", floor=max(1e-13, rel * scale / max(kd[k].detach().abs().max().item(), 1e-30)))
        nz += bool(a.abs().max() > 0)
    mon.count(f"prop:{prop}")
    mon.count("gradients", len(fi))
    if nz:
        mon.nontrivial(prop)
