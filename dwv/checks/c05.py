"""Second derivatives: exact for scalar, refused by the others."""

import torch

from .. import cases, ref, rel
from ..harness import Skip
from .c03 import tol_of

ID = "C05"
RULE = (
    "random scalar problems (as C03): gradient with create_graph, contracted with random directions and differentiated again, "
    "compared with the same derivative of an independent float64 reference; random problems of the other propagators: "
    "backward() of a gradient must raise; non-trivial: non-zero second derivative, or a refusal"
)
N = {"quick": 2400, "thorough": 60000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"second": 500, "refused": 100}


def gen(rng, i, tier):
    if i % 8 == 7:
        c = cases.gen_case(rng, prop=rng.choice(["born", "acoustic", "elastic"]), wide=False)
        c["kind"] = "refuse"
        c["which"] = rng.randrange(100)
        return c
    o = dict(prop="scalar", mgsi=cases.interval(rng), tail=0.06)
    o["wide"] = rng.random() < (0.2 if tier == "thorough" else 0.04)
    c = cases.gen_case(rng, **o)
    c["kind"] = "second"
    c["subset"] = rng.random() < 0.3
    c["storage"] = rng.choice([None, None, "device", "cpu", "disk"])
    c["first"] = rng.choice(["v", "all", "all"])
    return c


def run(c, mon):
    prop, kw = cases.materialise(c)
    fi = cases.float_inputs(kw)
    g = torch.Generator().manual_seed(c["seed"] + 5)
    if c["kind"] == "refuse":
        if cases.last_row_outside(c, kw):
            raise Skip
        # acoustic and elastic second derivatives in one dimension etc. alike
        kw = rel.leaf(kw, fi)
        o = rel.outs(prop, kw)
        L = sum((v**2).sum() for v in o.values())
        names = [k for k in fi if k in ref.model_names(prop)]
        gs = torch.autograd.grad(L, [kw[names[c["which"] % len(names)]]], create_graph=True, allow_unused=True)
        if gs[0] is None or not gs[0].requires_grad:
            # nothing that could be differentiated again: equally safe
            mon.count("no_graph")
            return
        try:
            (gs[0] ** 2).sum().backward()
        except RuntimeError:
            mon.count("refused")
            mon.nontrivial("refused")
            return
        mon.violate(f"not-refused:{prop}", "backward() through a gradient returned")
        return
    sub = fi
    if c["subset"]:
        sub = [k for k in fi if torch.rand(1, generator=g).item() < 0.5] or fi[:1]
    extra = {}
    if c["storage"]:
        extra["storage_mode"] = c["storage"]
    if c["storage"] == "disk":
        import os
        extra["storage_path"] = os.environ.get("DWV_SCRATCH", ".")
    kd = rel.leaf(cases.to_double(kw), sub)
    kw = rel.leaf(kw, sub)
    W, R, info = ref.run(prop, kd)
    O = {f"w:{k}": v for k, v in W.items()}
    O.update({f"r:{k}": v for k, v in R.items() if v is not None})
    ws = rel.weights(O, c["seed"])
    first = ["v"] if c["first"] == "v" and "v" in sub else sub

    def loss(oo):
        # quadratic so that the functional itself depends on the outputs
        return sum((ws[k].to(v.dtype) * v).sum() + 0.5 * (ws[k].to(v.dtype).abs() * v * v).sum() * s2[k] for k, v in oo.items())

    s2 = {}
    for k, v in O.items():
        m = v.detach().abs().max().item() if v.numel() else 0
        s2[k] = 1 / m if m > 1e-200 else 0.0
    dirs = {}
    for k in first:
        d = torch.randn(kd[k].shape, generator=g, dtype=torch.float64)
        dirs[k] = d * kd[k].detach().abs().max()
    # reference: directional derivative in every direction (the models vary
    # at every step), then the gradient (sampled at the requested interval)
    eps = torch.zeros((), dtype=torch.float64, requires_grad=True)
    kp = dict(kd)
    for k in first:
        if k != "v":
            kp[k] = kd[k] + eps * dirs[k]
    if "v" in first:
        kp["_tangent"] = {"v": eps * dirs["v"]}
    W, R, info = ref.run(prop, kp)
    L = loss({**{f"w:{k}": v for k, v in W.items()}, **{f"r:{k}": v for k, v in R.items() if v is not None}})
    if not L.requires_grad:
        raise Skip
    J = torch.autograd.grad(L, eps, create_graph=True, allow_unused=True)[0]
    if J is None or not J.requires_grad:
        H = {k: torch.zeros_like(kd[k]) for k in sub}
    else:
        H = rel.grads(J, kd, sub)
    L = loss(rel.outs(prop, kw, **extra))
    G = torch.autograd.grad(L, [kw[k] for k in first], create_graph=True, allow_unused=True)
    J = 0
    for k, gr in zip(first, G):
        if gr is not None and gr.requires_grad:
            J = J + (dirs[k].to(gr.dtype) * gr).sum()
    if not torch.is_tensor(J) or not J.requires_grad:
        h = {k: torch.zeros_like(kw[k]) for k in sub}
    else:
        h = rel.grads(J, kw, sub)
    fl = rel.group_floor(kd, H, c["dtype"])
    tol = tol_of(c)
    nz = 0
    for k in sub:
        mon.close(h[k], H[k], tol, f"second:{k}", floor=fl(k))
        nz += bool(H[k].abs().max() > 0)
    mon.count("second")
    if nz:
        mon.nontrivial("second")
