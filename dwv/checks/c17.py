"""Born modelling is the exact linearisation of scalar modelling."""

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C17"
RULE = (
    "each random Born problem is run together with scalar runs of the same model: background outputs equal; for random functionals w, "
    "<w, scattered outputs> = <dL/dv, scatter> + <dL/d(initial fields), initial scattered fields> with dL the scalar gradient; scatter gradient = "
    "scalar velocity gradient; velocity gradient of the scattered data = scalar second derivative along scatter; linear in scatter, "
    "zero for zero scatter; non-trivial: non-zero scattered output"
)
N = {"quick": 2000, "thorough": 60000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"derivatives": 800, "second_derivatives": 150}


def gen(rng, i, tier):
    c = cases.gen_case(rng, prop="born", mgsi=1, tail=0.05, extract=rng.choice(["none", "none", "none", "origin"]), zero_cells=0,
                       dtype="double" if rng.random() < 0.85 else "float")
    c["seed2"] = rng.randrange(1 << 30)
    c["sc0"] = rng.random() < 0.5
    return c


def keep(L, q, names):
    gs = torch.autograd.grad(L, [q[k] for k in names], allow_unused=True, retain_graph=True)
    return {k: torch.zeros_like(q[k]) if g is None else g for k, g in zip(names, gs)}


def scalar_kw(c, kw, rec):
    s = {k: v for k, v in kw.items() if not ("_sc_" in k or "receiver" in k or k == "scatter")}
    r = kw.get({"bg": "bg_receiver_locations", "sc": "receiver_locations"}[rec])
    if r is not None:
        s["receiver_locations"] = r
    return s


def run(c, mon):
    prop, kw = cases.materialise(c)
    nd, ns = c["ndim"], c["n_shots"]
    if not c["sc0"]:
        kw = {k: v for k, v in kw.items() if "_sc_" not in k}
    # one model per shot on both sides unless neither is batched
    if kw["v"].ndim != kw["scatter"].ndim:
        for k in ("v", "scatter"):
            if kw[k].ndim == nd:
                kw[k] = kw[k].expand(ns, *kw[k].shape).contiguous()
    # the scatter potential is zero in the PML, where the velocity continues
    # that of the edge cells: those cells have no scalar counterpart
    inside = torch.ones(c["shape"], dtype=torch.bool)
    lo = kw.get("origin", [0] * nd)
    size = [s for s in c["shape"]]
    if "origin" in kw:
        wf = next(kw[n] for n in ref.wavefield_names("born", nd) if n in kw)
        size = [wf.shape[1 + d] - c["pml"][2 * d] - c["pml"][2 * d + 1] for d in range(nd)]
    for d in range(nd):
        if c["pml"][2 * d]:
            inside.select(d, lo[d]).fill_(False)
        if c["pml"][2 * d + 1]:
            inside.select(d, lo[d] + size[d] - 1).fill_(False)
    full_scatter = kw["scatter"]
    kw["scatter"] = kw["scatter"] * inside
    tol = rel.rtol(c, 1e-10, 1e-3)
    bg_names = [n for n in ref.wavefield_names("scalar", nd)]
    sc_names = [n[: -len("_0")] + "_sc_0" if n.endswith("_0") else n[: -len("_m1")] + "_sc_m1" for n in bg_names]
    names = ["v", "scatter"]
    q = rel.leaf(kw, names)
    o = rel.outs("born", q)
    # ---- background
    sb = rel.leaf(scalar_kw(c, kw, "bg"), ["v"])
    ob = rel.outs("scalar", sb)
    floor = rel.out_floor("born", {k: v.detach() for k, v in o.items()}, c["dtype"])
    for n in bg_names:
        mon.close(o[f"w:{n}"], ob[f"w:{n}"], tol, f"background:w:{n}", floor=floor(f"w:{n}"))
    mon.check(("r:bg" in o) == ("r:" in ob), "background:receivers", f"{sorted(o)} {sorted(ob)}")
    if "r:bg" in o and "r:" in ob:
        mon.close(o["r:bg"], ob["r:"], tol, "background:data", floor=floor("r:bg"))
    # ---- scattered: first derivative
    start = [n for n in bg_names]
    ss = scalar_kw(c, kw, "sc")
    tang = {}
    for n, m in zip(bg_names, sc_names):
        if m in kw:
            tang[n] = kw[m]
            if n not in ss:
                ss[n] = torch.zeros_like(kw[m])
    ss = rel.leaf(ss, ["v", *tang])
    os_ = rel.outs("scalar", ss)
    pairs = [(f"w:{m}", f"w:{n}") for n, m in zip(bg_names, sc_names)]
    if "r:" in o:
        mon.check("r:" in os_, "scattered:receivers", f"{sorted(os_)}")
        pairs.append(("r:", "r:"))
    if any(bool((o[a] != 0).any()) for a, _ in pairs):
        mon.nontrivial("born")
    g = torch.Generator().manual_seed(c["seed2"])
    h = kw["grid_spacing"]
    ratio = ref.cfl(h if isinstance(h, list) else [h] * nd, kw["dt"], rel.true_max_vel("born", kw))[1]
    if ratio == 1:
        adjoint(c, mon, o, os_, ss, kw, tang, pairs, floor, tol, g)
    elif c["dtype"] == "double":
        differences(c, mon, o, ss, kw, tang, pairs, floor)
    # ---- gradient with respect to scatter, and second derivative
    ws = rel.weights({a: o[a] for a, _ in pairs}, c["seed2"])
    Lb = sum((ws[a] * o[a]).sum() for a, _ in pairs)
    Ls = sum((ws[a] * os_[b]).sum() for a, b in pairs)
    if not Lb.requires_grad or not Ls.requires_grad:
        raise Skip
    want = torch.autograd.grad(Ls, ss["v"], create_graph=True)[0]
    gb = rel.grads(Lb, q, names)
    fg = rel.group_floor(kw, gb, c["dtype"])
    if c["seed2"] % 5 < 3:
        # the gradient of scatter alone
        qs = rel.leaf(kw, ["scatter"])
        osc = rel.outs("born", qs)
        gs = rel.grads(sum((ws[a] * osc[a]).sum() for a, _ in pairs), qs, ["scatter"])
        mon.count("scatter_only")
        mon.close(gs["scatter"] * inside, want.detach() * inside, max(tol, 1e-9), "scatter_gradient_alone", floor=max(fg("scatter"), 1e-30))
    mon.close(gb["scatter"] * inside, want.detach() * inside, max(tol, 1e-9), "scatter_gradient", floor=max(fg("scatter"), 1e-30))
    if c["dtype"] == "double" and not tang and want.requires_grad:
        hv = torch.autograd.grad((want * kw["scatter"]).sum(), ss["v"], allow_unused=True)[0]
        hv = torch.zeros_like(gb["v"]) if hv is None else hv
        mon.count("second_derivatives")
        mon.close(gb["v"], hv, 1e-8, "velocity_gradient_of_scattered", floor=max(fg("v"), 1e-30))
    # ---- linear in scatter
    if c["seed2"] % 2:
        zero = {k: v for k, v in kw.items() if "_sc_" not in k}
        oz = rel.outs("born", dict(zero, scatter=torch.zeros_like(kw["scatter"])))
        for a, _ in pairs:
            mon.check(bool((oz[a] == 0).all()), f"zero:{a}", "zero scatter scatters")
        s2 = torch.randn(kw["scatter"].shape, generator=g, dtype=torch.float64).to(kw["scatter"].dtype) * kw["scatter"].abs().max()
        o1 = rel.outs("born", dict(zero, scatter=full_scatter))
        o2 = rel.outs("born", dict(zero, scatter=s2))
        o3 = rel.outs("born", dict(zero, scatter=1.5 * full_scatter - 0.75 * s2))
        for a, _ in pairs:
            if o1[a].numel():
                f = max(o1[a].abs().max().item(), o2[a].abs().max().item(), floor(a), 1e-30)
                mon.close(o3[a], 1.5 * o1[a] - 0.75 * o2[a], rel.rtol(c, 1e-11, 2e-4), f"linear:{a}", floor=f)
        for k in oz:
            if "_sc_" not in k and k != "r:":
                mon.check(torch.equal(oz[k], o1[k]), f"background_depends_on_scatter:{k}", "the background changed with the scatter")


def adjoint(c, mon, o, os_, ss, kw, tang, pairs, floor, tol, g):
    """<w, scattered> against the scalar gradient (exact when every internal
    step contributes to it)."""
    single = c["seed2"] % 3 == 0
    for a, b in pairs:
        if not o[a].numel():
            continue
        w = torch.randn(o[a].shape, generator=g, dtype=torch.float64).to(o[a].dtype)
        if single:
            # one output sample only
            z = torch.zeros_like(w).reshape(-1)
            j = int(o[a].detach().abs().argmax()) if c["seed2"] % 2 else c["seed2"] % z.numel()
            z[j] = 1.0
            w = z.reshape(w.shape)
        L = (w * os_[b]).sum()
        gs = keep(L, ss, ["v", *tang]) if L.requires_grad else {k: torch.zeros_like(ss[k]) for k in ["v", *tang]}
        parts = [(gs["v"] * kw["scatter"])] + [gs[n] * tang[n] for n in tang]
        want = sum(p.double().sum() for p in parts)
        got = (w * o[a].detach()).double().sum()
        # cancellation: relative to the sum of magnitudes
        size = sum(p.double().abs().sum() for p in parts).item()
        size = max(size, (w * o[a].detach()).double().abs().sum().item(), floor(a) * w.abs().sum().item())
        mon.count("derivatives")
        if size > 1e-30:
            e = abs(got.item() - want.item()) / size
            mon.maximum("derivative_error", e)
            mon.check(e <= tol, f"derivative:{a}", f"<w,{a}> = {got.item():.9g} but the scalar derivative is {want.item():.9g} (size {size:.3g})")


def differences(c, mon, o, ss, kw, tang, pairs, floor):
    """Every scattered output against differences of scalar outputs."""
    kw = dict(kw)
    kw["max_vel"] = rel.true_max_vel("born", kw)
    base = {k: (v.detach() if torch.is_tensor(v) else v) for k, v in ss.items()}
    base["max_vel"] = kw["max_vel"]
    # tangents of very different sizes are separated by linearity
    e = 1e-3 * kw["v"].abs().max().item() / max(kw["scatter"].abs().max().item(), 1e-30)

    def at(t):
        q = dict(base, v=base["v"] + t * kw["scatter"])
        for n in tang:
            q[n] = base[n] + t * tang[n]
        return rel.outs("scalar", q)

    p1, m1, p2, m2 = at(e), at(-e), at(2 * e), at(-2 * e)
    p4, m4 = at(4 * e), at(-4 * e)
    for a, b in pairs:
        if not o[a].numel():
            continue
        d1, d2, d4 = (p1[b] - m1[b]) / (2 * e), (p2[b] - m2[b]) / (4 * e), (p4[b] - m4[b]) / (8 * e)
        r1, r2 = (4 * d1 - d2) / 3, (4 * d2 - d4) / 3
        r = (16 * r1 - r2) / 15
        est = (r - r1).abs().max().item()
        mon.count("derivatives")
        noise = 1e-13 * p1[b].abs().max().item() / e
        top = max(r.abs().max().item(), floor(a))
        if not (est + noise) < 1e-4 * top:
            mon.count("difference_unusable")
            continue
        d = (o[a].detach() - r).abs().max().item()
        if top > 1e-30:
            mon.maximum("difference_error", d / top)
            mon.check(d <= 3 * est + 10 * noise + 1e-9 * top, f"derivative:{a}", f"differs from the difference quotient by {d:.3g} (peak {top:.3g}, its error {est:.3g})")
