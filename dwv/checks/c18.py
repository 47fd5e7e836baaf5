"""Different propagators agree where they model the same physics."""

import math

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C18"
RULE = (
    "exact: each random acoustic problem (all source and receiver types, initial fields, PML, cropping) is rewritten as an elastic one with "
    "zero shear modulus (or, in 1D, any shear modulus with the same P modulus): every output field, recording and gradient must agree; "
    "approximate: constant-density acoustic against scalar with the equivalent source in resolved media: recordings and velocity "
    "gradients agree within the dispersion of the chosen order; non-trivial: non-zero recordings or fields"
)
N = {"quick": 1100, "thorough": 60000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"kind:exact": 500, "kind:resolved": 30, "gradients": 500}


def gen(rng, i, tier):
    if (i + i // 8) % 16 == 15:
        nd = rng.choice([1, 2, 2, 3])
        c = cases.gen_case(rng, prop="acoustic", ndim=nd, dtype="double", pml=[14 if nd < 3 else 10] * 2 * nd, shape=[{1: 60, 2: 26, 3: 8}[nd] + rng.randint(0, 4) for _ in range(nd)],
                           step_ratio=rng.choice([1, 1, 2]), courant=round(rng.uniform(0.6, 0.95), 3), n_src={t: int(t == "p") for t in ["p", "z", "y", "x"]},
                           n_rec={t: 3 * int(t == "p") for t in ["p", "z", "y", "x"]}, wf="none", extract="none", mgsi=1, zero_cells=0, ignore=0.0, neg_dt=False,
                           freq_taper=0.0, time_pad=0.0, time_taper=False, hetero=0.0, n_shots=1, batched=[False, False], loc_dtype="long", wide=False)
        c["n_src"] = {t: n for t, n in c["n_src"].items() if t in ref.source_types("acoustic", nd)}
        c["n_rec"] = {t: n for t, n in c["n_rec"].items() if t in ref.source_types("acoustic", nd)}
        c["kind"] = "resolved"
        c["cells"] = rng.choice([10, 14])
        return c
    c = cases.gen_case(rng, prop="acoustic", mgsi=rng.choice([1, 1, 2, 3]), zero_cells=0, tail=0.05)
    c["kind"] = "exact"
    c["shear"] = c["ndim"] == 1 and rng.random() < 0.6
    c["seed2"] = rng.randrange(1 << 30)
    return c


def run(c, mon):
    globals()[c["kind"]](c, mon)
    mon.count(f"kind:{c['kind']}")


def exact(c, mon):
    prop, kw = cases.materialise(c)
    if cases.last_row_outside(c, kw):
        raise Skip
    nd, ns = c["ndim"], c["n_shots"]
    ds = ref.dims_of(nd)
    kw["max_vel"] = rel.true_max_vel(prop, kw)
    grow = kw["v"].ndim != kw["rho"].ndim
    names = cases.float_inputs(kw)
    kw = rel.leaf(kw, names)

    # ---- the same problem, elastic
    el = {k: v for k, v in kw.items() if k not in names}
    v, rho = kw["v"], kw["rho"]
    K = rho * v**2
    if c["shear"]:
        g = torch.Generator().manual_seed(c["seed2"])
        mu = (0.45 * torch.rand(K.shape, generator=g, dtype=torch.float64)).to(K.dtype) * K.detach()
    else:
        mu = torch.zeros_like(K.detach())
    el["lamb"] = K - 2 * mu
    el["mu"] = mu.clone().requires_grad_(c["seed2"] % 2 == 0)
    el["buoyancy"] = 1 / rho
    for d in ["p", *ds]:
        k = ref.amp_name(d)
        if k in kw:
            a = kw[k]
            if d == "p":
                loc = kw[ref.sloc_name("p")].long()
                ok = ref.active(loc)
                l = torch.where(ok[..., None], loc, torch.zeros_like(loc))
                Kb = K if K.ndim == nd + 1 else K.expand(ns, *K.shape)
                idx = tuple([torch.arange(ns)[:, None].expand(l.shape[:2]), *(l[..., j] for j in range(nd))])
                a = a * Kb[idx][..., None]
            el[k] = a
    for d in ds:
        for a, b, s in ((f"v{d}_0", f"v{d}_0", 1), (f"phi_{d}_0", f"m_v{d}{d}_0", 1), (f"psi_{d}_0", f"m_sigma{d}{d}{d}_0", -1), ("pressure_0", f"sigma{d}{d}_0", -1)):
            if a in kw:
                el[b] = s * kw[a]
    oa = rel.outs("acoustic", kw)
    oe = rel.outs("elastic", el)
    pairs = {}
    for d in ds:
        pairs[f"w:v{d}_0"] = (f"w:v{d}_0", 1)
        pairs[f"w:phi_{d}_0"] = (f"w:m_v{d}{d}_0", 1)
        pairs[f"w:psi_{d}_0"] = (f"w:m_sigma{d}{d}{d}_0", -1)
    pairs["w:pressure_0"] = (f"w:sigma{ds[0]}{ds[0]}_0", -1)
    for d in ["p", *ds]:
        if f"r:{d}" in oa:
            pairs[f"r:{d}"] = (f"r:{d}", 1)
        mon.check((f"r:{d}" in oa) == (f"r:{d}" in oe), "receivers", f"{sorted(oa)} {sorted(oe)}")
    tol = rel.rtol(c, 1e-10, 3e-4)
    da = {k: x.detach() for k, x in oa.items()}
    floor = rel.out_floor("acoustic", da, c["dtype"])
    for k, (m, s) in pairs.items():
        if m in oe:
            mon.close(s * oe[m], oa[k], tol, f"exact:{k}", floor=floor(k))
    for d in ds:
        mon.close(-oe[f"w:sigma{d}{d}_0"], oa["w:pressure_0"], tol, "exact:normal-stress", floor=floor("w:pressure_0"))
    for k in oe:
        n = k[2:]
        if n.startswith("sigma") and n[5] != n[6]:
            mon.check(bool((oe[k] == 0).all()), "shear-stress", f"{n} is not zero in a fluid")
    if any(bool((x != 0).any()) for x in da.values()):
        mon.nontrivial("exact")
    ws = rel.weights(da, c["seed2"])
    La = sum((ws[k] * oa[k]).sum() for k in pairs)
    Le = sum((ws[k] * s * oe[m]).sum() for k, (m, s) in pairs.items() if m in oe)
    if not (torch.is_tensor(La) and La.requires_grad and Le.requires_grad):
        return
    ga = rel.grads(La, kw, names)
    ge = rel.grads(Le, kw, names)
    fg = rel.group_floor(kw, ga, c["dtype"])
    mon.count("gradients")
    for k in names:
        mon.close(ge[k], ga[k], rel.rtol(c, 1e-9, 3e-3), f"exact-gradient:{k}", floor=fg(k))


def resolved(c, mon):
    """p_tt = v^2 (div grad p + rho da/dt) against u_tt = v^2 (div grad u - f)."""
    prop, kw = cases.materialise(c)
    nd = c["ndim"]
    h = kw["grid_spacing"]
    hm = h if isinstance(h, float) else max(h)
    g = torch.Generator().manual_seed(c["seed"] + 9)
    # smooth velocity, constant density
    v0, rho0 = kw["v"].max().item(), kw["rho"].max().item()
    x = [torch.linspace(0, 1, s, dtype=torch.float64) for s in c["shape"]]
    mesh = torch.meshgrid(*x, indexing="ij")
    ph = torch.rand(nd + 1, generator=g, dtype=torch.float64)
    bump = sum(torch.cos(2 * math.pi * (m + ph[i])) for i, m in enumerate(mesh)) / nd
    v = v0 * (1 + 0.08 * bump)
    kw["v"] = v
    kw["rho"] = torch.full_like(v, rho0)
    kw["max_vel"] = v0 * 1.08
    for k in list(kw):
        if "locations" in k:
            # away from the edges
            kw[k] = (kw[k] * 0.6).long() + torch.tensor([int(s * 0.2) for s in c["shape"]])
            kw[k] = unique(kw[k], c["shape"])
    f = v0 / hm / c["cells"]
    nt = int(max(c["shape"]) * hm / v0 / kw["dt"]) + int(2.4 / f / kw["dt"])
    t = torch.arange(nt, dtype=torch.float64) * kw["dt"] - 1.2 / f
    a = t * torch.exp(-((math.pi * f * t) ** 2)) * f
    aa = a.expand(1, 1, -1).clone()
    kw["pml_freq"] = f
    kw["source_amplitudes_p"] = aa
    kw.pop("nt", None)
    sc = {k: kw[k] for k in ("v", "grid_spacing", "dt", "max_vel", "accuracy", "pml_width", "pml_freq", "_ndim")}
    sc["source_locations"] = kw["source_locations_p"]
    sc["receiver_locations"] = kw["receiver_locations_p"]
    # band-limited derivative: the source acts half a sample later
    da = torch.fft.irfft(torch.fft.rfft(torch.nn.functional.pad(aa, (0, nt))) * (2j * math.pi * torch.fft.rfftfreq(2 * nt, kw["dt"], dtype=torch.float64)), n=2 * nt)[..., :nt]
    r = ref.cfl(h if isinstance(h, list) else [h] * nd, kw["dt"], kw["max_vel"])[1]
    # each acoustic amplitude acts at the end of half an internal step
    fr = torch.fft.rfftfreq(2 * nt, kw["dt"], dtype=torch.float64)
    sh = torch.exp(-2j * math.pi * fr * (kw["dt"] / r / 2))
    da = torch.fft.irfft(torch.fft.rfft(torch.nn.functional.pad(da, (0, nt))) * sh, n=2 * nt)[..., :nt]
    sc["source_amplitudes"] = -rho0 * da
    kq, sq = rel.leaf(kw, ["v"]), rel.leaf(sc, ["v"])
    oa, os_ = rel.outs("acoustic", kq), rel.outs("scalar", sq)
    p, u = oa["r:p"], os_["r:"]
    e = ((p - u).norm() / p.norm()).item()
    mon.nontrivial("resolved")
    key = f"resolved:order{c['acc']}:{c['cells']}"
    mon.maximum(key, e)
    mon.check(e <= LIMIT[c["acc"]], f"resolved:order{c['acc']}", f"recordings differ by {e:.3g} at {c['cells']} cells per wavelength")
    w = p.detach() / p.detach().norm() ** 2
    # the velocity gradient of the source term itself differs (K a against v^2 f): leave out the source cell
    gp = rel.grads((w * p).sum(), kq, ["v"])["v"]
    gu = rel.grads((w * u).sum(), sq, ["v"])["v"]
    keep = torch.ones_like(gp, dtype=torch.bool)
    for l in torch.cat([kw["source_locations_p"], kw["receiver_locations_p"]], 1)[0].tolist():
        sl = tuple(slice(max(0, q - 4), q + 5) for q in l)
        keep[sl] = False
    if keep.sum() > 4:
        a_, b_ = gp[keep], gu[keep]
        ge = ((a_ - b_).norm() / max(a_.norm().item(), 0.05 * gp.norm().item())).item()
        mon.maximum(f"resolved-gradient:order{c['acc']}:{c['cells']}", ge)
        mon.check(ge <= GLIMIT[c["acc"]], f"resolved-gradient:order{c['acc']}", f"velocity gradients differ by {ge:.3g}")


def unique(l, shape):
    out = []
    for q in l[0].tolist():
        while q in out:
            q = [(x + 1) % s if i == 0 else x for i, (x, s) in enumerate(zip(q, shape))]
        out.append(q)
    return torch.tensor([out])


LIMIT = dict.fromkeys([2, 4, 6, 8], 0.12)
GLIMIT = dict.fromkeys([2, 4, 6, 8], 0.3)
