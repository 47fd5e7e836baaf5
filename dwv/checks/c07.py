"""Storage modes and compression do not change results."""

import os

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C07"
RULE = (
    "random problems, subsets of inputs requiring gradients, run with every storage mode with and without compression; outputs and "
    "uncompressed gradients must agree with device storage, compressed gradients must be within the quantisation error (also "
    "per shot and for fields of extreme magnitude) and the same for every mode; non-trivial: a non-zero model gradient"
)
N = {"quick": 1000, "thorough": 30000}
LIMIT = 0.15
CAP = {"quick": 300, "thorough": 3000}
NEED = {"mode:cpu": 300, "mode:disk": 300, "mode:none": 50, "compressed": 300, "compressed_judged": 150}


def gen(rng, i, tier):
    o = dict(mgsi=cases.interval(rng), tail=0.05, wide=rng.random() < 0.1)
    o["prop"] = cases.PROPS[i % 4]
    two = False
    if rng.random() < 0.6:
        # dense wavefields and longer runs: compressed gradients worth judging
        nd = o["ndim"] = rng.choice([1, 2, 2, 3])
        o["nt"] = rng.randint(12, 30)
        o["wf"] = "all"
        o["extract"] = "none"
        o["shape"] = [rng.randint(*{1: (10, 60), 2: (8, 24), 3: (5, 10)}[nd]) for _ in range(nd)]
        o["hetero"] = rng.choice([0.2, 0.4])
        o["n_src"] = {}
        o["zero_cells"] = 0
        o["void"] = o["fluid"] = False
        w = rng.choice([0, 0, 3, 4])
        o["pml"] = [w] * 2 * nd
        o["step_ratio"] = rng.choice([1, 1, 2])
        two = rng.random() < 0.3
        if two:
            o["shape"] = {1: [170], 2: [6, 150], 3: [4, 4, 130]}[nd]
            o["nt"] = rng.randint(8, 14)
            o["mgsi"] = 1
            o["step_ratio"] = 1
            o["n_shots"] = rng.choice([1, 2])
    c = cases.gen_case(rng, **o)
    c["two"] = two
    c["dense"] = "n_src" in o
    c["subset"] = rng.random() < 0.5
    c["double"] = rng.random() < 0.5
    # amplitude of everything that drives the waves, as a power of two
    c["pow2"] = rng.choice([0, 0, 0, 20, -40, 40]) if c["dtype"] == "float" else rng.choice([0, 0, 0, 60, -90, 300, -300])
    c["shotscale"] = rng.random() < 0.3
    return c


def run(c, mon):
    prop, kw = cases.materialise(c)
    if cases.last_row_outside(c, kw):
        raise Skip
    nd = c["ndim"]
    if c["dense"]:
        kw = {k: v for k, v in kw.items() if not k.startswith(("psi", "zeta", "phi", "m_"))}
    fi = cases.float_inputs(kw)
    drive = [k for k in fi if k not in ref.model_names(prop)]
    for k in drive:
        kw[k] = kw[k] * 2.0 ** c["pow2"]
        if c["two"]:
            n = kw[k].shape[-1]
            kw[k] = kw[k] * torch.where(torch.arange(n) < n // 2, 1.0, 1e-5).to(kw[k].dtype)
        if c["shotscale"]:
            s = 10.0 ** (3 * (torch.arange(c["n_shots"]) % 2).to(kw[k].dtype))
            kw[k] = kw[k] * s.reshape(-1, *[1] * (kw[k].ndim - 1))
    names = list(fi)
    if c["subset"]:
        g = torch.Generator().manual_seed(c["seed"] + 2)
        names = [k for k in fi if torch.rand(1, generator=g).item() < 0.5] or [ref.model_names(prop)[0]]
    if c["shotscale"]:
        # gradients per shot need models per shot
        for k in ref.model_names(prop):
            if kw[k].ndim == nd:
                kw[k] = kw[k].expand(c["n_shots"], *kw[k].shape).contiguous()
    scratch = os.environ.get("DWV_SCRATCH", ".")
    base = dict(storage_path=scratch)
    o0 = rel.outs(prop, kw)
    ws = rel.weights(o0, c["seed"])
    if c["dense"]:
        # an adjoint field that fills the domain as well
        for k in ws:
            if k.startswith(("w:psi", "w:zeta", "w:phi", "w:m_")):
                ws[k] = ws[k] * 0
    ref_o, ref_g = rel.run_grads(prop, kw, names, ws, storage_mode="device", **base)
    tol = rel.rtol(c, 1e-12, 1e-5)
    fo = rel.out_floor(prop, ref_o, c["dtype"])
    fg = rel.group_floor(kw, ref_g, c["dtype"])
    rel.compare(mon, ref_o, o0, tol, f"device:{prop}", fo)
    cg = None
    for mode in ("device", "cpu", "disk"):
        for comp in (False, True):
            if mode == "device" and not comp:
                continue
            # the model parameters determine what is stored
            o, g = rel.run_grads(prop, kw, names, ws, storage_mode=mode, storage_compression=comp, **base)
            rel.compare(mon, o, ref_o, tol, f"out:{prop}:{mode}", fo)
            mon.count(f"mode:{mode}")
            if not comp:
                rel.compare(mon, g, ref_g, tol, f"grad:{prop}:{mode}", fg)
                continue
            mon.count("compressed")
            if cg is None:
                cg = g
                judge(c, prop, kw, g, ref_g, names, mon)
            else:
                rel.compare(mon, g, cg, rel.rtol(c, 1e-9, 1e-3), f"compressed:{prop}:{mode}", fg)
    nomodel = [k for k in names if k not in ref.model_names(prop)]
    with torch.no_grad():
        o = rel.outs(prop, kw, storage_mode="none", **base)
    rel.compare(mon, o, ref_o, tol, f"out:{prop}:none", fo)
    mon.count("mode:none")
    if c["double"] and prop == "scalar" and "v" in names:
        second(c, prop, kw, names, ws, base, mon)
    if any(bool((ref_g[k] != 0).any()) for k in names if k in ref.model_names(prop)):
        mon.nontrivial(prop)


def judge(c, prop, kw, g, want, names, mon):
    """Compressed gradients. Quantisation is within 1/254 of the largest value
    of each small block in every stored step, so for wavefields that fill the
    domain the error stays at about a per cent of the gradient's norm."""
    for k in names:
        if k not in ref.model_names(prop):
            # not derived from stored quantities
            mon.close(g[k], want[k], rel.rtol(c, 1e-10, 2e-4), f"compressed:{prop}:{k}", floor=rel.group_floor(kw, want, c["dtype"])(k))
            continue
        a, b = g[k].double(), want[k].double()
        n = c["n_shots"] if c["shotscale"] else 1
        parts = [(a, b)]
        if c["two"]:
            parts = [(a[..., :40], b[..., :40]), (a[..., -40:], b[..., -40:])]
        for x, y in parts:
            x, y = x.reshape(n, -1), y.reshape(n, -1)
            for s in range(n):
                nb = y[s].norm().item()
                if nb == 0 or not c["dense"]:
                    mon.check(bool(torch.isfinite(x[s]).all()), f"compressed-finite:{prop}:{k}")
                    continue
                e = (x[s] - y[s]).norm().item() / nb
                mon.count("compressed_judged")
                mon.maximum(f"compressed_error:{prop}:{k}", e if e == e else 1e9)
                mon.check(e < LIMIT, f"compressed-error:{prop}:{k}", f"relative L2 error {e:.3g} in shot {s}")


def second(c, prop, kw, names, ws, base, mon):
    res = {}
    for mode in ("device", "cpu", "disk"):
        kk = rel.leaf(kw, names)
        L = sum((ws[k] * v).sum() + (ws[k].abs() * ws[k].abs() * v * v).sum() for k, v in rel.outs(prop, kk, storage_mode=mode, **base).items())
        if not L.requires_grad:
            return
        G = torch.autograd.grad(L, kk["v"], create_graph=True, allow_unused=True)[0]
        if G is None or not G.requires_grad:
            return
        res[mode] = rel.grads((G * kk["v"].detach()).sum(), kk, names)
    fg = rel.group_floor(kw, res["device"], c["dtype"])
    for mode in ("cpu", "disk"):
        rel.compare(mon, res[mode], res["device"], rel.rtol(c, 1e-11, 2e-4), f"second:{mode}", fg)
    mon.count("second")
