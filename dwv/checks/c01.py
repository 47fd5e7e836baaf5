"""Memory safety, absence of undefined behaviour, no uninitialised data."""

import os

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C01"
RULE = (
    "random problems over every propagator, dimension, accuracy, precision, domain size (down to one cell), PML width (wider than the domain, zero per side), "
    "step ratio, sampling interval, storage mode, compression, thread count, callback chunking, extreme magnitudes, forward, backward and double backward. "
    "phase san: the library is rebuilt with AddressSanitizer and UBSan (reports end the worker). phase fill: fresh tensors are filled with NaN and fresh "
    "heap memory with a pattern, and results must be finite and bitwise the same as without; non-trivial: a backward pass over a non-zero wavefield"
)
N = {"quick": 900, "thorough": 60000}
NF = {"quick": 1100, "thorough": 60000}
CAP = {"quick": 300, "thorough": 5000}
NO_RELEASE = True
ENV = {"plain": {"MALLOC_PERTURB_": "128"}}
NEED = {"phase:san": 300, "phase:fill": 300, "backward": 400, "second": 30, "compressed": 100, "mode:disk": 50, "mode:cpu": 50, "mode:none": 50}
for _p in ("scalar", "born", "acoustic", "elastic"):
    for _n in "123":
        NEED[f"san:{_p}:{_n}"] = 8


def gen(rng, i, tier):
    wild = rng.random() < 0.5
    over = {}
    if wild:
        nd = cases.pick(rng, [1, 2, 3], [2, 4, 3])
        over["ndim"] = nd
        over["shape"] = [rng.choice([1, 1, 2, 3, 4, 5, 8, 9, rng.randint(1, {1: 40, 2: 20, 3: 12}[nd])]) for _ in range(nd)]
        pm = {1: 30, 2: 12, 3: 5}[nd]
        over["pml"] = [rng.choice([0, 1, 2, rng.randint(0, pm)]) for _ in range(2 * nd)]
    c = cases.gen_case(rng, dtype=cases.pick(rng, ["double", "float"]), mgsi=cases.pick(rng, [1, 2, 3, 5], [6, 2, 1, 1]), tail=0.04, **over)
    if c["prop"] in ("acoustic", "elastic"):
        c["shape"] = [max(x, 3) for x in c["shape"]] if rng.random() < 0.5 else [max(x, 2) for x in c["shape"]]
    c["phase"] = os.environ.get("DWV_PHASE", "san")
    c["mode"] = cases.pick(rng, ["device", "cpu", "disk", "none"], [4, 2, 2, 1])
    c["comp"] = rng.random() < 0.35
    c["threads"] = cases.pick(rng, [1, 2, 3, 8], [5, 2, 1, 1]) if c["phase"] == "san" else 1
    c["chunk"] = rng.choice([0, 0, 1, 2, 3])
    c["pow10"] = cases.pick(rng, [0, -20, -36, 15, -300, 60], [6, 2, 1, 2, 1, 1])
    c["second"] = c["prop"] == "scalar" and rng.random() < 0.5
    c["subset"] = rng.random() < 0.3
    c["frozen"] = rng.random() < 0.15
    c["all_ignored"] = rng.random() < 0.06
    c["big_shots"] = rng.random() < 0.05
    if c["big_shots"]:
        c["n_shots"] = rng.randint(9, 20)
    c["view"] = rng.random() < 0.2
    return c


def execute(c, prop, kw, names, mon):
    extra = dict(storage_mode=c["mode"], storage_compression=c["comp"], storage_path=os.environ.get("DWV_SCRATCH", "."))
    if c["chunk"]:
        cb = lambda st: None
        extra.update(forward_callback=cb, backward_callback=cb, callback_frequency=c["chunk"])
    kk = rel.leaf(kw, names)
    o = rel.outs(prop, kk, **extra)
    ws = {k: torch.randn(v.shape, generator=torch.Generator().manual_seed(c["seed"] + n), dtype=v.dtype) for n, (k, v) in enumerate(sorted(o.items()))}
    res = dict(o)
    L = rel.dot(ws, o)
    if c["mode"] == "none" or not torch.is_tensor(L) or not L.requires_grad:
        return {k: v.detach() for k, v in res.items()}
    mon.count("backward")
    if c["second"] and "v" in names:
        L = L + sum((ws[k] * v * v).sum() for k, v in o.items())
        G = torch.autograd.grad(L, [kk[k] for k in names], create_graph=True, allow_unused=True)
        for k, g in zip(names, G):
            if g is not None:
                res["g:" + k] = g
        H = sum((g * g.detach()).sum() for g in G if g is not None and g.requires_grad)
        if torch.is_tensor(H) and H.requires_grad:
            mon.count("second")
            for k, g in zip(names, torch.autograd.grad(H, [kk[k] for k in names], allow_unused=True)):
                if g is not None:
                    res["h:" + k] = g
    else:
        for k, g in rel.grads(L, kk, names).items():
            res["g:" + k] = g
    return {k: v.detach() for k, v in res.items()}


def run(c, mon):
    torch.set_num_threads(c["threads"])
    prop, kw = cases.materialise(c)
    if cases.last_row_outside(c, kw):
        raise Skip
    if c["all_ignored"]:
        for k in kw:
            if "locations" in k and torch.is_tensor(kw[k]):
                kw[k] = torch.full_like(kw[k], ref.IGNORE)
        kw.pop("survey_pad", None)
        if any(k in kw for k in ref.wavefield_names(prop, c["ndim"])) and c["extract"] == "pad":
            raise Skip
    names = cases.float_inputs(kw)
    for k in names:
        if k not in ref.model_names(prop):
            p = c["pow10"]
            if c["dtype"] == "float":
                p = max(min(p, 1 if c["second"] else 8), -36)
            # (fields that overflow are outside the property)
            elif c["second"]:
                p = min(p, 15)
            kw[k] = kw[k] * 10.0**p
    if c["view"]:
        # inputs that do not start at the beginning of their storage
        for k in names:
            flat = torch.empty(kw[k].numel() + 7, dtype=kw[k].dtype)
            v = flat[5 : 5 + kw[k].numel()].view(kw[k].shape)
            v.copy_(kw[k])
            kw[k] = v
    if c["subset"]:
        g = torch.Generator().manual_seed(c["seed"] + 2)
        names = [k for k in names if torch.rand(1, generator=g).item() < 0.5] or [ref.model_names(prop)[0]]
    if c["frozen"]:
        names = [k for k in names if k not in ref.model_names(prop)] or names
    if c["phase"] == "san" or c["mode"] == "none":
        a = execute(c, prop, kw, names, mon)
    else:
        # thread-local buffers etc. as they come, then filled with NaN
        a = execute(c, prop, kw, names, mon)
        torch.use_deterministic_algorithms(True, warn_only=True)
        torch.utils.deterministic.fill_uninitialized_memory = True
        try:
            b = execute(c, prop, kw, names, mon)
        finally:
            torch.use_deterministic_algorithms(False)
        mon.count("filled")
        for k in a:
            x, y = a[k], b[k]
            same = torch.equal(x.nan_to_num(7.5), y.nan_to_num(7.5))
            mon.check(same, f"uninitialised:{prop}:{k[:2]}", lambda: f"{k}: {int((x != y).sum())} values differ when fresh memory is filled with NaN")
    mon.count(f"phase:{c['phase']}")
    mon.count(f"{c['phase']}:{prop}:{c['ndim']}")
    mon.count(f"mode:{c['mode']}")
    mon.count("compressed", c["comp"])
    mon.count("threads>1", c["threads"] > 1)
    # quantities of moderate size must come out finite
    if abs(c["pow10"]) <= 20:
        for k, v in a.items():
            if not (k.startswith("h:") or (c["comp"] and k.startswith("g:") and c["dtype"] == "float" and c["pow10"])):
                mon.check(bool(torch.isfinite(v).all()) or c["dtype"] == "float" and c["pow10"] != 0, f"finite:{prop}:{k[:2]}", k)
    if any(bool((v != 0).any()) for k, v in a.items() if k[:2] in ("g:", "w:")):
        mon.nontrivial(prop, c["phase"])


def driver(ctx):
    mod = ctx.mod
    ctx.spawn("asan", mod.N[ctx.tier], cap=mod.CAP[ctx.tier], threads=1, DWV_PHASE="san")
    seed = ctx.seed
    ctx.seed += 500009
    ctx.spawn("plain", mod.NF[ctx.tier], cap=mod.CAP[ctx.tier], threads=1, DWV_PHASE="fill")
    if ctx.tier == "thorough":
        ctx.seed += 1
        ctx.spawn("release", mod.NF[ctx.tier] // 4, cap=mod.CAP[ctx.tier], threads=1, DWV_PHASE="fill")
    ctx.seed = seed
