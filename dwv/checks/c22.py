"""Propagators compose with PyTorch like any other operator."""

import random

import torch
import torch.utils.checkpoint as ckpt

from .. import cases, ref, rel
from ..harness import Skip

ID = "C22"
RULE = (
    "random problems run once plainly, then through random PyTorch programs: inputs and output gradients in other memory layouts "
    "(permuted, strided, offset, expanded, channels last), repeated backward, accumulation, subsets of inputs and outputs, "
    "activation checkpointing, grad-disabled and inference modes, saved-tensor hooks, anomaly mode, in-place changes after the call, "
    "differentiable operations and other propagators before and after; the Python backend in forward mode, vmapped, and mixed; "
    "outputs and gradients must equal the plain ones; non-trivial: a non-zero gradient was compared"
)
N = {"quick": 1600, "thorough": 40000}
CAP = {"quick": 300, "thorough": 2400}
NEED = {"layout": 200, "cotangent": 200, "repeat": 60, "accumulate": 60, "subset": 60, "checkpoint": 100, "modes": 60, "program": 60, "chain": 60, "inplace": 60, "forward_ad": 60, "vmap": 60}
KINDS = ["layout", "cotangent", "layout", "repeat", "accumulate", "subset", "checkpoint", "modes", "program", "chain", "inplace", "forward_ad", "vmap", "functional", "layout", "cotangent"]


def gen(rng, i, tier):
    kind = KINDS[(i // 4) % len(KINDS)]
    o = dict(prop=cases.PROPS[(i + i // 64) % 4], wide=False, mgsi=rng.choice([1, 1, 2]), tail=0.03)
    if kind in ("forward_ad", "vmap", "functional"):
        o.update(mgsi=1, ndim=rng.choice([1, 1, 2, 2, 3]), nt=rng.randint(2, 8), dtype="double", void=False, zero_cells=0, step_ratio=rng.choice([1, 1, 2]))
        if kind != "forward_ad":
            o["use_max_vel"] = True
    c = cases.gen_case(rng, **o)
    c["kind"] = kind
    c["storage"] = rng.choice(["device", "device", "cpu", "disk"])
    c["compress"] = rng.random() < 0.1
    c["backend"] = "eager" if kind in ("forward_ad", "vmap", "functional") else (rng.choice([False] * 5 + ["eager"]) if c["mgsi"] == 1 and c["step_ratio"] == 1 else False)
    if c["backend"]:
        c["storage"], c["compress"] = "device", False
    return c


# ------------------------------------------------------------ layouts
def relayout(x, how, rng):
    """A tensor of equal values (and autograd history) in other memory."""
    n = x.ndim
    if how == "permute" and n > 1:
        p = list(range(n))
        rng.shuffle(p)
        inv = [p.index(d) for d in range(n)]
        return x.permute(p).contiguous().permute(inv)
    if how == "stride" and n:
        d = rng.randrange(n)
        k = rng.choice([2, 3])
        y = torch.stack([x] + [torch.full_like(x, 7 if not x.is_floating_point() else float("nan"))] * (k - 1), d + 1)
        return y.select(d + 1, 0)
    if how == "offset" and n:
        pad = torch.full_like(x, 7 if not x.is_floating_point() else float("nan"))
        return torch.cat([pad, x, pad], 0)[x.shape[0]:2 * x.shape[0]]
    if how == "slice" and n:
        d = rng.randrange(n)
        pad = torch.full_like(x, 7 if not x.is_floating_point() else float("nan"))
        return torch.cat([pad, x, pad], d).narrow(d, x.shape[d], x.shape[d])
    if how == "last":
        if n == 4:
            return x.contiguous(memory_format=torch.channels_last)
        if n == 5:
            return x.contiguous(memory_format=torch.channels_last_3d)
        if n > 1:
            return x.movedim(0, -1).contiguous().movedim(-1, 0)
    if how == "expand" and n:
        # only where the values are constant along a dimension
        for d in range(n):
            if x.shape[d] > 1 and bool((x == x.narrow(d, 0, 1)).all()):
                # (a leaf of its own)
                y = x.detach().narrow(d, 0, 1).expand(x.shape)
                return y.requires_grad_() if x.requires_grad else y
    if how == "odd":
        # data pointer that is not aligned to the element's usual boundary of 16 or 32 bytes
        b = torch.empty(x.numel() + 3, dtype=x.dtype)
        return torch.cat([b[:1] * 0, x.reshape(-1)])[1:].view(x.shape)
    return x


HOWS = ["permute", "stride", "offset", "slice", "last", "expand", "odd"]


class P:
    """A problem with its plain results."""

    def __init__(self, c, mon):
        self.c, self.mon = c, mon
        prop, kw = cases.materialise(c)
        if cases.last_row_outside(c, kw):
            raise Skip
        self.prop, self.kw = prop, kw
        self.rng = random.Random(c["seed"] + 5)
        self.ex = dict(storage_mode=c["storage"], storage_compression=c["compress"])
        if c["storage"] == "disk":
            import os

            self.ex["storage_path"] = os.environ["DWV_SCRATCH"]
        if c["backend"]:
            self.ex = dict(python_backend=c["backend"])
        self.names = cases.float_inputs(kw)

    def plain(self, weights=None):
        kw = self.kw
        if weights is None:
            with torch.no_grad():
                o = rel.outs(self.prop, kw, **self.ex)
            self.ws = rel.weights(o, self.c["seed"])
        self.o, self.g = rel.run_grads(self.prop, kw, self.names, self.ws, **self.ex)
        self.fo = rel.out_floor(self.prop, self.o, self.c["dtype"])
        self.fg = rel.group_floor(kw, self.g, self.c["dtype"])
        self.tol = rel.rtol(self.c, 1e-11, 1e-4)
        if any(bool((x != 0).any()) for x in self.g.values()):
            self.mon.nontrivial(self.c["kind"])
        return self

    def call(self, kw, **more):
        return rel.outs(self.prop, kw, **{**self.ex, **more})

    def same_o(self, o, tag):
        rel.compare(self.mon, {k: v.detach() for k, v in o.items()}, self.o, self.tol * 0.1, f"out:{tag}:{self.prop}", self.fo)

    def same_g(self, g, tag, names=None, scale=1.0, tol=None):
        want = {k: self.g[k] * scale for k in (names or self.names)}
        rel.compare(self.mon, g, want, tol or self.tol, f"grad:{tag}:{self.prop}", self.fg)


# ------------------------------------------------------------ programs
def layout(p):
    rng = p.rng
    c = p.c
    # make some inputs constant along a dimension, so that they can be expanded
    for k in p.names:
        if rng.random() < 0.3 and p.kw[k].ndim and p.kw[k].shape[0] > 1:
            p.kw[k] = p.kw[k].narrow(0, 0, 1).expand(p.kw[k].shape).clone()
    p.plain()
    for _ in range(2):
        leaves = rel.leaf(p.kw, p.names)
        kw = dict(leaves)
        used = []
        for k, v in kw.items():
            if torch.is_tensor(v) and rng.random() < 0.7:
                how = rng.choice(HOWS)
                kw[k] = relayout(v, how, rng)
                if kw[k].is_leaf and kw[k].requires_grad:
                    leaves[k] = kw[k]
                if kw[k].stride() != v.stride() or kw[k].storage_offset():
                    used.append((k, how))
                    p.mon.count(f"layout:{how}")
        p.mon.count("layout", bool(used))
        o = p.call(kw)
        p.same_o(o, "layout")
        L = rel.dot(p.ws, o)
        if L.requires_grad:
            p.same_g(rel.grads(L, leaves, p.names), "layout")


def cotangent(p):
    rng = p.rng
    p.plain()
    for _ in range(2):
        kw = rel.leaf(p.kw, p.names)
        o = p.call(kw)
        keys = [k for k in o if o[k].requires_grad]
        if not keys:
            return
        use = [k for k in keys if rng.random() < 0.8] or keys
        ws = {}
        for k in use:
            ws[k] = p.ws[k].clone()
            if rng.random() < 0.4 and ws[k].shape[0]:
                d = rng.randrange(ws[k].ndim)
                ws[k] = ws[k].narrow(d, 0, 1).expand(ws[k].shape).clone()
        want = rel.grads(sum((o[k] * ws[k]).sum() for k in use), kw, p.names)
        p.mon.count("cotangent")
        cot = [relayout(ws[k], rng.choice(HOWS), rng) for k in use]
        kw = rel.leaf(p.kw, p.names)
        o = p.call(kw)
        gs = torch.autograd.grad([o[k] for k in use], [kw[k] for k in p.names], cot, allow_unused=True)
        g = {k: torch.zeros_like(kw[k]) if x is None else x for k, x in zip(p.names, gs)}
        rel.compare(p.mon, g, want, p.tol, f"grad:cotangent:{p.prop}", rel.group_floor(p.kw, want, p.c["dtype"]))


def repeat(p):
    p.plain()
    kw = rel.leaf(p.kw, p.names)
    o = p.call(kw)
    L = rel.dot(p.ws, o)
    if not L.requires_grad:
        return
    for n in range(3):
        gs = torch.autograd.grad(L, [kw[k] for k in p.names], allow_unused=True, retain_graph=True)
        p.same_g({k: torch.zeros_like(kw[k]) if x is None else x for k, x in zip(p.names, gs)}, f"repeat{n}")
        p.same_o(o, f"repeat{n}")
        p.mon.count("repeat")
    # another functional through the same graph, then the first again
    other = {k: w.flip(-1) * 3 for k, w in p.ws.items()}
    torch.autograd.grad(rel.dot(other, o), [kw[k] for k in p.names], allow_unused=True, retain_graph=True)
    p.same_g(rel.grads(L, kw, p.names), "repeat-other")
    # the values of the results still are what they were
    p.same_o(o, "repeat-end")
    # a freed graph says so
    try:
        torch.autograd.grad(L, [kw[k] for k in p.names], allow_unused=True)
        p.mon.violate("freed-graph", "backward through a freed graph did not raise")
    except RuntimeError:
        p.mon.count("freed")


def accumulate(p):
    rng = p.rng
    p.plain()
    kw = rel.leaf(p.kw, p.names)
    o = p.call(kw)
    keys = [k for k in o if o[k].requires_grad]
    if not keys:
        return
    p.mon.count("accumulate")
    # piece by piece into .grad
    rng.shuffle(keys)
    cut = rng.randint(0, len(keys))
    parts = [keys[:cut], keys[cut:]]
    for n, part in enumerate(parts):
        L = sum((p.ws[k] * o[k]).sum() for k in part)
        if torch.is_tensor(L):
            L.backward(retain_graph=n == 0)
    p.same_g({k: torch.zeros_like(kw[k]) if kw[k].grad is None else kw[k].grad for k in p.names}, "accumulate", tol=p.tol * 10)
    # two calls that share their inputs, one backward
    kw = rel.leaf(p.kw, p.names)
    L = rel.dot(p.ws, p.call(kw)) + 2 * rel.dot(p.ws, p.call(kw))
    L.backward()
    p.same_g({k: torch.zeros_like(kw[k]) if kw[k].grad is None else kw[k].grad for k in p.names}, "shared", scale=3.0)
    # zero_grad then again
    for k in p.names:
        kw[k].grad = None
    rel.dot(p.ws, p.call(kw)).backward()
    p.same_g({k: torch.zeros_like(kw[k]) if kw[k].grad is None else kw[k].grad for k in p.names}, "again")


def subset(p):
    rng = p.rng
    p.plain()
    for _ in range(3):
        names = [k for k in p.names if rng.random() < 0.4] or [rng.choice(p.names)]
        kw = rel.leaf(p.kw, names)
        o = p.call(kw)
        L = rel.dot(p.ws, o)
        if not L.requires_grad:
            p.mon.check(all(not bool((p.g[k].abs() > 1e3 * p.fg(k)).any()) for k in names), f"no-graph:{p.prop}", f"{names}")
            continue
        p.mon.count("subset")
        # gradients requested for part of those that require it
        ask = [k for k in names if rng.random() < 0.7] or names
        p.same_g(rel.grads(L, kw, ask), "subset", names=ask)


def checkpoint(p):
    rng = p.rng
    p.plain()
    for reentrant in (True, False):
        kw = rel.leaf(p.kw, p.names)
        fixed = {k: v for k, v in kw.items() if k not in p.names}

        def f(*xs):
            o = p.call({**fixed, **dict(zip(p.names, xs))})
            f.keys = list(o)
            return tuple(o.values())

        out = ckpt.checkpoint(f, *[kw[k] for k in p.names], use_reentrant=reentrant)
        o = dict(zip(f.keys, out))
        p.same_o(o, f"checkpoint{reentrant}")
        L = rel.dot(p.ws, o)
        if not L.requires_grad:
            p.mon.check(not any(bool((x != 0).any()) for x in p.g.values()), f"checkpoint-detached:{p.prop}")
            return
        p.mon.count("checkpoint")
        L.backward()
        p.same_g({k: torch.zeros_like(kw[k]) if kw[k].grad is None else kw[k].grad for k in p.names}, f"checkpoint{reentrant}")
    # the function itself as the checkpointed callable: its return value is what matters
    kw = rel.leaf(p.kw, p.names)
    a = {k: v for k, v in kw.items() if not k.startswith("_")}
    if rng.random() < 0.7:
        keys = [k for k in a if k in p.names]
        fn = cases.fn_of(p.prop)

        def g(*xs):
            return fn(**{**a, **dict(zip(keys, xs))}, **p.ex)

        out = ckpt.checkpoint(g, *[a[k] for k in keys], use_reentrant=True)
        w, r = cases.split(p.prop, p.c["ndim"], out)
        o = {f"w:{k}": v for k, v in w.items()}
        o.update({f"r:{k}": v for k, v in r.items() if v is not None})
        L = rel.dot(p.ws, o)
        p.mon.check(L.requires_grad, f"checkpoint-direct-detached:{p.prop}")
        if L.requires_grad:
            p.same_g(_acc(L, kw, p.names), "checkpoint-direct")
            p.mon.count("checkpoint")


def _acc(L, kw, names):
    L.backward()
    return {k: torch.zeros_like(kw[k]) if kw[k].grad is None else kw[k].grad for k in names}


def modes(p):
    rng = p.rng
    p.plain()
    kw = rel.leaf(p.kw, p.names)
    p.mon.count("modes")
    for name, cm in (("no_grad", torch.no_grad()), ("inference", torch.inference_mode()), ("set_grad", torch.set_grad_enabled(False))):
        with cm:
            o = p.call(kw)
        p.same_o(o, name)
        p.mon.check(not any(v.requires_grad for v in o.values()), f"requires-grad:{name}:{p.prop}")
    with torch.inference_mode():
        ki = {k: v.clone() if torch.is_tensor(v) else v for k, v in p.kw.items()}
        o = p.call(ki)
        p.same_o(o, "inference-inputs")
    # inference tensors outside of the mode
    o = p.call(ki)
    p.same_o(o, "inference-tensors")
    # nothing requires gradients
    o = p.call(p.kw)
    p.same_o(o, "no-requires-grad")
    p.mon.check(not any(v.requires_grad for v in o.values()), f"requires-grad:none:{p.prop}")
    # gradients enabled inside of a disabled region
    with torch.no_grad():
        with torch.enable_grad():
            o = p.call(kw)
    L = rel.dot(p.ws, o)
    if L.requires_grad:
        p.same_g(rel.grads(L, kw, p.names), "enable_grad")
        # hooks and checks of the autograd machinery
        kw = rel.leaf(p.kw, p.names)
        with torch.autograd.graph.save_on_cpu():
            o = p.call(kw)
        p.same_g(rel.grads(rel.dot(p.ws, o), kw, p.names), "save_on_cpu")
        kw = rel.leaf(p.kw, p.names)
        with torch.autograd.graph.saved_tensors_hooks(lambda x: x.detach().clone(), lambda x: x.clone()):
            o = p.call(kw)
        p.same_g(rel.grads(rel.dot(p.ws, o), kw, p.names), "saved_tensors_hooks")
        kw = rel.leaf(p.kw, p.names)
        with torch.autograd.detect_anomaly(check_nan=False):
            o = p.call(kw)
            p.same_g(rel.grads(rel.dot(p.ws, o), kw, p.names), "anomaly")
        # graph made inside, backward in a region without gradients
        kw = rel.leaf(p.kw, p.names)
        o = p.call(kw)
        L = rel.dot(p.ws, o)
        with torch.no_grad():
            p.same_g(rel.grads(L, kw, p.names), "backward-no-grad")
    if rng.random() < 0.5:
        # defaults of the process do not matter
        old = torch.get_default_dtype()
        try:
            torch.set_default_dtype(torch.float64 if p.c["dtype"] == "float" else torch.float32)
            kw = rel.leaf(p.kw, p.names)
            o = p.call(kw)
            p.same_o(o, "default-dtype")
            L = rel.dot(p.ws, o)
            if L.requires_grad:
                p.same_g(rel.grads(L, kw, p.names), "default-dtype")
        finally:
            torch.set_default_dtype(old)


def program(p):
    """Differentiable operations before and after."""
    rng = p.rng
    p.plain()
    gen = torch.Generator().manual_seed(p.c["seed"] + 9)
    params, kw, back = {}, dict(p.kw), {}
    for k in p.names:
        x = p.kw[k]
        how = rng.choice(["log", "scale", "sum", "index", "pad", "cast", "conv", "plain"])
        if how == "log" and bool((x > 0).all()):
            params[k] = x.log().requires_grad_()
            kw[k] = params[k].exp()
            back[k] = lambda g, x=x: g * x
        elif how == "scale":
            s = torch.rand(x.shape, generator=gen, dtype=torch.float64).to(x.dtype) + 0.5
            params[k] = (x / s).requires_grad_()
            kw[k] = params[k] * s
            back[k] = lambda g, s=s: g * s
        elif how == "sum" and x.ndim:
            y = torch.randn(x.shape, generator=gen, dtype=torch.float64).to(x.dtype) * x.abs().max()
            params[k] = torch.stack([x - y, y]).requires_grad_()
            kw[k] = params[k].sum(0)
            back[k] = lambda g: torch.stack([g, g])
        elif how == "index" and x.ndim:
            d = rng.randrange(x.ndim)
            perm = torch.randperm(x.shape[d], generator=gen)
            params[k] = x.index_select(d, perm.argsort()).requires_grad_()
            kw[k] = params[k].index_select(d, perm)
            back[k] = lambda g, d=d, perm=perm: g.index_select(d, perm.argsort())
        elif how == "pad" and x.ndim:
            params[k] = torch.cat([x, x[:1]], 0).requires_grad_()
            kw[k] = params[k][:-1]
            back[k] = lambda g: torch.cat([g, torch.zeros_like(g[:1])], 0)
        elif how == "cast" and x.dtype == torch.float32:
            params[k] = x.double().requires_grad_()
            kw[k] = params[k].float()
            back[k] = lambda g: g.double()
        elif how == "conv" and x.ndim:
            params[k] = x.flip(-1).requires_grad_()
            kw[k] = params[k].flip(-1).contiguous()
            back[k] = lambda g: g.flip(-1)
        else:
            params[k] = x.detach().clone().requires_grad_()
            kw[k] = torch.nn.Parameter(params[k].detach())
            params[k] = kw[k]
            back[k] = lambda g: g
    # the values the propagator really got
    p.kw = {k: v.detach() if torch.is_tensor(v) else v for k, v in kw.items()}
    p.plain(p.ws)
    o = p.call(kw)
    p.same_o(o, "program")
    # downstream: a nonlinear functional whose own derivative is known
    ws2, L = {}, 0.0
    for k in o:
        m = p.o[k].abs().max().item() if p.o[k].numel() else 0.0
        if m == 0:
            continue
        y = o[k] / m
        L = L + (p.ws[k] * m * (y + 0.3 * y * y.abs() + torch.sin(y))).sum()
        z = p.o[k] / m
        ws2[k] = p.ws[k] * (1 + 0.6 * z.abs() + torch.cos(z))
    if not torch.is_tensor(L) or not L.requires_grad:
        return
    p.mon.count("program")
    _, g = rel.run_grads(p.prop, p.kw, p.names, {k: ws2.get(k, w * 0) for k, w in p.ws.items()}, **p.ex)
    L.backward()
    got = {k: torch.zeros_like(params[k]) if params[k].grad is None else params[k].grad for k in p.names}
    want = {k: back[k](g[k]) for k in p.names}
    fl = rel.group_floor({k: params[k] for k in p.names}, want, p.c["dtype"])
    rel.compare(p.mon, got, want, p.tol * 10, f"grad:program:{p.prop}", fl)


def chain(p):
    """Results of one call are the inputs of the next, against the chain rule done by hand."""
    rng = p.rng
    nd = p.c["ndim"]
    names = ref.wavefield_names(p.prop, nd)
    p.plain()
    # second call: continue from the wavefields
    kw2 = {k: v for k, v in p.kw.items() if not k.startswith("survey_pad")}
    if p.c["extract"] != "none":
        raise Skip
    kwl = rel.leaf(p.kw, p.names)
    o1 = p.call(kwl)
    second = {k: v for k, v in kwl.items()}
    for k in names:
        second[k] = o1[f"w:{k}"]
    amp = rng.choice([None, "out"])
    ak = [k for k in p.kw if k.startswith("source_amplitudes")]
    rk = [k for k in o1 if k.startswith("r:")]
    pair = None
    if amp and ak and rk:
        # recorded data (nearly) always has another number of points: take the first
        a, r = rng.choice(ak), rng.choice(rk)
        m = p.o[r].abs().max().item()
        s = p.kw[a].abs().max().item() / m if m > 0 else 0.0
        n = p.kw[a].shape
        idx = torch.arange(n[1]) % p.o[r].shape[1]
        second[a] = o1[r][:, idx, :n[2]] * s
        pair = (a, r, idx, s, n[2])
    o2 = p.call(second)
    L = rel.dot(p.ws, o2) + 0.5 * rel.dot(p.ws, o1)
    if not L.requires_grad:
        return
    got = rel.grads(L, kwl, p.names)
    # by hand
    inp = {k: v.detach() if torch.is_tensor(v) else v for k, v in second.items()}
    n2 = list(dict.fromkeys(p.names + names))
    _, g2 = rel.run_grads(p.prop, inp, n2, p.ws, **p.ex)
    ws1 = {k: 0.5 * w for k, w in p.ws.items()}
    for k in names:
        ws1[f"w:{k}"] = ws1[f"w:{k}"] + g2[k]
    if pair:
        a, r, idx, s, nt = pair
        add = torch.zeros_like(p.o[r])
        add[..., :nt] = add[..., :nt].index_add(1, idx, g2[a] * s)
        ws1[r] = ws1[r] + add
    _, g1 = rel.run_grads(p.prop, p.kw, p.names, ws1, **p.ex)
    want = {}
    for k in p.names:
        direct = k in ref.model_names(p.prop) or (k.startswith("source_amplitudes") and not (pair and pair[0] == k))
        want[k] = g1[k] + (g2[k] if direct else 0)
    p.mon.count("chain")
    rel.compare(p.mon, got, want, p.tol * 20, f"grad:chain:{p.prop}", rel.group_floor(p.kw, want, p.c["dtype"]))


def inplace(p):
    """Changes of inputs and outputs after the call."""
    rng = p.rng
    p.plain()
    kw = rel.leaf(p.kw, p.names)
    # outputs changed in place: an ordinary operation on them
    mine = {k: (v * 1.0 if torch.is_tensor(v) and v.is_floating_point() else v) for k, v in kw.items()}
    o = p.call(mine)
    kind = rng.choice(["outputs", "inputs", "data"])
    p.mon.count("inplace")
    try:
        if kind == "outputs":
            for k in o:
                if o[k].requires_grad:
                    o[k].mul_(2.0)
            L = rel.dot(p.ws, o)
            if L.requires_grad:
                p.same_g(rel.grads(L, kw, p.names), "inplace-outputs", scale=2.0)
        elif kind == "inputs":
            k = rng.choice(p.names)
            with torch.no_grad():
                mine[k].add_(mine[k].abs().max() * 0.5 + 1)
            L = rel.dot(p.ws, o)
            if L.requires_grad:
                g = rel.grads(L, kw, p.names)
                p.mon.count("inplace_allowed")
                p.same_g(g, f"inplace-input:{k}")
        else:
            # locations and numpy-like changes of integer inputs
            ks = [k for k in mine if "locations" in k and torch.is_tensor(mine[k])]
            mine2 = dict(mine)
            for k in ks:
                mine2[k] = mine[k].clone()
            o = p.call(mine2)
            for k in ks:
                mine2[k].zero_()
            L = rel.dot(p.ws, o)
            if L.requires_grad:
                p.same_g(rel.grads(L, kw, p.names), "inplace-locations")
    except RuntimeError as e:
        # PyTorch may refuse
        p.mon.count("inplace_refused")
        ok = "modified by an inplace operation" in str(e) or "is a view and is being modified inplace" in str(e)
        p.mon.check(ok, f"inplace:{kind}:{p.prop}", str(e)[:400])


# ------------------------------------------------------------ Python backend
def tangents(p, names, seed):
    gen = torch.Generator().manual_seed(seed)
    return {k: torch.randn(p.kw[k].shape, generator=gen, dtype=torch.float64).to(p.kw[k].dtype) * (p.kw[k].abs().max().item() or 1.0) * 0.01 for k in names}


def forward_ad(p):
    """<w, J d> = <J^T w, d>, for all inputs, with dual numbers."""
    import torch.autograd.forward_ad as fwAD

    rng = p.rng
    if p.kw.get("max_vel") is None:
        p.kw["max_vel"] = rel.true_max_vel(p.prop, p.kw)
    p.plain()
    names = [k for k in p.names if rng.random() < 0.6] or p.names
    d = tangents(p, names, p.c["seed"] + 3)
    with fwAD.dual_level():
        kw = dict(p.kw)
        for k in names:
            kw[k] = fwAD.make_dual(p.kw[k], d[k])
        o = p.call(kw)
        jd, prim = {}, {}
        for k, v in o.items():
            a, b = fwAD.unpack_dual(v)
            prim[k] = a.detach().clone()
            jd[k] = torch.zeros_like(a) if b is None else b.clone()
    p.same_o(prim, "forward_ad")
    lhs = sum((p.ws[k] * jd[k]).sum().item() for k in p.ws)
    rhs = sum((p.g[k] * d[k]).sum().item() for k in names)
    size = sum((p.g[k] * d[k]).abs().sum().item() for k in names) + 1e-12 * sum((p.ws[k] * jd[k]).abs().sum().item() for k in p.ws)
    p.mon.count("forward_ad")
    p.mon.maximum("forward_ad", abs(lhs - rhs) / size if size else 0)
    p.mon.check(abs(lhs - rhs) <= 1e-9 * size, f"forward-mode:{p.prop}", f"{lhs} {rhs} {names}")


def functional(p):
    """torch.func transformations of the models: jvp, vjp, jacfwd over jacrev."""
    rng = p.rng
    p.plain()
    models = ref.model_names(p.prop)
    models = [k for k in models if rng.random() < 0.7] or models
    d = tangents(p, models, p.c["seed"] + 4)

    def f(*xs):
        return p.call({**p.kw, **dict(zip(models, xs))})

    xs = tuple(p.kw[k] for k in models)
    o, jd = torch.func.jvp(f, xs, tuple(d[k] for k in models))
    p.same_o(o, "func.jvp")
    o, pull = torch.func.vjp(f, *xs)
    p.same_o(o, "func.vjp")
    g = dict(zip(models, pull({k: p.ws[k] for k in o})))
    p.same_g(g, "func.vjp", names=models)
    lhs = sum((p.ws[k] * jd[k]).sum().item() for k in p.ws)
    rhs = sum((p.g[k] * d[k]).sum().item() for k in models)
    size = sum((p.g[k] * d[k]).abs().sum().item() for k in models) + 1e-12 * sum((p.ws[k] * jd[k]).abs().sum().item() for k in p.ws)
    p.mon.count("functional")
    p.mon.check(abs(lhs - rhs) <= 1e-9 * size, f"func.jvp:{p.prop}", f"{lhs} {rhs} {models}")
    # forward over reverse against reverse over reverse
    def loss(*xs):
        o = f(*xs)
        return sum((p.ws[k] * v + 0.5 * p.ws[k].abs() ** 2 * v * v).sum() for k, v in o.items())

    args = tuple(range(len(models)))
    _, hv = torch.func.jvp(lambda *a: torch.func.grad(loss, args)(*a), xs, tuple(d[k] for k in models))
    leaves = [x.detach().clone().requires_grad_() for x in xs]
    G = torch.autograd.grad(loss(*leaves), leaves, create_graph=True)
    s = sum((a * d[k]).sum() for a, k in zip(G, models))
    H = torch.autograd.grad(s, leaves, allow_unused=True)
    want = {k: torch.zeros_like(x) if h is None else h for k, x, h in zip(models, leaves, H)}
    rel.compare(p.mon, dict(zip(models, hv)), want, 1e-9, f"hessian:{p.prop}", rel.group_floor(p.kw, want, "double"))


def vmap(p):
    """vmap over models = one call after the other."""
    rng = p.rng
    p.plain()
    models = ref.model_names(p.prop)
    models = [k for k in models if rng.random() < 0.7] or models
    B = rng.randint(1, 3)
    gen = torch.Generator().manual_seed(p.c["seed"] + 6)
    batch = {k: torch.stack([p.kw[k] * (1 - 0.1 * torch.rand(p.kw[k].shape, generator=gen, dtype=torch.float64)) for _ in range(B)]) for k in models}
    dims = {k: rng.randrange(batch[k].ndim) for k in models}
    moved = [batch[k].movedim(0, dims[k]) for k in models]

    def f(*xs):
        return p.call({**p.kw, **dict(zip(models, xs))})

    def loss(*xs):
        o = f(*xs)
        return sum((p.ws[k] * v).sum() for k, v in o.items())

    in_dims = tuple(dims[k] for k in models)
    o = torch.func.vmap(f, in_dims=in_dims)(*moved)
    p.mon.count("vmap")
    # every variant of the operator must agree
    g = torch.func.vmap(torch.func.grad(loss, tuple(range(len(models)))), in_dims=in_dims)(*moved)
    for b in range(B):
        kw = {**p.kw, **{k: batch[k][b] for k in models}}
        ob, gb = rel.run_grads(p.prop, kw, models, p.ws, **p.ex)
        rel.compare(p.mon, {k: v[b] for k, v in o.items()}, ob, 1e-11, f"vmap:{p.prop}", rel.out_floor(p.prop, ob, "double"))
        rel.compare(p.mon, {k: x[b] for k, x in zip(models, g)}, gb, 1e-10, f"vmap-grad:{p.prop}", rel.group_floor(kw, gb, "double"))


def run(c, mon):
    p = P(c, mon)
    globals()[c["kind"]](p)
