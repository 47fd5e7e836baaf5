"""Modules, argument forms and Python backends agree with the functions."""

import copy
import json
import os
import pickle
import tempfile
import warnings

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C19"
RULE = (
    "each random problem goes through the native function and through another interface: the Module (positional or keyword arguments in "
    "the published order, settings given at construction, with requires_grad flags, after dtype conversion and state_dict round trip), the function "
    "called positionally, with the published defaults left out, or a Python backend (eager, jit, torch.compile); outputs (bitwise for "
    "modules) and gradients agree; non-trivial: a non-zero output"
)
N = {"quick": 1200, "thorough": 50000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"kind:module": 300, "kind:positional": 100, "kind:eager": 200, "kind:jit": 60, "kind:defaults": 60, "kind:compile": 6, "copied": 40, "backend_gradients": 60}
KINDS = ["module", "eager", "module", "positional", "jit", "module", "eager", "defaults"]
SIG = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "signatures.json")))
FN = {"scalar": "scalar", "born": "scalar_born", "acoustic": "acoustic", "elastic": "elastic"}
MOD = {"scalar": "Scalar", "born": "ScalarBorn", "acoustic": "Acoustic", "elastic": "Elastic"}


def gen(rng, i, tier):
    kind = KINDS[(i + i // 8) % 8]
    o = {}
    if i < 8:
        # one torch.compile per worker (it takes seconds)
        kind = "compile"
        o.update(prop=cases.PROPS[i % 4], ndim=[1, 2, 3, 2, 2, 1, 2, 3][i] if tier == "thorough" else 1 + (i // 4), mgsi=1, step_ratio=1, dtype="double", nt=6, n_shots=2, ignore=0.4, wf="all", extract="none")
    if kind in ("eager", "jit"):
        o.update(mgsi=1, step_ratio=rng.choice([1, 1, 2]), wide=False, ignore=rng.choice([0.0, 0.4]))
        if kind == "jit":
            o.update(nt=rng.randint(1, 8))
    if kind == "defaults":
        nd = o["ndim"] = rng.choice([1, 2])
        o.update(pml=[20] * 2 * nd, acc=4, use_max_vel=False, freq_taper=0.0, time_pad=0.0, time_taper=False, mgsi=1, shape=[rng.randint(3, 8) for _ in range(nd)], nt=rng.randint(1, 10), n_shots=1, wide=False)
    c = cases.gen_case(rng, **o)
    c["kind"] = kind
    c["seed2"] = rng.randrange(1 << 30)
    return c


def run(c, mon):
    prop, kw = cases.materialise(c)
    if cases.last_row_outside(c, kw):
        raise Skip
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"jit": backend, "eager": backend, "compile": backend, "module": module, "positional": positional, "defaults": _defaults}[c["kind"]](c, prop, kw, mon)
    mon.count(f"kind:{c['kind']}")


def flat(prop, nd, out):
    w, r = cases.split(prop, nd, out)
    o = {f"w:{k}": v for k, v in w.items()}
    o.update({f"r:{k}": v for k, v in r.items() if v is not None})
    return o


def public(kw):
    return {k: v for k, v in kw.items() if not k.startswith("_")}


def same(mon, got, want, tag):
    if set(got) != set(want):
        mon.violate(f"{tag}:keys", f"{sorted(set(got) ^ set(want))}")
        return
    for k in want:
        mon.check(got[k].dtype == want[k].dtype and torch.equal(got[k], want[k]), f"{tag}:{k}", lambda: f"max difference {(got[k] - want[k]).abs().max() if got[k].shape == want[k].shape else (got[k].shape, want[k].shape)}")


# ------------------------------------------------------------ modules
def module(c, prop, kw, mon):
    import deepwave

    nd = c["ndim"]
    models = ref.model_names(prop)
    r = c["seed2"]
    flags = {m: bool((r >> i) & 1) for i, m in enumerate(models)}
    others = [k for k in cases.float_inputs(kw) if k not in models and (r >> 5) & 1]
    want_kw = rel.leaf(kw, others + [m for m in models if flags[m]])
    o = rel.outs(prop, want_kw)
    if any(bool((v != 0).any()) for v in o.values()):
        mon.nontrivial("module")
    got_kw = rel.leaf(kw, others)
    a = public(got_kw)
    init = {k: a.pop(k) for k in [*models, "grid_spacing"]}
    for m in models:
        if flags[m] or (r >> 9) & 1:
            init[f"{m}_requires_grad"] = flags[m]
    mode = ["device", "cpu", "disk", "none"][(r >> 10) % 4]
    if mode == "none" and any(flags.values()):
        mode = "device"
    folder = None
    if (r >> 12) & 1:
        init["storage_mode"] = mode
        if mode == "disk":
            folder = tempfile.mkdtemp(dir=os.environ.get("DWV_SCRATCH"))
            init["storage_path"] = folder
        if (r >> 13) & 1:
            init["storage_compression"] = False
    cls = getattr(deepwave, MOD[prop])
    order = SIG[MOD[prop] + ".__init__"]
    if (r >> 14) & 1:
        n = max(order.index(k) for k in init) + 1
        n = min(n, 1 + (r >> 15) % n)
        n = next((j for j in range(n) if order[j] not in init), n)
        m_ = cls(*[init[k] for k in order[:n]], **{k: v for k, v in init.items() if k not in order[:n]})
    else:
        m_ = cls(**init)
    ps = dict(m_.named_parameters())
    mon.check(set(ps) == set(models), "parameters", f"{sorted(ps)}")
    for k in models:
        mon.check(isinstance(ps.get(k), torch.nn.Parameter) and ps[k].requires_grad == flags[k], f"flag:{prop}:{k}", f"requires_grad {ps[k].requires_grad}, asked {flags[k]}")
        mon.check(torch.equal(ps[k].detach(), kw[k]) and ps[k].dtype == kw[k].dtype, f"parameter:{prop}:{k}", "the parameter is not the given model")
    how = (r >> 20) % 4
    if how == 1:
        # through a state_dict
        init2 = dict(init)
        for k in models:
            init2[k] = torch.zeros_like(kw[k])
        m2 = cls(**init2)
        m2.load_state_dict(m_.state_dict())
        m_ = m2
        mon.count("state_dict")
    elif how == 2:
        init2 = dict(init)
        other = torch.float32 if kw[models[0]].dtype == torch.float64 else torch.float64
        for k in models:
            init2[k] = torch.ones_like(kw[k], dtype=other)
        m2 = cls(**init2).to(kw[models[0]].dtype)
        with torch.no_grad():
            for k in models:
                getattr(m2, k).copy_(kw[k])
        m_ = m2
        mon.count("converted")
    elif how == 3:
        # copies are complete and independent
        m2 = copy.deepcopy(m_) if (r >> 22) & 1 else pickle.loads(pickle.dumps(m_))
        mon.check([(k, p.requires_grad) for k, p in m2.named_parameters()] == [(k, p.requires_grad) for k, p in m_.named_parameters()], f"copy-flags:{prop}", "")
        mon.check(not any(p.data_ptr() == q.data_ptr() for p, q in zip(m_.parameters(), m2.parameters())), f"copy-shares:{prop}", "")
        m_ = m2
        mon.count("copied")
    order = SIG[MOD[prop] + ".forward"]
    if (r >> 16) & 1:
        n = 1 + (r >> 17) % len(order)
        dflt = defaults()
        out = m_(*[a.get(k, dflt.get(k)) for k in order[:n]], **{k: v for k, v in a.items() if k not in order[:n]})
        mon.count("positional_forward")
    else:
        out = m_(**a)
    got = flat(prop, nd, out)
    same(mon, got, o, f"module:{prop}")
    ws = rel.weights(o, r)
    L, Lw = rel.dot(ws, got), rel.dot(ws, o)
    mon.check(L.requires_grad == Lw.requires_grad, f"graph:{prop}", f"{L.requires_grad} {Lw.requires_grad}")
    if Lw.requires_grad and L.requires_grad:
        if folder and any(flags.values()):
            seen = [f for _, _, fs in os.walk(folder) for f in fs]
            if c["nt"] > 0 and needs_storage(prop, flags):
                mon.count("disk_modules")
                mon.check(bool(seen), f"storage_path:{prop}", "storage_mode='disk' left no files in storage_path while the graph is alive")
        gw = rel.grads(Lw, want_kw, others + [m for m in models if flags[m]])
        for k in models:
            got_kw[k] = getattr(m_, k)
        g = rel.grads(L, got_kw, others + [m for m in models if flags[m]])
        for k in g:
            mon.check(torch.equal(g[k], gw[k]) or cases.err(g[k], gw[k], 1e-30) < 1e-6, f"module-gradient:{prop}:{k}", lambda: f"error {cases.err(g[k], gw[k])}")
        mon.count("module_gradients")
    del out, got, L, m_
    if folder:
        import gc

        gc.collect()
        os.rmdir(folder) if not os.listdir(folder) else None


def needs_storage(prop, flags):
    return any(flags.values())


def defaults():
    return {"accuracy": 4, "pml_width": 20, "model_gradient_sampling_interval": 1, "freq_taper_frac": 0.0, "time_pad_frac": 0.0, "time_taper": False,
            "callback_frequency": 1, "python_backend": False, "storage_mode": "device", "storage_path": ".", "storage_compression": False}


# ------------------------------------------------------------ argument forms
def positional(c, prop, kw, mon):
    import deepwave

    a = public(kw)
    order = SIG[FN[prop]]
    n = 1 + c["seed2"] % len(order)
    dflt = defaults()
    out = getattr(deepwave, FN[prop])(*[a.get(k, dflt.get(k)) for k in order[:n]], **{k: v for k, v in a.items() if k not in order[:n]})
    o = rel.outs(prop, kw)
    if any(bool((v != 0).any()) for v in o.values()):
        mon.nontrivial("positional")
    same(mon, flat(prop, c["ndim"], out), o, f"positional:{prop}")


def defaults_given(kw):
    q = dict(kw)
    q.update(defaults())
    q["pml_freq"] = 25.0
    return q


# ------------------------------------------------------------ backends
def backend(c, prop, kw, mon):
    mode = {"jit": ["jit", "JIT"], "eager": ["eager", "EAGER", "Eager"], "compile": ["compile", True]}[c["kind"]]
    mode = mode[c["seed2"] % len(mode)]
    names = cases.float_inputs(kw)
    o = rel.outs(prop, kw)
    if any(bool((v != 0).any()) for v in o.values()):
        mon.nontrivial("backend")
    q = rel.leaf(kw, names)
    e = rel.outs(prop, q, python_backend=mode)
    rel.compare(mon, {k: v.detach() for k, v in e.items()}, o, rel.rtol(c, 1e-10, 3e-4), f"{c['kind']}:{prop}", rel.out_floor(prop, o, c["dtype"]))
    h = kw["grid_spacing"]
    ratio = ref.cfl(h if isinstance(h, list) else [h] * c["ndim"], kw["dt"], rel.true_max_vel(prop, kw))[1]
    ws = rel.weights(o, c["seed2"])
    L = rel.dot(ws, e)
    if not L.requires_grad:
        return
    if ratio > 1 and prop != "scalar":
        names = [k for k in names if k not in ref.model_names(prop)]
    elif ratio > 1:
        names = [k for k in names if k != "v"]
    if not names:
        return
    ge = rel.grads(L, q, names)
    _, g = rel.run_grads(prop, kw, names, ws)
    fg = rel.group_floor(kw, g, c["dtype"])
    mon.count("backend_gradients")
    for k in names:
        if (c.get("zero_cells") or c.get("void") or c.get("fluid")) and k in ref.model_names(prop):
            continue
        mon.close(ge[k], g[k], rel.rtol(c, 1e-9, 3e-3), f"{c['kind']}-gradient:{prop}:{k}", floor=fg(k))


def _defaults(c, prop, kw, mon):
    for k in ("pml_freq", "max_vel"):
        kw.pop(k, None)
    kw["dt"] = abs(kw["dt"]) if abs(kw["dt"]) < 1e-2 else kw["dt"]
    full = defaults_given(kw)
    bare = {k: v for k, v in kw.items() if k not in ("accuracy", "pml_width")}
    full = {k: v for k, v in full.items()}
    o, b = rel.outs(prop, full), rel.outs(prop, bare)
    if any(bool((v != 0).any()) for v in o.values()):
        mon.nontrivial("defaults")
    same(mon, b, o, f"defaults:{prop}")


