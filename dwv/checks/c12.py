"""No side effects, no hidden state: histories of calls, threads, repetition."""

import copy
import hashlib
import json
import locale
import os
import random
import signal
import threading
import warnings

import numpy as np
import torch

from .. import cases, harness, ref, rel
from ..harness import Skip

ID = "C12"
MODELS = ("v", "rho", "scatter", "lamb", "mu", "buoyancy")
RULE = (
    "random calls (all propagators, storage modes, compression, native and eager backends) monitored for changes to their inputs "
    "(values, version counters, lists), shared memory, process-wide state (generators, torch/numpy settings, signals, cwd, "
    "environment, descriptors, threads, files, denormal mode); repeated after other calls, with interleaved graphs, repeated backward and concurrent "
    "Python threads; digests of every result are compared bit for bit between processes that ran the calls (among them neighbours that differ in one argument) in different orders, with and "
    "without poisoned memory; non-trivial: a non-zero output"
)
N = {"quick": 560, "thorough": 16000}
CAP = {"quick": 300, "thorough": 2400}
NEED = {"concurrent_calls": 200, "digests_compared": 300, "neighbours": 200, "interleaved": 100, "poisoned": 100, "overwritten": 60}


def gen(rng, i, tier):
    def one(j):
        o = dict(mgsi=rng.choice([1, 1, 2]), tail=0.03, prop=cases.PROPS[(i + j) % 4], wide=rng.random() < 0.05)
        if rng.random() < 0.3:
            # nothing to reorder or resample: views of the inputs all the way
            nd = rng.randint(1, 3)
            o.update(ndim=nd, n_shots=1, step_ratio=1, n_src={t: int(rng.random() < 0.8) for t in ref.source_types(o["prop"], nd)}, ignore=0.0,
                     freq_taper=0.0, time_pad=0.0, time_taper=False, dtype="double", neg_dt=False)
            o["n_src"][ref.source_types(o["prop"], nd)[-1]] = 1
        c = cases.gen_case(rng, **o)
        c["grad"] = rng.random() < 0.75
        c["storage"] = rng.choice(["device", "cpu", "disk", "none"])
        c["compress"] = rng.random() < 0.25
        c["backend"] = "eager" if rng.random() < 0.15 and c["ndim"] < 3 else False
        return c

    calls = [one(j) for j in range(3)]
    if rng.random() < 0.55:
        # neighbours: the same call with one thing changed
        for j in (1, 2):
            calls[j] = dict(calls[0], mut=rng.choice(MUT), mseed=rng.randrange(1 << 30))
    c = dict(calls=calls, n_threads=rng.choice([2, 3, 4]), seed=rng.randrange(1 << 30),
             callback=rng.random() < 0.2, kind=rng.choice(["threads", "interleave", "repeat"]))
    c["default_dtype"] = harness.default_dtype(c["seed"])
    return c


MUT = ["dt", "neg", "h", "h", "pml_freq", "max_vel", "model", "model", "amp", "sloc", "rloc", "mgsi", "taper", "pml", "pml", "accuracy", "dtype", "wf"]


def mutate(c, kw):
    """One thing about the call changed."""
    m, rng = c["mut"], random.Random(c["mseed"])
    kw = dict(kw)

    def some(f):
        k = [k for k in sorted(kw) if f(k) and torch.is_tensor(kw[k])]
        return rng.choice(k) if k else None

    k = None
    if m == "dt":
        kw["dt"] = kw["dt"] * 0.97
    elif m == "neg":
        kw["dt"] = -kw["dt"]
    elif m == "h":
        h = kw["grid_spacing"]
        if isinstance(h, list):
            h = list(h)
            h[rng.randrange(len(h))] *= 1.05
            kw["grid_spacing"] = h
        else:
            kw["grid_spacing"] = h * 1.05
    elif m == "pml_freq":
        kw["pml_freq"] = kw["pml_freq"] * 1.3
    elif m == "max_vel":
        kw["max_vel"] = kw["max_vel"] * 1.01 if kw["max_vel"] is not None else c["v0"] * (1 + c["hetero"]) * 1.01
    elif m == "model":
        k = some(lambda k: k in MODELS)
        # the same sizes, the same sum
        kw[k] = kw[k].flip(-1) if rng.random() < 0.5 else kw[k] * 0.999
    elif m == "amp":
        k = some(lambda k: k.startswith("source_amplitudes"))
        if k:
            kw[k] = kw[k].flip(-1)
    elif m in ("sloc", "rloc"):
        k = some(lambda k: k.startswith("source_locations" if m == "sloc" else "receiver_locations"))
        if k:
            kw[k] = kw[k].flip(1)
    elif m == "mgsi":
        kw["model_gradient_sampling_interval"] = 3 - kw.get("model_gradient_sampling_interval", 1)
    elif m == "taper":
        j = rng.choice(["freq_taper_frac", "time_pad_frac", "time_taper"])
        if j == "time_taper":
            kw[j] = not kw.get(j, False)
        else:
            kw[j] = 0.0 if kw.get(j, 0.0) else 0.2
    elif m == "pml":
        # the total per dimension, and so the sizes of everything, stay the same
        p = list(kw["pml_width"])
        d = rng.randrange(len(p) // 2)
        if p[2 * d] != p[2 * d + 1]:
            p[2 * d], p[2 * d + 1] = p[2 * d + 1], p[2 * d]
        elif p[2 * d]:
            p[2 * d], p[2 * d + 1] = p[2 * d] - 1, p[2 * d + 1] + 1
        kw["pml_width"] = p
    elif m == "accuracy":
        kw["accuracy"] = rng.choice([a for a in (2, 4, 6, 8) if a != kw["accuracy"]])
    elif m == "dtype":
        for k in list(kw):
            if torch.is_tensor(kw[k]) and kw[k].is_floating_point():
                kw[k] = kw[k].to(torch.float32 if kw[k].dtype == torch.float64 else torch.float64)
    elif m == "wf":
        k = some(lambda k: k in ref.wavefield_names(c["prop"], c["ndim"]))
        if k:
            kw[k] = kw[k] * 1.5
    return kw


def extra_of(c):
    e = dict(storage_mode=c["storage"], storage_compression=c["compress"])
    if c["storage"] == "disk":
        e["storage_path"] = os.environ["DWV_SCRATCH"]
    if c["backend"]:
        e = dict(python_backend="eager")
    return e


class Problem:
    """One call with its inputs; runs forward and backward from fresh leaves."""

    def __init__(self, c):
        self.c = c
        self.prop, self.kw = cases.materialise(c)
        if "mut" in c:
            self.kw = mutate(c, self.kw)
        self.fi = rel.subset(self.prop, cases.float_inputs(self.kw), c["seed"]) if c["grad"] else []
        self.ex = extra_of(c)
        self.ws = None

    def forward(self):
        kw = rel.leaf(self.kw, self.fi)
        o = rel.outs(self.prop, kw, **self.ex)
        if self.ws is None:
            self.ws = rel.weights({k: v.detach() for k, v in o.items()}, self.c["seed"])
        return kw, o

    def backward(self, kw, o, retain=False):
        L = rel.dot(self.ws, o)
        if not torch.is_tensor(L) or not L.requires_grad:
            return {}
        gs = torch.autograd.grad(L, [kw[k] for k in self.fi], allow_unused=True, retain_graph=retain)
        return {k: g for k, g in zip(self.fi, gs) if g is not None}

    def full(self):
        kw, o = self.forward()
        g = self.backward(kw, o)
        return {**{k: v.detach().clone() for k, v in o.items()}, **{f"g:{k}": v.clone() for k, v in g.items()}}


def same(a, b):
    if set(a) != set(b):
        return f"keys {sorted(set(a) ^ set(b))}"
    for k in a:
        x, y = a[k].contiguous(), b[k].contiguous()
        if x.shape != y.shape or x.dtype != y.dtype:
            return f"{k}: {x.shape} {y.shape}"
        if not torch.equal(x, y):
            if torch.equal(torch.isnan(x), torch.isnan(y)) and torch.equal(torch.nan_to_num(x), torch.nan_to_num(y)):
                continue
            return f"{k}: max difference {(x.double() - y.double()).abs().max().item():.3g}"
    return None


def digest(r):
    h = hashlib.blake2b(digest_size=12)
    for k in sorted(r):
        h.update(k.encode())
        h.update((r[k] + 0.0).contiguous().numpy().tobytes())
    return h.hexdigest()


def process_state():
    sig = {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGXFSZ, signal.SIGPIPE, signal.SIGFPE, signal.SIGSEGV)}
    tiny = torch.tensor([5e-324, 1e-310], dtype=torch.float64) * 0.5 + torch.tensor([0.0, 1e-312], dtype=torch.float64)
    return dict(
        torch_rng=torch.get_rng_state().numpy().tobytes(), numpy_rng=repr(np.random.get_state()), python_rng=repr(random.getstate()),
        default_dtype=torch.get_default_dtype(), grad=torch.is_grad_enabled(), inference=torch.is_inference_mode_enabled(),
        threads=torch.get_num_threads(), interop=torch.get_num_interop_threads(), det=torch.are_deterministic_algorithms_enabled(),
        device=str(torch.get_default_device()), anomaly=torch.is_anomaly_enabled(),
        matmul=torch.get_float32_matmul_precision(), numpy_err=repr(np.geterr()), cwd=os.getcwd(), env=dict(os.environ),
        signals=sig, locale=locale.setlocale(locale.LC_NUMERIC), filters=len(warnings.filters), denormals=tiny.numpy().tobytes(),
        fds=sorted(os.listdir("/proc/self/fd")), pythreads=threading.active_count(), umask=umask(), limits=str(__import__("resource").getrlimit(__import__("resource").RLIMIT_STACK)),
    )


def umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def span(t):
    s = t.untyped_storage()
    return (s.data_ptr(), s.data_ptr() + s.nbytes())


def overlap(a, b):
    x, y = span(a), span(b)
    return x[0] < y[1] and y[0] < x[1]


def in_place(a, b, mon):
    """Call a, overwrite its arguments (the same tensors and lists) with those of b, call again: the results of b."""
    live = {k: (v.clone() if torch.is_tensor(v) else copy.deepcopy(v)) for k, v in a.kw.items()}
    for k in a.fi:
        live[k].requires_grad_()

    def go(p):
        o = rel.outs(p.prop, live, **p.ex)
        if p.ws is None:
            p.ws = rel.weights({k: v.detach() for k, v in o.items()}, p.c["seed"])
        g = p.backward(live, o)
        return {**{k: v.detach().clone() for k, v in o.items()}, **{f"g:{k}": v.clone() for k, v in g.items()}}

    go(a)
    n = 0
    for k in set(live) - set(b.kw):
        del live[k]
    for k, v in b.kw.items():
        x = live.get(k)
        if torch.is_tensor(v) and torch.is_tensor(x) and x.shape == v.shape and x.dtype == v.dtype:
            if not torch.equal(x.detach(), v):
                n += 1
                with torch.no_grad():
                    x.copy_(v)
        elif isinstance(v, list) and isinstance(x, list):
            n += x != v
            x[:] = v
        else:
            live[k] = v.clone().requires_grad_(k in b.fi) if torch.is_tensor(v) else v
    got = go(b)
    mon.count("overwritten", n)
    bad = same(b.full(), got)
    mon.check(bad is None, f"overwritten:{b.prop}", f"arguments overwritten in place between two calls ({b.c.get('mut')}): {bad}")


WARM = set()


def run(c, mon):
    ps = [Problem(x) for x in c["calls"]]
    names = list(range(len(ps)))
    if os.environ.get("DWV_REV"):
        # the same calls in the other order
        ps, names = ps[::-1], names[::-1]
    for p in ps:
        if cases.last_row_outside(p.c, p.kw):
            raise Skip
    a = ps[0]
    # first use in this process may load or start things once
    key = (a.prop, bool(a.c["backend"]))
    if key not in WARM:
        WARM.add(key)
        Problem(a.c).full()
    # ---- one monitored call
    args = {k: v for k, v in a.kw.items() if not k.startswith("_")}
    args.update(a.ex)
    snap = {k: (v.clone() if torch.is_tensor(v) else copy.deepcopy(v)) for k, v in args.items()}
    for k in a.fi:
        args[k] = args[k].detach().clone().requires_grad_()
    ver = {k: v._version for k, v in args.items() if torch.is_tensor(v)}
    meta = {k: (v.shape, v.stride(), v.data_ptr(), v.requires_grad) for k, v in args.items() if torch.is_tensor(v)}
    st0 = process_state()
    out = cases.fn_of(a.prop)(**args)
    st1 = process_state()
    w, r = cases.split(a.prop, a.kw["_ndim"], out)
    o = {f"w:{k}": v for k, v in w.items()}
    o.update({f"r:{k}": v for k, v in r.items() if v is not None})
    a.ws = rel.weights({k: v.detach() for k, v in o.items()}, a.c["seed"])
    if any(bool((v != 0).any()) for v in o.values()):
        mon.nontrivial()
    L = rel.dot(a.ws, o)
    can = torch.is_tensor(L) and L.requires_grad
    keep = {k: v.detach().clone() for k, v in o.items()}
    g1 = {}
    if can:
        # the functional's own weights are part of the inputs of backward
        wver = {k: v._version for k, v in a.ws.items()}
        wsnap = {k: v.clone() for k, v in a.ws.items()}
        gs = torch.autograd.grad(L, [args[k] for k in a.fi], allow_unused=True, retain_graph=True)
        g1 = {k: g for k, g in zip(a.fi, gs) if g is not None}
        mon.check(all(torch.equal(a.ws[k], wsnap[k]) and a.ws[k]._version == wver[k] for k in wsnap), f"grad-input-modified:{a.prop}", "backward changed the gradients it was given")
    st2 = process_state()
    for k, v in snap.items():
        x = args[k]
        if torch.is_tensor(v):
            mon.check(torch.equal(x.detach(), v) and x.dtype == v.dtype, f"input-modified:{a.prop}:{k}", f"{k} changed")
            mon.check(x._version == ver[k], f"input-version:{a.prop}:{k}", f"{k} was written to ({ver[k]} -> {x._version})")
            mon.check((x.shape, x.stride(), x.data_ptr(), x.requires_grad) == meta[k], f"input-meta:{a.prop}:{k}", f"{k} was restructured")
            mon.check(x.grad is None, f"input-grad:{a.prop}:{k}", ".grad was set by autograd.grad")
        else:
            mon.check(x == v and type(x) is type(v), f"argument-modified:{a.prop}:{k}", f"{k}: {v} -> {x}")
    for st in (st1, st2):
        for k in st0:
            if k == "fds" and not set(st[k]) - set(st0[k]) and a.c["storage"] != "disk":
                continue
            mon.check(st[k] == st0[k], f"process-state:{k}", lambda: f"{k}: {str(st0[k])[:200]} -> {str(st[k])[:200]}")
    mon.count("state_snapshots", 3)
    for k, v in o.items():
        mon.check(torch.equal(v.detach(), keep[k]), f"output-changed:{a.prop}:{k}", "backward changed an output")
        for n, x in args.items():
            if torch.is_tensor(x) and x.numel() and v.numel():
                mon.check(not overlap(v, x), f"alias:{a.prop}:{k}:{n}", f"output {k} shares memory with input {n}")
    for k, v in g1.items():
        for n, x in list(args.items()) + list(o.items()) + list(a.ws.items()):
            if torch.is_tensor(x) and x.numel() and v.numel():
                mon.check(not overlap(v, x), f"alias-grad:{a.prop}:{k}:{n}", f"gradient of {k} shares memory with {n}")
    base = {**keep, **{f"g:{k}": v.clone() for k, v in g1.items()}}
    # ---- the same graph again, after the caller overwrote what it was given
    if can:
        for v in g1.values():
            v.fill_(float("nan"))
        gs = torch.autograd.grad(L, [args[k] for k in a.fi], allow_unused=True)
        g2 = {f"g:{k}": g for k, g in zip(a.fi, gs) if g is not None}
        bad = same({k: v for k, v in base.items() if k.startswith("g:")}, g2)
        mon.check(bad is None, f"repeat-backward:{a.prop}", f"a second backward differs: {bad}")
    for v in o.values():
        with torch.no_grad():
            v.detach().fill_(float("nan"))
    del o, out, w, r, L
    for k, v in snap.items():
        if torch.is_tensor(v):
            mon.check(torch.equal(args[k].detach(), v), f"alias-write:{a.prop}:{k}", "writing to the outputs changed an input")
    d = os.path.join(os.environ["DWV_SCRATCH"], "digests-" + os.environ.get("DWV_HIST", "0"))
    os.makedirs(d, exist_ok=True)
    dg = {names[0]: digest(base)}
    # ---- the same objects with other contents
    if len(ps) > 1 and any("mut" in p.c for p in ps):
        in_place(a, ps[1], mon)
    # ---- histories
    kind = c["kind"]
    if kind == "interleave":
        mon.count("interleaved")
        fw = [p.forward() for p in ps]
        rng = random.Random(c["seed"])
        order = list(range(len(ps)))
        rng.shuffle(order)
        got = {}
        for j in order:
            kw, o = fw[j]
            g = ps[j].backward(kw, o)
            got[j] = {**{k: v.detach().clone() for k, v in o.items()}, **{f"g:{k}": v for k, v in g.items()}}
            fw[j] = None
        del kw, o
        for j, p in enumerate(ps):
            dg[names[j]] = digest(got[j])
            bad = same(base if j == 0 else p.full(), got[j])
            mon.check(bad is None, f"interleaved:{p.prop}", f"interleaved graphs differ from one call alone: {bad}")
    elif kind == "repeat":
        for j, p in enumerate(ps[1:]):
            dg[names[1 + j]] = digest(p.full())
        bad = same(base, a.full())
        mon.check(bad is None, f"repeat:{a.prop}", f"the same call after others differs: {bad}")
    else:
        alone = [base] + [p.full() for p in ps[1:]]
        dg.update({names[j]: digest(alone[j]) for j in range(1, len(ps))})
        n = c["n_threads"]
        res, errs = [None] * (n * 2), []

        def work(t):
            try:
                for m in range(2):
                    res[2 * t + m] = Problem(ps[(t + m) % len(ps)].c).full()
            except Exception as e:  # noqa: BLE001
                errs.append(repr(e))

        ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        mon.check(not errs, "concurrent-error", f"{errs[:2]}")
        for t in range(n):
            for m in range(2):
                j = (t + m) % len(ps)
                if res[2 * t + m] is not None:
                    mon.count("concurrent_calls")
                    bad = same(alone[j], res[2 * t + m])
                    mon.check(bad is None, f"concurrent:{ps[j].prop}", f"a call run concurrently with others differs: {bad}")
    left = [x for x in os.listdir(os.environ["DWV_SCRATCH"]) if x.startswith("deepwave_tmp_%d_" % os.getpid())]
    mon.check(not left, "files-left", f"{left}")
    if os.environ.get("MALLOC_PERTURB_"):
        mon.count("poisoned")
    if "_i" in c:
        mon.count("neighbours" if "mut" in c["calls"][1] else "unrelated")
        with open(os.path.join(d, str(c["_i"])), "w") as f:
            json.dump({str(k): v for k, v in dg.items()}, f)


def driver(ctx):
    n, cap = N[ctx.tier], CAP[ctx.tier]
    ctx.spawn("plain", n, 8, cap, DWV_HIST="a")
    # other neighbours, other order, poisoned heap
    m = max(n // 2, 40)
    ctx.spawn("plain", m, 5, cap, DWV_HIST="b", DWV_REV="1", MALLOC_PERTURB_="173")
    # first thing a process does
    ctx.spawn("plain", 16, 16, cap, DWV_HIST="c", DWV_REV="1", MALLOC_PERTURB_="91")
    if ctx.tier == "thorough":
        ctx.spawn("release", m, 7, cap, DWV_HIST="r1")
        ctx.spawn("release", m, 4, cap, DWV_HIST="r2", DWV_REV="1", MALLOC_PERTURB_="119")

    def load(h):
        d = os.path.join(ctx.scratch, "digests-" + h)
        return {(f, j): v for f in os.listdir(d) for j, v in json.load(open(os.path.join(d, f))).items()} if os.path.isdir(d) else {}

    pairs = [("a", "b"), ("a", "c")] + ([("r1", "r2")] if ctx.tier == "thorough" else [])
    tot = 0
    for x, y in pairs:
        dx, dy = load(x), load(y)
        for i, j in sorted(set(dx) & set(dy), key=lambda k: (int(k[0]), k[1])):
            tot += 1
            if dx[i, j] != dy[i, j]:
                case = ctx.mod.gen(harness.case_rng(ctx.pid, ctx.seed, int(i)), int(i), ctx.tier)
                ctx.agg.violations.append(dict(key=f"history:{case['calls'][int(j)]['prop']}", flavour="plain", case=case,
                                               msg=f"call {j} of case {i} ({case['calls'][int(j)].get('mut', 'unrelated')}) gives different bits in processes with different histories ({x}/{y})"))
    ctx.agg.counters["digests_compared"] = tot
