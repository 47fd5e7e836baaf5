"""Random propagation problems and the wrappers that run them.

A case is a JSON-able dict; `materialise` turns it into deepwave keyword
arguments deterministically (all tensor values derive from case["seed"]).
"""

import math
import warnings

import torch

from . import harness, ref

warnings.filterwarnings("ignore")

PROPS = ["scalar", "born", "acoustic", "elastic"]


def pick(rng, xs, weights=None):
    return rng.choices(xs, weights)[0] if weights else xs[rng.randrange(len(xs))]


# ------------------------------------------------------------ generation
def interval(rng, hi=11):
    """A model gradient sampling interval, mostly small."""
    return rng.choice([1, 1, 1, 1, 1, 2, 2, 3, 3, rng.randint(4, hi)])


def stretch(rng, c, fixed):
    """One size of the problem far beyond the usual range, the others small."""
    nd = c["ndim"]
    kinds = [k for k, f in (("nt", "nt"), ("shots", "n_shots"), ("n_src", "n_src"), ("n_rec", "n_rec"), ("shape", "shape"),
                            ("pml", "pml"), ("ratio", "step_ratio"), ("interval", "mgsi"), ("contrast", "hetero")) if f not in fixed]
    if not kinds:
        return None
    k = rng.choice(kinds)

    def short(n):
        if "nt" not in fixed:
            c["nt"] = min(c["nt"], n)

    if k == "nt":
        c["nt"] = rng.randint(80, 280)
        if "shape" not in fixed:
            c["shape"] = [min(s, {1: 24, 2: 8, 3: 5}[nd]) for s in c["shape"]]
    elif k == "shots":
        c["n_shots"] = rng.randint(9, 40)
        short(6)
    elif k in ("n_src", "n_rec"):
        c[k] = {t: (rng.randint(13, 60) if n else 0) for t, n in c[k].items()}
        short(10)
    elif k == "shape":
        d = rng.randrange(nd)
        c["shape"] = [min(s, 6) for s in c["shape"]]
        c["shape"][d] = rng.randint(*{1: (100, 700), 2: (40, 150), 3: (20, 70)}[nd])
        short(6)
    elif k == "pml":
        c["pml"] = list(c["pml"])
        c["pml"][rng.randrange(2 * nd)] = rng.randint(9, 26)
        short(12)
    elif k == "ratio":
        c["step_ratio"] = rng.randint(4, 14)
        short(8)
    elif k == "interval":
        c["mgsi"] = rng.randint(4, 16)
    elif k == "contrast":
        c["hetero"] = rng.choice([1.0, 3.0, 10.0])
    return k


def gen_case(rng, **over):
    """Draw a random problem. Keyword arguments fix individual choices."""
    c = {}
    tail = over.pop("tail", 0)
    fixed = list(over)

    def put(k, f):
        c[k] = over.pop(k) if k in over else f()

    put("seed", lambda: rng.randrange(1 << 30))
    put("prop", lambda: pick(rng, PROPS))
    put("ndim", lambda: pick(rng, [1, 2, 3], [3, 5, 2]))
    put("acc", lambda: pick(rng, [2, 4, 6, 8]))
    put("dtype", lambda: pick(rng, ["double", "float"], [4, 1]))
    nd, acc = c["ndim"], c["acc"]
    put("wide", lambda: rng.random() < 0.08)
    wide = c["wide"]
    cap = {1: 24, 2: 13, 3: 7}[nd]
    if wide:
        cap = {1: 150, 2: 36, 3: 11}[nd]
    if "big" in over:
        cap += over.pop("big")
    lo = 3 if c["prop"] in ("acoustic", "elastic") else 1
    put("shape", lambda: [rng.randint(lo, cap) for _ in range(nd)])
    put("h", lambda: [round(rng.uniform(0.7, 1.6), 3) for _ in range(nd)])
    pcap = {1: 8, 2: 6, 3: 3}[nd]

    def pml():
        mode = pick(rng, ["uniform", "per", "zero", "some0"], [3, 4, 1, 3])
        if mode == "zero":
            return [0] * 2 * nd
        if mode == "uniform":
            return [rng.randint(1, pcap)] * 2 * nd
        if mode == "per":
            return [rng.randint(1, pcap) for _ in range(2 * nd)]
        return [rng.choice([0, rng.randint(1, pcap)]) for _ in range(2 * nd)]

    put("pml", pml)
    put("v0", lambda: pick(rng, [1.0, 1500.0]))
    put("hetero", lambda: pick(rng, [0.0, 0.2, 0.4], [1, 3, 2]))
    put("n_shots", lambda: pick(rng, [1, 2, 3, 5], [4, 4, 3, 1]) if not wide else rng.randint(1, 11))
    put("step_ratio", lambda: pick(rng, [1, 2, 3], [5, 3, 2]) if not wide else rng.randint(1, 6))
    put("courant", lambda: round(rng.uniform(0.55, 0.98), 3))
    put("nt", lambda: rng.randint(1, (24 if nd < 3 else 14) * (4 if wide and nd < 3 else 1)))
    put("mgsi", lambda: 1)
    put("neg_dt", lambda: rng.random() < 0.08)
    put("use_max_vel", lambda: rng.random() < 0.3)
    put("freq_taper", lambda: pick(rng, [0.0, 0.25, 0.05], [8, 2, 1]))
    put("time_pad", lambda: pick(rng, [0.0, 0.3], [4, 1]))
    put("time_taper", lambda: rng.random() < 0.12)
    put("ignore", lambda: pick(rng, [0.0, 0.4], [3, 1]))
    nm = len(ref.model_names(c["prop"]))
    put("batched", lambda: [rng.random() < 0.25 for _ in range(nm)])
    st = ref.source_types(c["prop"], nd)
    rt = ref.receiver_types(c["prop"], nd)

    def counts(types, p0):
        d = {t: (rng.choice([1, 1, 2, 3]) if not wide else rng.randint(1, 12)) if rng.random() > p0 else 0 for t in types}
        if not any(d.values()):
            d[types[-1]] = 1
        return d

    put("n_src", lambda: counts(st, 0.25))
    put("n_rec", lambda: counts(rt, 0.25))
    put("wf", lambda: pick(rng, ["none", "some", "all"], [3, 1, 1]))
    put("extract", lambda: "none" if rng.random() < 0.75 else pick(rng, ["pad", "origin"]))
    put("grid_form", lambda: pick(rng, ["list", "scalar"], [3, 1]))
    put("pml_freq_rel", lambda: pick(rng, [0.01, 0.05, 0.0], [6, 4, 1]))
    put("zero_cells", lambda: 0.15 if c["prop"] in ("scalar", "born", "acoustic") and rng.random() < 0.06 else 0)
    put("void", lambda: c["prop"] == "elastic" and rng.random() < 0.08)
    put("fluid", lambda: c["prop"] == "elastic" and rng.random() < 0.08)
    put("loc_dtype", lambda: pick(rng, ["long", "int", "float"], [8, 1, 1]))
    fixed = set(fixed) | set(over)
    for k, v in over.items():
        c[k] = v
    if tail and rng.random() < tail:
        c["tail"] = stretch(rng, c, fixed)
    if c["grid_form"] == "scalar":
        c["h"] = [c["h"][0]] * nd
    if c["extract"] == "origin":
        c["wf"] = "all" if c["wf"] == "none" else c["wf"]
    c.setdefault("default_dtype", harness.default_dtype(c["seed"]))
    return c


def _distinct(gen, n_shots, n, lo, hi):
    """n distinct integer points per shot with lo <= x < hi, or None."""
    sizes = [b - a for a, b in zip(lo, hi)]
    tot = math.prod(max(s, 0) for s in sizes)
    n = min(n, tot)
    if n <= 0:
        return None
    out = torch.zeros(n_shots, n, len(lo), dtype=torch.long)
    for s in range(n_shots):
        perm = torch.randperm(tot, generator=gen)[:n]
        for d in range(len(lo) - 1, -1, -1):
            out[s, :, d] = perm % sizes[d] + lo[d]
            perm = perm // sizes[d]
    return out


def materialise(c, dtype=None):
    """-> (prop, kw).  kw has `_ndim` for the reference; strip before calling."""
    gen = torch.Generator().manual_seed(c["seed"])
    T = torch.float64

    def rand(*s):
        return torch.rand(*s, generator=gen, dtype=T)

    def randn(*s):
        return torch.randn(*s, generator=gen, dtype=T)

    prop, nd, acc = c["prop"], c["ndim"], c["acc"]
    shape, h, ns, nt = c["shape"], c["h"], c["n_shots"], c["nt"]
    v0, het = c["v0"], c["hetero"]
    hs = [x * (1.0 if v0 == 1.0 else 5.0) for x in h]
    dt_dtype = T if (dtype or c["dtype"]) == "double" else torch.float32

    def mshape(i):
        return (ns, *shape) if c["batched"][i] else tuple(shape)

    kw = {}
    if prop in ("scalar", "born"):
        kw["v"] = v0 * (1 + het * rand(*mshape(0)))
        vmax = v0 * (1 + het)
        if prop == "born":
            kw["scatter"] = 0.1 * v0 * randn(*mshape(1))
    elif prop == "acoustic":
        kw["v"] = v0 * (1 + het * rand(*mshape(0)))
        kw["rho"] = (2000.0 if v0 > 1 else 1.0) * (1 + het * rand(*mshape(1)))
        vmax = v0 * (1 + het)
    else:
        # independent ranges keep vs < vp / sqrt(2) cell by cell
        r0 = 2000.0 if v0 > 1 else 1.0
        bu = (1 + het * rand(*mshape(2))) / r0
        mu = r0 * v0**2 * 0.25 * (1 + het * rand(*mshape(1)))
        la = r0 * v0**2 * 0.5 * (1 + het * rand(*mshape(0)))
        if c.get("fluid"):
            mu = mu * (rand(*mu.shape) > 0.3)
        if c.get("void"):
            keep = (rand(*shape) > 0.15).to(T)
            mu, la, bu = mu * keep, la * keep, bu * keep
        kw["lamb"], kw["mu"], kw["buoyancy"] = la, mu, bu
        vmax = v0 * (1 + het)
    if c.get("zero_cells"):
        kw["v"] = kw["v"] * (rand(*kw["v"].shape) > c["zero_cells"]).to(T)
    if c.get("zero_cells") or c.get("void"):
        # there must be at least one non-zero cell to set the time step
        for k in kw:
            if k != "scatter":
                kw[k].reshape(-1)[0] = {"lamb": r0 * v0**2 * 0.5, "mu": r0 * v0**2 * 0.25, "buoyancy": 1 / r0}[k] if prop == "elastic" else (v0 if k == "v" else kw[k].reshape(-1)[0])
    max_dt = 0.6 / math.sqrt(sum(1 / x**2 for x in hs)) / vmax
    dt = (c["step_ratio"] - 1 + c["courant"]) * max_dt
    if c["neg_dt"]:
        dt = -dt
    # The actual step ratio is fixed by passing max_vel, or else by the model.
    kw["max_vel"] = vmax if c["use_max_vel"] else None
    kw["dt"] = dt
    kw["grid_spacing"] = hs[0] if c["grid_form"] == "scalar" else list(hs)
    kw["accuracy"] = acc
    pml = list(c["pml"])
    kw["pml_width"] = pml
    kw["pml_freq"] = c["pml_freq_rel"] / abs(dt)
    if c["freq_taper"]:
        kw["freq_taper_frac"] = c["freq_taper"]
    if c["time_pad"]:
        kw["time_pad_frac"] = c["time_pad"]
    if c["time_taper"]:
        kw["time_taper"] = True
    if c["mgsi"] != 1:
        kw["model_gradient_sampling_interval"] = c["mgsi"]

    lo, hi = [0] * nd, list(shape)
    if c["extract"] != "none":
        lo = [int(x) for x in (rand(nd) * torch.tensor([s * 0.4 for s in shape])).floor()]
        hi = [
            max(l + 3, s - int(x))
            for l, s, x in zip(lo, shape, (rand(nd) * torch.tensor([s * 0.3 for s in shape])).floor())
        ]
        hi = [min(a, s) for a, s in zip(hi, shape)]
        lo = [min(a, b - 1) for a, b in zip(lo, hi)]
    if c["extract"] == "pad":
        sp = [int(x) for x in (rand(2 * nd) * 4).floor()]
        kw["survey_pad"] = sp if c["seed"] % 3 else sp[0]
        if c["seed"] % 5 == 0:
            sp = [None if (c["seed"] >> (3 + i)) & 1 else x for i, x in enumerate(sp)]
            kw["survey_pad"] = sp
    elif c["extract"] == "origin":
        kw["origin"] = list(lo)

    def locs(t, n):
        b = list(hi)
        if t in ("x", "y", "z"):
            d = ref.dims_of(nd).index(t)
            b[d] = b[d] - 1  # the last half-grid point is outside the domain
        return _distinct(gen, ns, n, lo, b)

    ign = c["ignore"]
    for t, n in c["n_src"].items():
        if n:
            l = locs(t, n)
            if l is None:
                continue
            if ign:
                m = rand(ns, l.shape[1]) < ign
                l[m] = ref.IGNORE
            kw[ref.sloc_name(t)] = l
            a = randn(ns, l.shape[1], nt)
            # smooth a little so that resampling is not dominated by Nyquist
            kw[ref.amp_name(t)] = a
    for t, n in c["n_rec"].items():
        if n:
            l = locs(t, n)
            if l is None:
                continue
            if ign:
                m = rand(ns, l.shape[1]) < ign
                l[m] = ref.IGNORE
            kw[ref.rloc_name(t)] = l
    if not any(k.startswith("source_amplitudes") for k in kw):
        kw["nt"] = nt
        if not any(k.startswith("source_loc") for k in kw) and c["wf"] == "none":
            c = dict(c, wf="all")

    if c["wf"] != "none":
        kw["_ndim"] = nd
        allw = {}
        if c["extract"] == "pad":
            ll = [kw[k] for k in kw if "locations" in k]
            g = ref.Geometry(shape, pml, kw, ll, {})
            ext = g.ext
        else:
            ext = list(zip(lo, hi)) if c["extract"] == "origin" else [(0, s) for s in shape]
        ws = (ns, *[e[1] - e[0] + pml[2 * d] + pml[2 * d + 1] for d, e in enumerate(ext)])
        for i, k in enumerate(ref.wavefield_names(prop, nd)):
            if c["wf"] == "all" or i == 0 or rand(1).item() < 0.5:
                allw[k] = randn(*ws)
                if prop == "elastic" and ("sigma" in k and not k.startswith("m_")):
                    allw[k] *= v0 * (2000.0 if v0 > 1 else 1.0)
                if prop == "acoustic" and k == "pressure_0":
                    allw[k] *= v0 * (2000.0 if v0 > 1 else 1.0)
        kw.update(allw)
    kw["_ndim"] = nd
    for k, v in kw.items():
        if torch.is_tensor(v) and v.is_floating_point():
            kw[k] = v.to(dt_dtype)
    ld = c.get("loc_dtype", "long")
    if ld != "long":
        for k, v in kw.items():
            if "locations" in k and torch.is_tensor(v):
                kw[k] = v.to(torch.int32 if ld == "int" else torch.float64)
    return prop, kw


def last_row_outside(c, kw, any_pml=False):
    """A velocity point on the last row of a survey_pad-cropped domain without
    PML there lies outside the staggered domain (known finding, see DESIGN)."""
    if c["prop"] not in ("acoustic", "elastic") or kw.get("survey_pad") is None:
        return False
    nd = c["ndim"]
    names = [k for k in kw if "locations" in k]
    g = ref.Geometry(c["shape"], c["pml"], kw, [kw[k] for k in names], {})
    for k in names:
        t = k.rsplit("_", 1)[1]
        if t in ("x", "y", "z"):
            d = ref.dims_of(nd).index(t)
            l = kw[k][ref.active(kw[k])][:, d]
            if (any_pml or c["pml"][2 * d + 1] == 0) and l.numel() and int(l.max()) >= g.ext[d][1] - 1:
                return True
    return False


# ------------------------------------------------------------ running
def fn_of(prop):
    import deepwave

    return {
        "scalar": deepwave.scalar,
        "born": deepwave.scalar_born,
        "acoustic": deepwave.acoustic,
        "elastic": deepwave.elastic,
    }[prop]


def split(prop, ndim, out):
    names = ref.wavefield_names(prop, ndim)
    rt = ref.receiver_types(prop, ndim)
    if len(out) != len(names) + len(rt):
        raise AssertionError(f"{prop} {ndim}D returned {len(out)} outputs, expected {len(names)+len(rt)}")
    w = dict(zip(names, out))
    r = dict(zip(rt, out[len(names) :]))
    r = {k: (None if x is None or x.numel() == 0 else x) for k, x in r.items()}
    return w, r


def call(prop, kw, **extra):
    """Run the code under test. -> (wavefields, receivers)."""
    nd = kw["_ndim"]
    a = {k: v for k, v in kw.items() if not k.startswith("_")}
    a.update(extra)
    out = fn_of(prop)(**a)
    return split(prop, nd, out)


def to_double(kw, detach=True):
    out = {}
    for k, v in kw.items():
        if torch.is_tensor(v) and v.is_floating_point():
            v = v.detach().to(torch.float64)
        out[k] = v
    return out


def float_inputs(kw):
    return [k for k, v in kw.items() if torch.is_tensor(v) and v.is_floating_point() and "locations" not in k]


def err(a, b, floor=0.0):
    """max |a-b| relative to max |b| (b: the reference)."""
    a = a.detach().to(torch.float64)
    b = b.detach().to(torch.float64)
    if a.shape != b.shape:
        return float("inf")
    if a.numel() == 0:
        return 0.0
    if not torch.isfinite(a).all():
        return float("inf")
    d = (a - b).abs().max().item()
    if d == 0:
        return 0.0
    s = max(b.abs().max().item(), floor)
    return d / s if s > 0 else float("inf")
