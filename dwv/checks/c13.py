"""Symmetries: linearity, mirroring, transposition, reduction, reciprocity, units."""

import math

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C13"
RULE = (
    "each random problem is run twice, as drawn and transformed (superposition, axes permuted, an axis reversed, one more invariant "
    "axis, source and receiver exchanged, units of length/time/density changed); outputs and gradients of the two runs are "
    "compared through the transformation; non-trivial: a non-zero output"
)
N = {"quick": 2400, "thorough": 60000}
CAP = {"quick": 300, "thorough": 3000}
KINDS = ["linear", "transpose", "mirror", "reduce", "reciprocal", "units"]
NEED = {f"kind:{k}": 150 for k in KINDS}


def gen(rng, i, tier):
    kind = KINDS[i % 6]
    o = dict(prop=cases.PROPS[(i // 6) % 4], mgsi=rng.choice([1, 1, 2]), wide=rng.random() < 0.06, tail=0.05)
    o["extract"] = "none"
    if kind == "linear":
        o["extract"] = rng.choice(["none", "none", "origin", "pad"])
    elif kind == "transpose":
        o["ndim"] = rng.choice([2, 2, 3])
        o["extract"] = rng.choice(["none", "pad"])
    elif kind == "reduce":
        nd = o["ndim"] = rng.choice([1, 1, 2])
        o.update(nt=rng.randint(3, 7), step_ratio=1, courant=round(rng.uniform(0.4, 0.78), 3), wf="none", wide=False,
                 shape=[rng.randint(4, {1: 24, 2: 9}[nd]) for _ in range(nd)], neg_dt=False, void=False, use_max_vel=True, grid_form="list",
                 n_shots=rng.choice([1, 2]))
    elif kind == "reciprocal":
        nd = o["ndim"] = rng.choice([1, 2, 2, 3])
        o.update(pml=[0] * 2 * nd, wf="none", n_shots=rng.choice([1, 2]), ignore=0.0, void=False, fluid=False, zero_cells=0, mgsi=1,
                 nt=rng.randint(8, 30), n_src={"": 1}, n_rec={"": 1}, neg_dt=False, freq_taper=0.0, time_taper=False, time_pad=0.0)
    c = cases.gen_case(rng, **o)
    c["kind"] = kind
    c["axis"] = rng.randrange(3)
    c["perm"] = rng.sample(range(c["ndim"]), c["ndim"])
    c["pow"] = [rng.randint(-3, 3) for _ in range(3)]
    return c


def run(c, mon):
    kind = c["kind"]
    if kind == "reciprocal":
        return reciprocal(c, mon)
    prop, kw = cases.materialise(c)
    if cases.last_row_outside(c, kw, any_pml=kind in ("mirror", "transpose")):
        raise Skip
    mon.count(f"kind:{kind}")
    globals()[kind](c, prop, kw, mon)


# ------------------------------------------------------------ linear
def linear(c, prop, kw, mon):
    models = ref.model_names(prop)
    drive = [k for k in cases.float_inputs(kw) if k not in models]
    if not drive:
        raise Skip
    g = torch.Generator().manual_seed(c["seed"] + 5)
    a, b = 1.5, -0.75
    kx = dict(kw)
    ky, kz, k0 = dict(kw), dict(kw), dict(kw)
    for k in drive:
        ky[k] = torch.randn(kw[k].shape, generator=g, dtype=torch.float64).to(kw[k].dtype) * max(kw[k].abs().max().item(), 1e-30)
        kz[k] = a * kx[k] + b * ky[k]
        k0[k] = torch.zeros_like(kw[k])
    ox, oy, oz, o0 = (rel.outs(prop, q) for q in (kx, ky, kz, k0))
    if any(bool((v != 0).any()) for v in ox.values()):
        mon.nontrivial("linear")
    # cancellation: judge relative to the parts
    fo = rel.out_floor(prop, ox, c["dtype"])
    for k in ox:
        want = a * ox[k] + b * oy[k]
        part = max(ox[k].abs().max().item(), oy[k].abs().max().item()) if ox[k].numel() else 0.0
        mon.close(oz[k], want, rel.rtol(c, 1e-11, 1e-4), f"linear:{prop}:{k}", floor=max(part, fo(k)))
        mon.check(bool((o0[k] == 0).all()), f"zero:{prop}:{k}", "zero sources and wavefields gave something")


# ------------------------------------------------------------ axes
def letters(nd):
    return ref.dims_of(nd)


def rename(prop, name, mp):
    """Map the axis letters in a wavefield name (keeping its spelling rules)."""
    core = name
    suf = ""
    for s in ("_sc_m1", "_sc_0", "_m1", "_0"):
        if core.endswith(s):
            core, suf = core[: -len(s)], s
            break
    if core.startswith(("wavefield", "pressure")):
        return name
    for pre in ("m_sigma", "m_v", "sigma", "psi_", "phi_", "psi", "zeta", "v"):
        if core.startswith(pre):
            l = [mp[x] for x in core[len(pre) :]]
            if "sigma" in pre:
                l[:2] = sorted(l[:2])
            return pre + "".join(l) + suf
    raise KeyError(name)


def parity(prop, name, letter):
    """-1 if the field changes sign when the axis is reversed."""
    core = name
    for s in ("_sc_m1", "_sc_0", "_m1", "_0"):
        if core.endswith(s):
            core = core[: -len(s)]
            break
    if core.startswith(("wavefield", "pressure", "zeta", "phi_")):
        return 1
    for pre in ("m_sigma", "m_v", "sigma", "psi_", "psi", "v"):
        if core.startswith(pre):
            return -1 if core[len(pre) :].count(letter) % 2 else 1
    raise KeyError(name)


def loc_dim_type(k):
    """Type suffix of a location/amplitude argument ('' when none)."""
    t = k.rsplit("_", 1)[1]
    return t if t in ("x", "y", "z", "p") else ""


def transpose(c, prop, kw, mon):
    nd, perm = c["ndim"], c["perm"]
    ls = letters(nd)
    mp = {ls[perm[i]]: ls[i] for i in range(nd)}  # old letter -> new letter
    wn = set(ref.wavefield_names(prop, nd))

    def name(k):
        if k in wn:
            return rename(prop, k, mp)
        t = loc_dim_type(k) if k.startswith(("source_", "receiver_")) else ""
        return k[: -len(t)] + mp[t] if t in mp else k

    def field(t):
        lead = t.ndim - nd
        return t.permute(*range(lead), *[lead + p for p in perm]).contiguous()

    def tensor(k, t):
        if "locations" in k:
            return t[..., perm].contiguous()
        if k.startswith("source_amplitudes"):
            return t
        return field(t)

    kt = {}
    for k, v in kw.items():
        if torch.is_tensor(v):
            kt[name(k)] = tensor(k, v)
        elif k == "grid_spacing" and isinstance(v, list):
            kt[k] = [v[p] for p in perm]
        elif k in ("pml_width", "survey_pad") and isinstance(v, list):
            kt[k] = [x for p in perm for x in v[2 * p : 2 * p + 2]]
        else:
            kt[k] = v

    def out_name(k):
        return k[:2] + (name(k[2:]) if k[0] == "w" else mp.get(k[2:], k[2:]))

    compare_runs(c, prop, kw, kt, name, out_name, lambda k, t: field(t) if k[0] == "w" else t,
                 lambda k, t: tensor(k, t), mon, "transpose")


def mirror(c, prop, kw, mon):
    nd = c["ndim"]
    d = c["axis"] % nd
    L = letters(nd)[d]
    n0 = c["shape"][d]
    wn = set(ref.wavefield_names(prop, nd))
    stag = prop in ("acoustic", "elastic")

    def half(k):
        return stag and L in ref.half_dims(prop, k)

    def clean(k, t):
        """Zero the half points beyond the domain (not part of it)."""
        if not half(k):
            return t
        t = t.clone()
        t.narrow(d + 1, t.shape[d + 1] - 1, 1).zero_()
        return t

    def field(k, t):
        f = t.flip(d + 1)
        if half(k):
            f = torch.roll(f, -1, d + 1)
        return f * parity(prop, k, L)

    kw = {k: (clean(k, v) if k in wn else v) for k, v in kw.items()}

    def tensor(k, t):
        if "locations" in k:
            t = t.clone()
            act = (t != ref.IGNORE).all(-1)
            ty = loc_dim_type(k)
            m = n0 - 1 - (1 if stag and ty == L else 0)
            t[..., d] = torch.where(act, m - t[..., d], t[..., d])
            return t
        if k.startswith("source_amplitudes"):
            return -t if stag and loc_dim_type(k) == L else t
        if k in wn:
            return field(k, t)
        return t.flip(d - nd).contiguous()

    kt = {}
    for k, v in kw.items():
        if torch.is_tensor(v):
            kt[k] = tensor(k, v)
        elif k == "pml_width":
            v = list(v)
            v[2 * d], v[2 * d + 1] = v[2 * d + 1], v[2 * d]
            kt[k] = v
        else:
            kt[k] = v

    def out(k, t):
        if k[0] == "w":
            return field(k[2:], clean(k[2:], t))
        return -t if stag and k[2:] == L else t

    def keep(k, t):
        return clean(k[2:] if k[:2] == "w:" else k, t) if (k[2:] in wn or k in wn) else t

    compare_runs(c, prop, kw, kt, lambda k: k, lambda k: k, out, tensor, mon, "mirror", keep)


def compare_runs(c, prop, kw, kt, name, out_name, out_map, in_map, mon, tag, keep=lambda k, t: t):
    o0 = rel.outs(prop, kw)
    ws = {k: keep(k, v) for k, v in rel.weights(o0, c["seed"]).items()}
    fi = cases.float_inputs(kw)
    o, g = rel.run_grads(prop, kw, fi, ws)
    fg = rel.group_floor(kw, g, c["dtype"])
    fi = rel.subset(prop, fi, c["seed"])
    wt = {out_name(k): out_map(k, v) for k, v in ws.items()}
    ot, gt = rel.run_grads(prop, kt, [name(k) for k in fi], wt)
    if any(bool((v != 0).any()) for v in o.values()):
        mon.nontrivial(tag)
    fo = rel.out_floor(prop, o, c["dtype"])
    tol = rel.rtol(c, 1e-10, 3e-4)
    for k in o:
        n = out_name(k)
        if mon.check(n in ot, f"{tag}:{prop}:{n}", "missing output"):
            mon.close(keep(n, ot[n]), out_map(k, o[k]), tol, f"{tag}:{prop}:{k}", floor=fo(k))
    for k in fi:
        mon.close(keep(name(k), gt[name(k)]), in_map(k, keep(k, g[k])), tol, f"{tag}-grad:{prop}:{k}", floor=fg(k))


# ------------------------------------------------------------ one more axis
def reduce(c, prop, kw, mon):
    nd = c["ndim"]
    stag = prop in ("acoustic", "elastic")
    d = c["axis"] % (nd + 1)
    new = letters(nd + 1)
    rest = [x for i, x in enumerate(new) if i != d]
    mp = dict(zip(letters(nd), rest))
    reach = c["nt"] * c["acc"] // (1 if stag else 2)
    N_ = 2 * reach + 3
    mid = reach + 1
    wn = ref.wavefield_names(prop, nd)
    hnew = 3.3 * (1.0 if c["v0"] == 1.0 else 5.0)

    def point(k):
        t = loc_dim_type(k)
        return k[: -len(t)] + mp[t] if t in mp else k

    # elastic mean stress involves the new axis: use velocities there
    if prop == "elastic":
        kw.pop("receiver_locations_p", None)
    if not any(k.startswith(("receiver", "bg_rec")) for k in kw) or not any(k.startswith("source_amp") for k in kw):
        raise Skip
    kt = {}
    for k, v in kw.items():
        if not torch.is_tensor(v):
            kt[k] = v
        elif "receiver_locations" in k:
            kt[point(k)] = ins(v, d, mid)
        elif "source_locations" in k:
            lines = [ins(v, d, j) for j in range(N_)]
            kt[point(k)] = torch.cat(lines, 1)
        elif "amplitudes" in k:
            kt[point(k)] = v.repeat(1, N_, 1)
        else:
            kt[k] = v.unsqueeze(d - nd + v.ndim).expand(*v.shape[: d - nd + v.ndim], N_, *v.shape[d - nd + v.ndim :]).contiguous()
    kt["_ndim"] = nd + 1
    h = list(kw["grid_spacing"])
    kt["grid_spacing"] = h[:d] + [hnew] + h[d:]
    p = list(kw["pml_width"])
    kt["pml_width"] = p[: 2 * d] + [0, 0] + p[2 * d :]
    fi = cases.float_inputs(kw)
    o0 = rel.outs(prop, kw)
    ws = {k: v for k, v in rel.weights(o0, c["seed"]).items() if k[0] == "r"}
    if not ws:
        raise Skip
    o, g = rel.run_grads(prop, kw, fi, ws)

    def on(k):
        return k[:2] + (rename(prop, k[2:], mp) if k[0] == "w" else mp.get(k[2:], k[2:]))

    wt = {on(k): v for k, v in ws.items()}
    fg = rel.group_floor(kw, g, c["dtype"])
    fi = rel.subset(prop, fi, c["seed"])
    ot, gt = rel.run_grads(prop, kt, [point(k) if "amp" in k else k for k in fi], wt)
    if any(bool((v != 0).any()) for v in o.values()):
        mon.nontrivial("reduce")
    fo = rel.out_floor(prop, o, c["dtype"])
    tol = rel.rtol(c, 1e-10, 3e-4)
    for k in o:
        t = ot[on(k)]
        if k[0] == "w":
            t = t.select(d + 1, mid)
        mon.close(t, o[k], tol, f"reduce:{prop}:{k}", floor=fo(k))
    for k in fi:
        t = gt[point(k) if "amp" in k else k]
        if "amp" in k:
            ns, n, nt = g[k].shape
            t = t.reshape(ns, N_, n, nt).sum(1)
        else:
            t = t.sum(d - nd + kw[k].ndim)
        mon.close(t, g[k], rel.rtol(c, 1e-9, 2e-3), f"reduce-grad:{prop}:{k}", floor=fg(k))


def ins(loc, d, j):
    act = ref.active(loc)[..., None]
    col = torch.where(act, torch.full_like(loc[..., :1], j), loc[..., :1])
    return torch.cat([loc[..., :d], col, loc[..., d:]], -1)


# ------------------------------------------------------------ reciprocity
def reciprocal(c, mon):
    prop0 = c["prop"]
    nd = c["ndim"]
    ls = letters(nd)
    g = torch.Generator().manual_seed(c["seed"] + 9)
    stag = prop0 in ("acoustic", "elastic")
    c = dict(c, n_src={"": 1} if not stag else {"p": 1}, n_rec={"": 1} if not stag else {"p": 1})
    types = [""] if not stag else ["p"] + ls
    ta, tb = (types[int(torch.randint(0, len(types), (1,), generator=g))] for _ in range(2))
    if (ta == "p") != (tb == "p"):
        c["step_ratio"] = 1
    prop, kw = cases.materialise(c)
    kw = {k: v for k, v in kw.items() if "locations" not in k and "amplitudes" not in k}
    ns, nt = c["n_shots"], c["nt"]
    dt = kw[ref.model_names(prop)[0]].dtype

    def place(t):
        b = list(c["shape"])
        if t in ls:
            b[ls.index(t)] -= 1
        return cases._distinct(g, ns, 1, [0] * nd, b)

    la, lb = place(ta), place(tb)
    if la is None or lb is None:
        raise Skip
    f = torch.randn(ns, 1, nt, generator=g, dtype=torch.float64).to(dt)
    kw.pop("nt", None)

    def one(ts, lsrc, tr, lrec):
        q = dict(kw)
        q[ref.sloc_name(ts)], q[ref.amp_name(ts)], q[ref.rloc_name(tr)] = lsrc, f, lrec
        return rel.outs(prop, q)[f"r:{tr}"]

    ab, ba = one(ta, la, tb, lb), one(tb, lb, ta, la)

    def at(m, l):
        m = m.expand(ns, *c["shape"])
        return torch.stack([m[(s,) + tuple(l[s, 0].tolist())] for s in range(ns)]).reshape(ns, 1, 1)

    # recorded at b from a, times the scale that makes the source at a natural
    if not stag:
        x, y = ab, ba
    else:
        nat = lambda t, l: (nd * at(kw["lamb"], l) + 2 * at(kw["mu"], l)) if prop == "elastic" and t == "p" else torch.ones((), dtype=dt)
        x, y = ab * nat(ta, la), ba * nat(tb, lb)
        if (ta == "p") != (tb == "p"):
            # v is recorded half a step before p and injected half a step earlier
            if tb != "p":  # x: v from p, y: p from v
                x, y = x[..., 1:], y[..., :-1]
            else:
                x, y = x[..., :-1], y[..., 1:]
            if prop == "elastic":
                if ta == "p":
                    y = y * nd
                else:
                    x = x * nd
            y = -y
    mon.count("kind:reciprocal")
    mon.count(f"reciprocal:{prop}:{'mixed' if (ta == 'p') != (tb == 'p') else 'same'}")
    if bool((x != 0).any()):
        mon.nontrivial("reciprocal", ta, tb)
    mon.close(x, y, rel.rtol(c, 1e-9, 1e-3), f"reciprocal:{prop}:{ta}:{tb}", floor=1e-30 if bool((x != 0).any()) else 1.0)


# ------------------------------------------------------------ units
def units(c, prop, kw, mon):
    L, T, R = (2.0**p for p in c["pow"])
    nd = c["ndim"]
    wn = ref.wavefield_names(prop, nd)
    V = L / T
    sig = R * V  # stress or pressure per particle velocity

    def scale(k):
        if k in ("v", "scatter"):
            return V
        if k == "rho":
            return R
        if k in ("lamb", "mu"):
            return R * V * V
        if k == "buoyancy":
            return 1 / R
        if k == "source_amplitudes":
            return 1 / L**2
        if k == "source_amplitudes_p":
            return 1 / L if prop == "acoustic" else sig / T
        if k.startswith("source_amplitudes_"):
            return R / T
        if k.startswith("wavefield"):
            return 1.0
        if k.startswith("pressure") or k.startswith("sigma"):
            return sig
        if k.startswith(("m_v", "phi_")):
            return 1 / L
        if k.startswith(("m_sigma", "psi_")):
            return sig / L
        if k.startswith("psi"):
            return 1 / L
        if k.startswith("zeta"):
            return 1 / L**2
        if k.startswith("v"):
            return 1.0
        raise KeyError(k)

    kt = dict(kw)
    for k in cases.float_inputs(kw):
        kt[k] = kw[k] * scale(k)
    h = kw["grid_spacing"]
    kt["grid_spacing"] = [x * L for x in h] if isinstance(h, list) else h * L
    kt["dt"] = kw["dt"] * T
    kt["pml_freq"] = kw["pml_freq"] / T
    if kw["max_vel"] is not None:
        kt["max_vel"] = kw["max_vel"] * V

    def osc(k):
        if k[0] == "w":
            return scale(k[2:])
        return sig if k[2:] == "p" else 1.0

    fi = cases.float_inputs(kw)
    o0 = rel.outs(prop, kw)
    ws = rel.weights(o0, c["seed"])
    o, g = rel.run_grads(prop, kw, fi, ws)
    ot, gt = rel.run_grads(prop, kt, fi, {k: v / osc(k) for k, v in ws.items()})
    if any(bool((v != 0).any()) for v in o.values()):
        mon.nontrivial("units")
    fo = rel.out_floor(prop, o, c["dtype"])
    fg = rel.group_floor(kw, g, c["dtype"])
    tol = rel.rtol(c, 1e-11, 1e-4)
    for k in o:
        mon.close(ot[k] / osc(k), o[k], tol, f"units:{prop}:{k}", floor=fo(k))
    for k in fi:
        mon.close(gt[k] * scale(k), g[k], tol, f"units-grad:{prop}:{k}", floor=fg(k))
