"""Independent reference implementation of the four propagators.

Written from the documentation (docs/*.rst) rather than from the code under
test: derivative operators are dense matrices whose coefficients are obtained
by solving the Taylor conditions, resampling is an explicit trigonometric sum,
everything is float64, and gradients come from torch autograd through it.

It never imports deepwave.
"""

import math

import numpy as np
import torch

IGNORE = -(1 << 31)
D = torch.float64


# ---------------------------------------------------------------- stencils
def _solve(offsets, deriv):
    n = len(offsets)
    a = np.array([[float(o) ** p for o in offsets] for p in range(n)])
    rhs = np.zeros(n)
    rhs[deriv] = math.factorial(deriv)
    return np.linalg.solve(a, rhs)


def mat_central(n, acc, deriv, h):
    """n x n matrix of the acc-th order central derivative, zero outside."""
    m = acc // 2
    offs = list(range(-m, m + 1))
    c = _solve(offs, deriv) / h**deriv
    out = np.zeros((n, n))
    for i in range(n):
        for o, w in zip(offs, c):
            if 0 <= i + o < n:
                out[i, i + o] += w
    return torch.tensor(out, dtype=D)


def mat_to_half(n, acc, h):
    """d/dx of an integer-grid field at the half points i+1/2, i=0..n-2."""
    m = acc // 2
    offs = [k + 0.5 for k in range(-m, m)]  # relative to the half point
    c = _solve(offs, 1) / h
    out = np.zeros((n, n))
    for i in range(n - 1):
        for o, w in zip(offs, c):
            j = int(round(i + 0.5 + o))
            if 0 <= j < n:
                out[i, j] += w
    return torch.tensor(out, dtype=D)


def mat_from_half(n, acc, h):
    """d/dx of a half-grid field (entry j is at j+1/2, j<=n-2) at integers."""
    m = acc // 2
    offs = [k + 0.5 for k in range(-m, m)]
    c = _solve(offs, 1) / h
    out = np.zeros((n, n))
    for i in range(n):
        for o, w in zip(offs, c):
            j = int(round(i + o - 0.5))
            if 0 <= j < n - 1:
                out[i, j] += w
    return torch.tensor(out, dtype=D)


def apply(mat, f, dim):
    """Apply mat along spatial dimension dim of f (batch first)."""
    return torch.movedim(torch.tensordot(mat, f, dims=([1], [dim + 1])), 0, dim + 1)


# ---------------------------------------------------------------- PML
def pml_ab(x, n, w, dt, max_pml, max_vel, freq):
    """C-PML a, b at coordinates x of a domain of n cells with widths w."""
    x = np.asarray(x, dtype=float)
    if max_pml == 0:
        return np.zeros_like(x), np.zeros_like(x)
    sig0 = -3 * max_vel * math.log(0.001) / (2 * max_pml)
    fl = (w[0] - x) / w[0] if w[0] else np.zeros_like(x)
    fr = (x - (n - 1 - w[1])) / w[1] if w[1] else np.zeros_like(x)
    frac = np.clip(np.maximum(fl, fr), 0, 1)
    sig = sig0 * frac**2
    alp = math.pi * freq * (1 - frac)
    inside = frac > 0
    a = np.where(inside, np.exp(-(sig + alp) * abs(dt)), 0.0)
    with np.errstate(all="ignore"):
        b = np.where(inside, sig / (sig + alp) * (np.exp(-(sig + alp) * abs(dt)) - 1), 0.0)
    return a, b


def _bc(v, dim, ndim):
    shape = [1] * (ndim + 1)
    shape[dim + 1] = -1
    return torch.as_tensor(np.ascontiguousarray(v), dtype=D).reshape(shape)


# ---------------------------------------------------------------- resampling
def _weights(nbin, taper_frac):
    w = np.ones(nbin)
    nt = min(int(taper_frac * nbin), nbin)
    if nt > 0:
        w[-nt:] *= (np.cos(np.arange(1, nt + 1) / nt * math.pi) + 1) / 2
    elif nbin > 1:
        # also when the taper is shorter than a sample
        w[-1] = 0
    return w


def up_matrix(n, r, freq_taper_frac=0.0, time_pad_frac=0.0, time_taper=False):
    if r == 1:
        return np.eye(n)
    npad = int(time_pad_frac * n) if time_pad_frac > 0 else 0
    big = n + npad
    nbin = big // 2 + 1
    w = _weights(nbin, freq_taper_frac)
    out = np.zeros((n * r, n))
    m = np.arange(n * r)[:, None]
    j = np.arange(n)[None, :]
    for k in range(nbin):
        c = 1.0 if k == 0 or 2 * k == big * r else 2.0
        out += c * w[k] / big * np.cos(2 * math.pi * k * (m / (big * r) - j / big))
    if time_taper:
        out *= hann(n * r)[:, None]
    return out


def hann(n):
    if n == 1:
        return np.ones(1)
    return 0.5 - 0.5 * np.cos(2 * math.pi * np.arange(n) / (n - 1))


def down_matrix(n, r, freq_taper_frac=0.0, time_pad_frac=0.0, time_taper=False, shift=0.0):
    """n input samples -> n // r output samples."""
    if r == 1 and shift == 0.0:
        return np.eye(n)
    d = n // r
    npad = int(time_pad_frac * d) if time_pad_frac > 0 else 0
    big = n + npad * r
    dbig = big // r
    nbin = dbig // 2 + 1
    w = _weights(nbin, freq_taper_frac)
    out = np.zeros((d, n))
    m = np.arange(d)[:, None]
    j = np.arange(n)[None, :]
    for k in range(nbin):
        c = 1.0 if k == 0 or 2 * k == dbig else 2.0
        if c == 1.0:  # imaginary part of these bins is dropped
            out += w[k] / big * np.cos(2 * math.pi * k * (-j - shift) / big) * np.cos(
                2 * math.pi * k * m / dbig
            )
        else:
            out += (
                c
                * w[k]
                / big
                * np.cos(2 * math.pi * k * (m / dbig - j / big - shift / big))
            )
    if time_taper:
        out = out * hann(n)[None, :]
    return out


def resample(x, mat):
    return torch.tensordot(x, torch.tensor(mat, dtype=D), dims=([-1], [1]))


# ---------------------------------------------------------------- names
DIMS = ["z", "y", "x"]


def dims_of(ndim):
    return DIMS[-ndim:]


def wavefield_names(prop, ndim):
    """Public argument names, in public output order."""
    ds = dims_of(ndim)
    if prop == "scalar":
        return (
            ["wavefield_0", "wavefield_m1"]
            + [f"psi{d}_m1" for d in ds]
            + [f"zeta{d}_m1" for d in ds]
        )
    if prop == "born":
        s = wavefield_names("scalar", ndim)
        sc = (
            ["wavefield_sc_0", "wavefield_sc_m1"]
            + [f"psi{d}_sc_m1" for d in ds]
            + [f"zeta{d}_sc_m1" for d in ds]
        )
        return s + sc
    if prop == "acoustic":
        return (
            ["pressure_0"]
            + [f"v{d}_0" for d in ds]
            + [f"phi_{d}_0" for d in ds]
            + [f"psi_{d}_0" for d in ds]
        )
    if ndim == 1:
        return ["vx_0", "sigmaxx_0", "m_vxx_0", "m_sigmaxxx_0"]
    if ndim == 2:
        return (
            "vy_0 vx_0 sigmayy_0 sigmaxy_0 sigmaxx_0 m_vyy_0 m_vyx_0 m_vxy_0 m_vxx_0 "
            "m_sigmayyy_0 m_sigmaxyy_0 m_sigmaxyx_0 m_sigmaxxx_0"
        ).split()
    return (
        "vz_0 vy_0 vx_0 sigmazz_0 sigmayz_0 sigmaxz_0 sigmayy_0 sigmaxy_0 sigmaxx_0 "
        "m_vzz_0 m_vzy_0 m_vzx_0 m_vyz_0 m_vxz_0 m_vyy_0 m_vyx_0 m_vxy_0 m_vxx_0 "
        "m_sigmazzz_0 m_sigmayzy_0 m_sigmaxzx_0 m_sigmayzz_0 m_sigmaxzz_0 "
        "m_sigmayyy_0 m_sigmaxyy_0 m_sigmaxyx_0 m_sigmaxxx_0"
    ).split()


def model_names(prop):
    return {
        "scalar": ["v"],
        "born": ["v", "scatter"],
        "acoustic": ["v", "rho"],
        "elastic": ["lamb", "mu", "buoyancy"],
    }[prop]


def source_types(prop, ndim):
    if prop in ("scalar", "born"):
        return [""]
    return ["p"] + dims_of(ndim)


def receiver_types(prop, ndim):
    """In output order; the suffix identifies the location argument."""
    if prop == "scalar":
        return [""]
    if prop == "born":
        return ["bg", ""]
    return ["p"] + dims_of(ndim)


def amp_name(t):
    return "source_amplitudes" + (f"_{t}" if t else "")


def sloc_name(t):
    return "source_locations" + (f"_{t}" if t else "")


def rloc_name(t):
    if t == "bg":
        return "bg_receiver_locations"
    return "receiver_locations" + (f"_{t}" if t else "")


# ---------------------------------------------------------------- staggering
def half_dims(prop, name):
    """Set of dimension letters in which field `name` lies on half points."""
    base = name[: -len("_0")] if name.endswith("_0") else name
    if prop == "acoustic":
        if base in ("vz", "vy", "vx"):
            return {base[1]}
        if base.startswith("psi_"):
            return {base[-1]}
        return set()
    if base in ("vz", "vy", "vx"):
        return {base[1]}
    if base.startswith("sigma"):
        i, j = base[-2:]
        return set() if i == j else {i, j}
    if base.startswith("m_v"):
        i, j = base[-2:]
        return set() if i == j else {i, j}
    if base.startswith("m_sigma"):
        i, j, k = base[-3:]
        # derivative d sigma_ij / dk contributes to the velocity of the other index
        other = i if k == j else j
        if i == j:
            other = i
        return {other}
    raise KeyError(name)


# ---------------------------------------------------------------- setup
def cfl(spacing, dt, max_vel):
    max_dt = 0.6 / math.sqrt(sum(1 / h**2 for h in spacing)) / max_vel
    r = math.ceil(abs(dt) / max_dt)
    return dt / r, r


def pad_model(m, pml, mode):
    ndim = len(pml) // 2
    if m.ndim == ndim:
        m = m[None]
    for d in range(ndim):
        n = m.shape[d + 1]
        idx = torch.arange(-pml[2 * d], n + pml[2 * d + 1])
        out = m.index_select(d + 1, idx.clamp(0, n - 1))
        if mode == "zero":
            mask = ((idx >= 0) & (idx < n)).to(m.dtype)
            shape = [1] * m.ndim
            shape[d + 1] = -1
            out = out * mask.reshape(shape)
        m = out
    return m


def active(loc):
    return ~(loc == IGNORE).any(-1)


class Geometry:
    """Domain used for the simulation: extents of the model + PML cells."""

    def __init__(self, shape, pml, kw, locs, wavefields):
        ndim = len(shape)
        sp = kw.get("survey_pad")
        have_wf = [w for w in wavefields.values() if w is not None]
        ext = []
        if sp is None and have_wf:
            org = kw.get("origin") or [0] * ndim
            for d in range(ndim):
                size = have_wf[0].shape[1 + d] - pml[2 * d] - pml[2 * d + 1]
                ext.append((org[d], org[d] + size))
        else:
            if sp is None:
                spl = [None] * 2 * ndim
            elif isinstance(sp, int):
                spl = [sp] * 2 * ndim
            else:
                spl = list(sp)
            for d in range(ndim):
                pts = [
                    int(x)
                    for l in locs
                    if l is not None
                    for x in l[active(l)][:, d].tolist()
                ]
                lo, hi = 0, shape[d]
                if pts and spl[2 * d] is not None:
                    lo = min(max(min(pts) - spl[2 * d], 0), shape[d])
                if pts and spl[2 * d + 1] is not None:
                    hi = min(max(pts) + spl[2 * d + 1] + 1, shape[d])
                ext.append((lo, hi))
        self.ext = ext
        self.pml = pml
        self.n = [e[1] - e[0] + pml[2 * d] + pml[2 * d + 1] for d, e in enumerate(ext)]
        self.strides = [int(np.prod(self.n[d + 1 :])) for d in range(ndim)]

    def flat(self, loc):
        """Flat indices (0 where ignored) and mask."""
        mask = active(loc)
        idx = torch.zeros(loc.shape[:2], dtype=torch.long)
        for d, e in enumerate(self.ext):
            idx = idx + (loc[..., d].long() - e[0] + self.pml[2 * d]) * self.strides[d]
        return torch.where(mask, idx, torch.zeros_like(idx)), mask


def sampled(model, t, k):
    """model, as seen at internal step t when its gradient is sampled every k."""
    if k == 1:
        return model
    if t % k == 0:
        return model.detach() + k * (model - model.detach())
    return model.detach()


def run(prop, kw, callback=None, perturb=None, models_out=None):
    """Run propagator `prop` with deepwave-style keyword arguments.

    Tensor arguments may require grad (float64).  Returns (wavefields dict,
    receivers dict, info).
    callback(step, fields): called at the start of every user time step with
    the live dict of fields (which it may modify by assignment).
    perturb(step): returns a dict of additions to the (padded, converted)
    models that the update of that step uses.
    models_out: filled with the (padded, converted) models.
    """
    kw = dict(kw)
    models = {m: kw[m] for m in model_names(prop)}
    sp = kw["grid_spacing"]
    m0 = models[model_names(prop)[0]]
    locs_named = {k: v for k, v in kw.items() if k.endswith("locations") or "locations_" in k}
    wf_in_all = {k: kw.get(k) for k in wavefield_names(prop, 3)}
    ndim = kw.get("_ndim")
    shape = list(m0.shape[-ndim:])
    h = [float(sp)] * ndim if isinstance(sp, (int, float)) else [float(x) for x in sp]
    acc = kw.get("accuracy", 4)
    pml = kw.get("pml_width", 20)
    if isinstance(pml, int):
        pml = [pml] * 2 * ndim
    pml = list(pml)
    if len(pml) == 1:
        pml = pml * 2 * ndim
    freq = kw.get("pml_freq")
    freq = 25.0 if freq is None else freq
    wnames = wavefield_names(prop, ndim)
    wf_in = {k: wf_in_all.get(k) for k in wnames}
    stypes = source_types(prop, ndim)
    rtypes = receiver_types(prop, ndim)
    slocs = {t: kw.get(sloc_name(t)) for t in stypes}
    rlocs = {t: kw.get(rloc_name(t)) for t in rtypes}
    amps = {t: kw.get(amp_name(t)) for t in stypes}
    with torch.no_grad():
        if kw.get("max_vel") is not None:
            mv = abs(kw["max_vel"])
        elif prop == "elastic":
            vs2 = models["mu"] * models["buoyancy"]
            vp2 = models["lamb"] * models["buoyancy"] + 2 * vs2
            mv = max(vp2.abs().max().sqrt().item(), vs2.abs().max().sqrt().item())
        else:
            mv = models["v"].abs().max().item()
    dt, r = cfl(h, kw["dt"], mv)
    nt = kw.get("nt")
    if nt is None:
        nt = next(a.shape[-1] for a in amps.values() if a is not None)
    mgsi = kw.get("model_gradient_sampling_interval", 1)
    K = r * mgsi
    tp = dict(
        freq_taper_frac=kw.get("freq_taper_frac", 0.0),
        time_pad_frac=kw.get("time_pad_frac", 0.0),
        time_taper=kw.get("time_taper", False),
    )
    up = up_matrix(nt, r, **tp)
    n_shots = next(
        x.shape[0]
        for x in list(slocs.values()) + list(rlocs.values()) + list(wf_in.values())
        if x is not None
    )
    all_locs = list(slocs.values()) + list(rlocs.values())
    g = Geometry(shape, pml, kw, all_locs, wf_in)
    reg = (Ellipsis,) + tuple(slice(*e) for e in g.ext)
    models = {
        k: pad_model(m[reg], pml, "zero" if k == "scatter" else "edge")
        for k, m in models.items()
    }
    # an unsampled perturbation of the models (see C05)
    tan = {k: pad_model(m[reg], pml, "zero" if k == "scatter" else "edge") for k, m in kw.get("_tangent", {}).items()}
    full = (n_shots, *g.n)
    ds = dims_of(ndim)
    max_pml = max(pml[2 * d + s] * h[d] for d in range(ndim) for s in (0, 1))

    # fields
    F = {}
    for k in wnames:
        w = wf_in[k]
        w = torch.zeros(full, dtype=D) if w is None else w
        if prop in ("acoustic", "elastic"):
            for d, nm in enumerate(ds):
                if nm in half_dims(prop, k):
                    keep = torch.ones(g.n[d], dtype=D)
                    keep[-1] = 0
                    w = w * _bc(keep.numpy(), d, ndim)
        F[k] = w

    inj = {}  # type -> (idx, mask-multiplied upsampled amplitude [shot, src, time])
    for t in stypes:
        if amps[t] is not None and amps[t].numel():
            idx, mask = g.flat(slocs[t])
            inj[t] = (idx, resample(amps[t], up) * mask[..., None].to(D), mask)
    rec = {}
    for t in rtypes:
        if rlocs[t] is not None and rlocs[t].numel():
            rec[t] = (*g.flat(rlocs[t]), [])

    def at(model, idx):
        return model.expand(full).reshape(n_shots, -1).gather(1, idx)

    def add(field, idx, vals):
        return (
            field.reshape(n_shots, -1).scatter_add(1, idx, vals).reshape(full)
        )

    nsteps = nt * r
    if prop in ("scalar", "born"):
        D1 = [mat_central(g.n[d], acc, 1, h[d]) for d in range(ndim)]
        D2 = [mat_central(g.n[d], acc, 2, h[d]) for d in range(ndim)]
        A, B, DB = [], [], []
        m = acc // 2
        for d in range(ndim):
            w = (pml[2 * d], pml[2 * d + 1])
            x = np.arange(-m, g.n[d] + m)
            a, b = pml_ab(x, g.n[d], w, dt, max_pml, mv, freq)
            db = (mat_central(len(x), acc, 1, h[d]) @ torch.tensor(b))[m:-m]
            A.append(_bc(a[m:-m], d, ndim))
            B.append(_bc(b[m:-m], d, ndim))
            DB.append(_bc(db.numpy(), d, ndim))

        def lap(s):
            """PML-corrected Laplacian of field set with suffix s + new psi, zeta."""
            u = F[f"wavefield{s}_0"]
            tot = 0
            newp, newz = {}, {}
            for d, nm in enumerate(ds):
                psi, zeta = F[f"psi{nm}{s}_m1"], F[f"zeta{nm}{s}_m1"]
                du = apply(D1[d], u, d)
                # d/dx (du/dx + psi_new), psi_new = b du/dx + a psi
                t_ = (
                    (1 + B[d]) * apply(D2[d], u, d)
                    + DB[d] * du
                    + apply(D1[d], A[d] * psi, d)
                )
                newp[nm] = B[d] * du + A[d] * psi
                newz[nm] = B[d] * t_ + A[d] * zeta
                tot = tot + t_ + newz[nm]
            return tot, newp, newz

        v = models["v"]
        sc = models.get("scatter")
        if models_out is not None:
            models_out.update({k: m.detach() for k, m in models.items()})
        src = {}
        if "" in inj:
            idx, a_, mask = inj[""]
            src[""] = -a_ * (at(v + tan.get("v", 0), idx) ** 2)[..., None] * dt**2
            if prop == "born":
                src["_sc"] = -2 * a_ * (at(v, idx) * at(sc, idx))[..., None] * dt**2
        for t in range(nsteps):
            if callback is not None and t % r == 0:
                callback(t // r, F)
            for k, (idx, mask, lst) in rec.items():
                nm = "wavefield_sc_0" if prop == "born" and k == "" else "wavefield_0"
                lst.append(F[nm].reshape(n_shots, -1).gather(1, idx) * mask.to(D))
            dm = perturb(t // r) if perturb is not None else {}
            vs = sampled(v + dm.get("v", 0), t, K) + tan.get("v", 0)
            new = {}
            l0, p0, z0 = lap("")
            new["wavefield_0"] = vs**2 * dt**2 * l0 + 2 * F["wavefield_0"] - F["wavefield_m1"]
            new["wavefield_m1"] = F["wavefield_0"]
            for nm in ds:
                new[f"psi{nm}_m1"] = p0[nm]
                new[f"zeta{nm}_m1"] = z0[nm]
            if prop == "born":
                ss = sampled(sc + dm.get("scatter", 0), t, K)
                l1, p1, z1 = lap("_sc")
                new["wavefield_sc_0"] = (
                    vs**2 * dt**2 * l1
                    + 2 * F["wavefield_sc_0"]
                    - F["wavefield_sc_m1"]
                    + 2 * vs * ss * dt**2 * l0
                )
                new["wavefield_sc_m1"] = F["wavefield_sc_0"]
                for nm in ds:
                    new[f"psi{nm}_sc_m1"] = p1[nm]
                    new[f"zeta{nm}_sc_m1"] = z1[nm]
            for s, a_ in src.items():
                new[f"wavefield{s}_0"] = add(new[f"wavefield{s}_0"], inj[""][0], a_[..., t])
            F = new
    else:
        DH = [mat_to_half(g.n[d], acc, h[d]) for d in range(ndim)]
        DI = [mat_from_half(g.n[d], acc, h[d]) for d in range(ndim)]
        A, B, AH, BH = [], [], [], []
        for d in range(ndim):
            w = (pml[2 * d], pml[2 * d + 1])
            a, b = pml_ab(np.arange(g.n[d]), g.n[d], w, dt, max_pml, mv, freq)
            ah, bh = pml_ab(np.arange(g.n[d]) + 0.5, g.n[d], w, dt, max_pml, mv, freq)
            A.append(_bc(a, d, ndim))
            B.append(_bc(b, d, ndim))
            AH.append(_bc(ah, d, ndim))
            BH.append(_bc(bh, d, ndim))

        def nxt(x, d):
            """x shifted by +1 in dim d (last repeated: never used)."""
            n = x.shape[d + 1]
            return x.index_select(d + 1, (torch.arange(n) + 1).clamp(max=n - 1))

        def avg_buoy(rho, d):
            s = (rho + nxt(rho, d)) / 2
            ok = s.abs() > 1e-150
            return torch.where(ok, 1 / torch.where(ok, s, torch.ones_like(s)), torch.zeros_like(s))

        if prop == "acoustic":
            rho = models["rho"]
            P = {"K": rho * models["v"] ** 2}
            for d, nm in enumerate(ds):
                P["B" + nm] = avg_buoy(rho, d)
        else:
            bu = models["buoyancy"]
            ok = bu.abs() > 1e-150
            rho = torch.where(ok, 1 / torch.where(ok, bu, torch.ones_like(bu)), torch.zeros_like(bu))
            mu = models["mu"]
            P = {"lamb": models["lamb"], "mu": mu}
            for d, nm in enumerate(ds):
                P["B" + nm] = avg_buoy(rho, d)
            for d1 in range(ndim):
                for d2 in range(d1 + 1, ndim):
                    four = [mu, nxt(mu, d1), nxt(mu, d2), nxt(nxt(mu, d1), d2)]
                    full4 = torch.broadcast_tensors(*four)
                    ok = torch.stack([m.abs() > 1e-150 for m in full4]).all(0)
                    inv = sum(1 / torch.where(ok, m, torch.ones_like(m)) for m in full4)
                    P["mu" + ds[d1] + ds[d2]] = torch.where(
                        ok, 4 / inv, torch.zeros_like(inv)
                    )
        if models_out is not None:
            models_out.update({k: m.detach() for k, m in P.items()})
        scaled = {}
        for k, (idx, a_, mask) in inj.items():
            if k == "p":
                if prop == "acoustic":
                    scaled[k] = a_ * at(P["K"], idx)[..., None] * dt
                else:
                    scaled[k] = -a_ * dt
            else:
                scaled[k] = a_ * at(P["B" + k], idx)[..., None] * dt

        def cpml(mem, deriv, a, b, new):
            new_mem = a * F[mem] + b * deriv
            new[mem] = new_mem
            return deriv + new_mem

        for t in range(nsteps):
            if callback is not None and t % r == 0:
                callback(t // r, F)
            for k, (idx, mask, lst) in rec.items():
                if k == "p":
                    if prop == "acoustic":
                        f = F["pressure_0"]
                    else:
                        f = -sum(F[f"sigma{n_}{n_}_0"] for n_ in ds) / ndim
                else:
                    f = F[f"v{k}_0"]
                lst.append(f.reshape(n_shots, -1).gather(1, idx) * mask.to(D))
            dm = perturb(t // r) if perturb is not None else {}
            Q = {k: sampled(p + dm[k] if k in dm else p, t, K) for k, p in P.items()}
            new = {}
            if prop == "acoustic":
                for d, nm in enumerate(ds):
                    gp = apply(DH[d], F["pressure_0"], d)
                    gp = cpml(f"psi_{nm}_0", gp, AH[d], BH[d], new)
                    vv = F[f"v{nm}_0"] - dt * Q["B" + nm] * gp
                    if nm in scaled:
                        vv = add(vv, inj[nm][0], scaled[nm][..., t])
                    new[f"v{nm}_0"] = vv
                div = 0
                for d, nm in enumerate(ds):
                    dv = apply(DI[d], new[f"v{nm}_0"], d)
                    div = div + cpml(f"phi_{nm}_0", dv, A[d], B[d], new)
                p = F["pressure_0"] - dt * Q["K"] * div
                if "p" in scaled:
                    p = add(p, inj["p"][0], scaled["p"][..., t])
                new["pressure_0"] = p
            else:

                def sname(i, j):
                    # public spelling: later dimension letter first (xy, xz, yz)
                    a_, b_ = sorted((ds.index(i), ds.index(j)))
                    return f"{ds[b_]}{ds[a_]}"

                for d, nm in enumerate(ds):
                    s = apply(DH[d], F[f"sigma{nm}{nm}_0"], d)
                    acc_ = cpml(f"m_sigma{nm}{nm}{nm}_0", s, AH[d], BH[d], new)
                    for d2, nm2 in enumerate(ds):
                        if d2 == d:
                            continue
                        sn = sname(nm, nm2)
                        s = apply(DI[d2], F[f"sigma{sn}_0"], d2)
                        acc_ = acc_ + cpml(f"m_sigma{sn}{nm2}_0", s, A[d2], B[d2], new)
                    vv = F[f"v{nm}_0"] + dt * Q["B" + nm] * acc_
                    if nm in scaled:
                        vv = add(vv, inj[nm][0], scaled[nm][..., t])
                    new[f"v{nm}_0"] = vv
                dn = {}
                for d, nm in enumerate(ds):
                    dv = apply(DI[d], new[f"v{nm}_0"], d)
                    dn[nm] = cpml(f"m_v{nm}{nm}_0", dv, A[d], B[d], new)
                tr = sum(dn.values())
                for nm in ds:
                    s = F[f"sigma{nm}{nm}_0"] + dt * (Q["lamb"] * tr + 2 * Q["mu"] * dn[nm])
                    if "p" in scaled:
                        s = add(s, inj["p"][0], scaled["p"][..., t])
                    new[f"sigma{nm}{nm}_0"] = s
                for d1 in range(ndim):
                    for d2 in range(d1 + 1, ndim):
                        i, j = ds[d1], ds[d2]
                        e1 = cpml(f"m_v{i}{j}_0", apply(DH[d2], new[f"v{i}_0"], d2), AH[d2], BH[d2], new)
                        e2 = cpml(f"m_v{j}{i}_0", apply(DH[d1], new[f"v{j}_0"], d1), AH[d1], BH[d1], new)
                        sn = sname(i, j)
                        new[f"sigma{sn}_0"] = F[f"sigma{sn}_0"] + dt * Q["mu" + i + j] * (e1 + e2)
            F = new

    out_r = {}
    down = down_matrix(nsteps, r, **tp)
    for t in rtypes:
        if t in rec:
            out_r[t] = resample(torch.stack(rec[t][2], -1), down) if rec[t][2] else None
        else:
            out_r[t] = None
    return {k: F[k] for k in wnames}, out_r, dict(dt=dt, step_ratio=r, ext=g.ext, n=g.n, max_vel=mv)
