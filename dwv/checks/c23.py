"""Wavelets, parameter conversions and signal helpers."""

import math

import torch

from .. import cases

ID = "C23"
RULE = (
    "random arguments (lengths from 0 to 20000, all magnitudes, data types and their defaults, shapes, leading dimensions, memory "
    "layouts, fluids and voids, tapers longer than the signal, odd and even lengths): values, shapes, data types, inverses, gradients "
    "and second gradients compared with the documented formulas evaluated independently in double precision, inputs monitored for "
    "changes; non-trivial: a non-constant result was compared"
)
N = {"quick": 24000, "thorough": 600000}
CAP = {"quick": 300, "thorough": 2400}
NEED = {"kind:ricker": 2000, "kind:convert": 2000, "kind:inverse": 1000, "kind:taper": 1000, "kind:resample": 1000, "gradients": 2000, "spectrum": 60}
PI = math.pi


def gen(rng, i, tier):
    k = cases.pick(rng, ["ricker", "convert", "inverse", "taper", "resample"], [4, 4, 2, 2, 3])
    c = dict(kind=k, seed=rng.randrange(1 << 30), dtype=rng.choice(["double", "double", "float", "none"]))
    if k == "ricker":
        c.update(freq=rng.choice([1.0, 25.0, 10 ** rng.uniform(-3, 6), 10 ** rng.uniform(-3, 6)]), n=rng.choice([0, 1, 2, 3, rng.randint(4, 400), rng.randint(4, 400), 20000 if rng.random() < 0.1 else 50]),
                 rate=rng.uniform(0.01, 0.4), neg=rng.random() < 0.15, peak=rng.choice([0.0, 0.5, 1.0, 1.5, rng.uniform(-1, 2)]), default=rng.choice(["float", "double"]), ints=rng.random() < 0.2)
    elif k in ("convert", "inverse"):
        c.update(shape=[rng.randint(0 if rng.random() < 0.05 else 1, 6) for _ in range(rng.randint(0, 4))], rho=rng.choice([1.0, 2000.0, 0.01, 1e4]), v=rng.choice([1.0, 1500.0, 0.01, 6000.0]),
                 fluid=rng.random() < 0.4, void=rng.random() < 0.3, eps=rng.choice([None, None, 1e-15, 1e-3]), layout=rng.random() < 0.3, pos=rng.random() < 0.5)
    elif k == "taper":
        c.update(lead=[rng.randint(1, 3) for _ in range(rng.randint(0, 3))], n=rng.choice([0, 1, 2, 3, rng.randint(4, 60)]), taper=rng.choice([0, 1, 2, rng.randint(0, 80)]), cplx=rng.random() < 0.3, layout=rng.random() < 0.3)
    else:
        c.update(lead=[rng.randint(1, 3) for _ in range(rng.randint(0, 3))], n=rng.randint(1, 60), r=rng.choice([1, 2, 3, 4, 7]), tf=rng.choice([0.0, rng.random(), rng.uniform(0, 0.05)]), tp=rng.choice([0.0, rng.random()]), tt=rng.random() < 0.3,
                 shift=rng.choice([0.0, rng.uniform(-2, 2)]), layout=rng.random() < 0.3)
    return c


def T(name):
    return {"double": torch.float64, "float": torch.float32, "none": torch.get_default_dtype()}[name]


def run(c, mon):
    mon.count(f"kind:{c['kind']}")
    globals()[c["kind"]](c, mon)


# ------------------------------------------------------------ wavelet
def ricker(c, mon):
    from deepwave.wavelets import ricker as f

    freq, n = c["freq"], c["n"]
    dt = c["rate"] / freq * (-1 if c["neg"] else 1)
    span = abs(dt) * max(n - 1, 1)
    peak = c["peak"] * min(span, 3 / freq) * (-1 if c["neg"] else 1)
    if c["ints"]:
        freq, dt, peak = 1, (1 if not c["neg"] else -1), int(c["peak"] * 3)
    old = torch.get_default_dtype()
    try:
        torch.set_default_dtype(T(c["default"]))
        y = f(freq, n, dt, peak) if c["dtype"] == "none" else f(freq, n, dt, peak, dtype=T(c["dtype"]))
        want_dtype = T(c["dtype"])
    finally:
        torch.set_default_dtype(old)
    if not mon.check(tuple(y.shape) == (n,), "ricker-shape", f"{tuple(y.shape)} for {n}"):
        return
    mon.check(y.dtype == (want_dtype if c["dtype"] != "none" else T(c["default"])), "ricker-dtype", f"{y.dtype}")
    mon.check(not y.requires_grad, "ricker-grad")
    # the definition, evaluated sample by sample
    tol = 1e-10 if y.dtype == torch.float64 else 1e-6
    worst = 0.0
    for i in ([*range(n)] if n <= 400 else [*range(0, n, 97), *range(0, 40)]):
        t = i * dt - peak
        a = (PI * freq * t) ** 2
        w = (1 - 2 * a) * math.exp(-a)
        slack = tol * (1 + 30 * freq * (abs(i * dt) + abs(peak)))
        d = abs(y[i].item() - w) / slack
        worst = max(worst, d if d == d else math.inf)
    mon.maximum("ricker", worst * tol)
    mon.check(worst <= 1, "ricker-value", f"{worst} x tolerance, freq {freq} dt {dt} peak {peak} n {n}")
    if n and float(y.abs().max()) > 1e-3:
        mon.nontrivial("ricker")
    # the spectrum peaks at the central frequency
    if not c["ints"] and n >= 200 and c["rate"] < 0.2 and c["rate"] * n > 12 and 0.2 < c["peak"] and abs(peak * freq) > 1.4 and span * freq - abs(peak * freq) > 1.4 and y.dtype == torch.float64:
        m = 16384
        s = torch.fft.rfft(y, n=max(m, n)).abs()
        fp = s.argmax().item() / (max(m, n) * abs(dt))
        mon.count("spectrum")
        mon.check(abs(fp / freq - 1) < 0.02 + 1 / (max(m, n) * abs(dt) * freq), "ricker-spectrum", f"peak {fp} for {freq}")


# ------------------------------------------------------------ parameters
def fields(c):
    g = torch.Generator().manual_seed(c["seed"])
    sh = c["shape"]

    def u(lo, hi):
        return lo + (hi - lo) * torch.rand(sh, generator=g, dtype=torch.float64)

    vp, vs, rho = c["v"] * u(0.5, 3), c["v"] * u(0.05, 0.3), c["rho"] * u(0.5, 2)
    if c["fluid"]:
        vs = vs * (u(0, 1) > 0.3)
    if c["void"]:
        keep = u(0, 1) > 0.3
        rho = rho * keep
        z = keep | (u(0, 1) > 0.5)
        vp, vs = vp * z, vs * z
    return vp, vs, rho


def lay(x, on):
    if not on or x.ndim < 2:
        return x
    return x.transpose(0, -1).contiguous().transpose(0, -1)


def deriv(f, xs, g):
    """Gradient and Hessian product of sum_i <g_i, f_i(xs)>."""
    xs = [x.detach().clone().requires_grad_() for x in xs]
    L = sum((a * b).sum() for a, b in zip(g, f(*xs)))
    gs = torch.autograd.grad(L, xs, create_graph=True, allow_unused=True)
    gs = [torch.zeros_like(x) if a is None else a for x, a in zip(xs, gs)]
    S = sum((a * x.detach()).sum() for a, x in zip(gs, xs))
    hs = torch.autograd.grad(S, xs, allow_unused=True) if S.requires_grad else [None] * len(xs)
    return [a.detach() for a in gs], [torch.zeros_like(x) if h is None else h for x, h in zip(xs, hs)]


def convert(c, mon):
    import deepwave.common as dc

    vp, vs, rho = fields(c)
    dt = T(c["dtype"])
    vp, vs, rho = (lay(x.to(dt), c["layout"]) for x in (vp, vs, rho))
    e = {} if c["eps"] is None else dict(eps=c["eps"])
    eps = c["eps"] or 1e-15
    keep = [x.clone() for x in (vp, vs, rho)]
    out = dc.vpvsrho_to_lambmubuoyancy(vp, vs, rho, **e) if c["pos"] else dc.vpvsrho_to_lambmubuoyancy(vp=vp, vs=vs, rho=rho, **e)
    mon.check(isinstance(out, tuple) and len(out) == 3, "convert-type")
    P, S, R = (x.double() for x in keep)
    tol = 1e-12 if dt == torch.float64 else 1e-5
    want = [(P * P - 2 * S * S) * R, S * S * R, R / (R * R + eps)]
    pointwise(mon, out, want, [P * P * R, None, None], tol, dt, "convert")
    mon.check(all(torch.equal(a, b) for a, b in zip((vp, vs, rho), keep)), "convert-changed-inputs")
    # voids and fluids
    mon.check(bool((out[0][R == 0] == 0).all() and (out[1][R == 0] == 0).all() and (out[2][R == 0] == 0).all()), "void")
    mon.check(bool((out[1][S == 0] == 0).all()), "fluid")
    if dt == torch.float64:
        g = [torch.randn(vp.shape, generator=torch.Generator().manual_seed(c["seed"] + 1), dtype=dt) for _ in range(3)]
        gs, hs = deriv(lambda a, b, d: dc.vpvsrho_to_lambmubuoyancy(a, b, d, **e), [vp, vs, rho], g)
        D = R * R + eps
        want = [2 * P * R * g[0], -4 * S * R * g[0] + 2 * S * R * g[1], (P * P - 2 * S * S) * g[0] + S * S * g[1] + (eps - R * R) / D**2 * g[2]]
        for a, b, n in zip(gs, want, ("vp", "vs", "rho")):
            sc = (b.abs() + (P * P * g[0].abs() if n == "rho" else 0 * b) + 1e-300)
            mon.count("gradients")
            mon.check(bool(((a - b).abs() <= 1e-9 * sc + 1e-9 * (abs(1 / eps) if n == "rho" else 0) * (R == 0)).all()), f"convert-gradient:{n}", f"{a} {b}")
        # d/dx of sum_j G_j x_j with the gradient above
        wv = 2 * R * g[0] * P + 2 * P * g[0] * R
        mon.check(bool(((hs[0] - wv).abs() <= 1e-9 * (wv.abs() + 1e-300)).all()), "convert-second:vp")
        wv = (-4 * g[0] + 2 * g[1]) * 2 * S * R
        mon.check(bool(((hs[1] - wv).abs() <= 1e-9 * (8 * (g[0].abs() + g[1].abs()) * S * R + 1e-300)).all()), "convert-second:vs")
    # and back (where there is a material)
    if c["eps"] is None and c["rho"] <= 2000:
        back = dc.lambmubuoyancy_to_vpvsrho(*out)
        m = R > 0
        rt = 1e-6 if dt == torch.float64 else 1e-3
        for a, b, n in zip(back, (P, S, R), ("vp", "vs", "rho")):
            ref_ = P if n != "rho" else R
            mon.check(bool(((a.double() - b).abs()[m] <= rt * ref_[m]).all()), f"round-trip:{n}", f"{a} {b}")
            mon.check(bool((a[~m] == 0).all()), f"round-trip-void:{n}")
    if vp.numel():
        mon.nontrivial("convert")


def pointwise(mon, got, want, scale, tol, dt, tag):
    for k, (a, b, s) in enumerate(zip(got, want, scale)):
        if not mon.check(a.shape == b.shape and a.dtype == dt, f"{tag}-shape:{k}", f"{a.shape} {a.dtype}"):
            continue
        s = b.abs() if s is None else s.abs() + b.abs()
        e = (a.double() - b).abs()
        mon.check(bool((e <= tol * s + 1e-300).all()), f"{tag}-value:{k}", f"{a} {b}"[:600])
        if e.numel():
            mon.maximum(f"{tag}:{dt}", torch.nan_to_num(e / (s + 1e-300)).max().item())


def inverse(c, mon):
    import deepwave.common as dc

    vp, vs, rho = fields(c)
    dt = T(c["dtype"])
    m0 = (rho > 0).double()
    lamb, mu, b = (vp**2 - 2 * vs**2) * rho, vs**2 * rho, m0 / (rho + (1 - m0))
    lamb, mu, b = (lay(x.to(dt), c["layout"]) for x in (lamb, mu, b))
    e = {} if c["eps"] is None else dict(eps=c["eps"])
    eps = c["eps"] or 1e-15
    keep = [x.clone() for x in (lamb, mu, b)]
    out = dc.lambmubuoyancy_to_vpvsrho(lamb, mu, b, **e) if c["pos"] else dc.lambmubuoyancy_to_vpvsrho(lamb=lamb, mu=mu, buoyancy=b, **e)
    mon.check(isinstance(out, tuple) and len(out) == 3, "inverse-type")
    L, M, B = (x.double() for x in keep)
    tol = 1e-12 if dt == torch.float64 else 1e-5
    want = [((L + 2 * M) * B).sqrt(), (M * B).sqrt(), B / (B * B + eps)]
    pointwise(mon, out, want, [None] * 3, tol, dt, "inverse")
    mon.check(all(torch.equal(x, y) for x, y in zip((lamb, mu, b), keep)), "inverse-changed-inputs")
    if dt == torch.float64 and not c["fluid"] and not c["void"] and L.numel():
        g = [torch.randn(L.shape, generator=torch.Generator().manual_seed(c["seed"] + 1), dtype=dt) for _ in range(3)]
        gs, _ = deriv(lambda x, y, z: dc.lambmubuoyancy_to_vpvsrho(x, y, z, **e), [lamb, mu, b], g)
        p, s = want[0], want[1]
        D = B * B + eps
        w = [B / (2 * p) * g[0], B / p * g[0] + B / (2 * s) * g[1], (L + 2 * M) / (2 * p) * g[0] + M / (2 * s) * g[1] + (eps - B * B) / D**2 * g[2]]
        sc = [w[0].abs(), (B / p * g[0]).abs() + (B / (2 * s) * g[1]).abs(), ((L + 2 * M) / (2 * p) * g[0]).abs() + (M / (2 * s) * g[1]).abs() + (g[2] / D).abs() + (B * B / D**2 * g[2]).abs()]
        for a, x, q, n in zip(gs, w, sc, ("lamb", "mu", "buoyancy")):
            mon.count("gradients")
            mon.check(bool(((a - x).abs() <= 1e-9 * q + 1e-300).all()), f"inverse-gradient:{n}", f"{a} {x}"[:500])
    if L.numel():
        mon.nontrivial("inverse")


# ------------------------------------------------------------ signals
def signal(c, cplx=False):
    g = torch.Generator().manual_seed(c["seed"])
    x = torch.randn(*c["lead"], c["n"], generator=g, dtype=torch.float64)
    if cplx:
        x = torch.complex(x, torch.randn(x.shape, generator=g, dtype=torch.float64))
        x = x.to(torch.complex64 if T(c["dtype"]) == torch.float32 else torch.complex128)
    else:
        x = x.to(T(c["dtype"]))
    return lay(x, c["layout"])


def taper(c, mon):
    import deepwave.common as dc

    x = signal(c, c["cplx"])
    n, k = c["n"], min(c["taper"], c["n"])
    w = torch.ones(n, dtype=torch.float64)
    for j in range(k):
        w[n - k + j] = (1 + math.cos(PI * (j + 1) / k)) / 2
    y = dc.cosine_taper_end(x.clone(), c["taper"])
    mon.check(y.shape == x.shape and y.dtype == x.dtype, "taper-shape", f"{y.shape} {y.dtype}")
    want = x * w
    top = x.abs().max().item() if x.numel() else 1.0
    mon.check(bool(((y - want).abs() <= 1e-6 * max(top, 1e-30)).all()), "taper-value", f"{n} {c['taper']}")
    mon.check(bool((y[..., : n - k] == x[..., : n - k]).all()), "taper-before")
    # differentiable
    z = x.clone().requires_grad_()
    g = signal(dict(c, seed=c["seed"] + 1), c["cplx"])
    out = dc.cosine_taper_end(z * 1.0, c["taper"])
    if x.numel():
        (G,) = torch.autograd.grad(out, z, g)
        mon.count("gradients")
        mon.check(bool(((G - g * w).abs() <= 1e-6 * g.abs().max()).all()), "taper-gradient")
        mon.nontrivial("taper")
    y = dc.zero_last_element_of_final_dimension(x.clone())
    want = x.clone()
    if x.numel():
        want[..., -1] = 0
    mon.check(torch.equal(y, want), "zero-last")
    if x.numel():
        (G,) = torch.autograd.grad(dc.zero_last_element_of_final_dimension(z * 1.0), z, g)
        wg = g.clone()
        wg[..., -1] = 0
        mon.count("gradients")
        mon.check(torch.equal(G, wg), "zero-last-gradient")


def resample(c, mon):
    """Relations between the helpers (their values are the subject of C11)."""
    import deepwave.common as dc

    x = signal(c)
    n, r = c["n"], c["r"]
    opts = dict(freq_taper_frac=c["tf"], time_pad_frac=c["tp"], time_taper=c["tt"])
    keep = x.clone()
    up = dc.upsample(x, r, **opts)
    mon.check(torch.equal(x, keep), "upsample-changed-input")
    mon.check(tuple(up.shape) == (*c["lead"], n * r) and up.dtype == x.dtype, "upsample-shape", f"{tuple(up.shape)} {up.dtype}")
    if r == 1:
        mon.check(torch.equal(up, x), "upsample-identity")
    y = signal(dict(c, n=n * r, seed=c["seed"] + 2))
    keep = y.clone()
    dn = dc.downsample(y, r, **opts, shift=c["shift"])
    mon.check(torch.equal(y, keep), "downsample-changed-input")
    mon.check(tuple(dn.shape) == (*c["lead"], n) and dn.dtype == y.dtype, "downsample-shape", f"{tuple(dn.shape)} {dn.dtype}")
    if r == 1 and c["shift"] == 0:
        mon.check(torch.equal(dn, y), "downsample-identity")
    tol = 1e-10 if x.dtype == torch.float64 else 1e-4
    # linear, and each trace on its own
    a, b = 0.7, -1.9
    up2 = dc.upsample(signal(dict(c, seed=c["seed"] + 3)), r, **opts)
    mon.close(dc.upsample(a * x + b * signal(dict(c, seed=c["seed"] + 3)), r, **opts), a * up + b * up2, tol, "upsample-linear", floor=1e-3)
    if c["lead"]:
        mon.close(dc.upsample(x[0].contiguous(), r, **opts), up[0], tol, "upsample-trace", floor=1e-3)
        mon.close(dc.downsample(y[0].contiguous(), r, **opts, shift=c["shift"]), dn[0], tol, "downsample-trace", floor=1e-3)
    # adjoint gradients
    z = x.clone().requires_grad_()
    (G,) = torch.autograd.grad(dc.upsample(z * 1.0, r, **opts), z, y)
    lhs, rhs = (up * y).sum().item(), (x * G).sum().item()
    size = up.abs().max().item() * y.abs().sum().item() + 1e-30
    mon.count("gradients")
    mon.check(abs(lhs - rhs) <= tol * size, "upsample-gradient", f"{lhs} {rhs}")
    z = y.clone().requires_grad_()
    (G,) = torch.autograd.grad(dc.downsample(z * 1.0, r, **opts, shift=c["shift"]), z, x)
    lhs, rhs = (dn * x).sum().item(), (y * G).sum().item()
    size = dn.abs().max().item() * x.abs().sum().item() + 1e-30
    mon.count("gradients")
    mon.check(abs(lhs - rhs) <= tol * size, "downsample-gradient", f"{lhs} {rhs}")
    mon.nontrivial("resample")
