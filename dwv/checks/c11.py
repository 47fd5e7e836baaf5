"""CFL time stepping and Fourier resampling."""

import math
import warnings

import torch

from .. import cases, ref, rel
from ..harness import Skip
from .c03 import tol_of

ID = "C11"
RULE = (
    "random spacings, time steps (including exact multiples of the limit and one ulp around them, negative ones) and speeds: the returned step is compared "
    "with the definition; random signals, ratios, tapers, pads and shifts: resampling and its gradient are compared with explicit trigonometric sums and "
    "with band-limited signals; random problems of every propagator: the internal step seen by a callback, the warnings, and equality with the same "
    "problem stepped at the internal step by the user; non-trivial: step ratio > 1 or a non-zero signal"
)
N = {"quick": 16000, "thorough": 200000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"kind:cfl": 1000, "kind:signal": 1000, "kind:band": 300, "kind:prop": 200, "kind:fine": 200, "ratio>=20": 100, "warned": 100, "nyquist": 50, "short_taper": 20}


def gen(rng, i, tier):
    k = cases.pick(rng, ["cfl", "signal", "band", "prop", "fine"], [8, 8, 4, 2, 3])
    if k == "cfl":
        nd = rng.randint(1, 3)
        if rng.random() < 0.2:
            # everything in powers of two: no rounding in the limit
            cm = rng.choice([None, 1.0, 0.25, 0.5])
            m = rng.randint(1, 60) if cm else 2 ** rng.randint(0, 5)
            return dict(kind=k, seed=0, h=[2.0 ** rng.randint(-3, 4)], v=2.0 ** rng.randint(2, 12), mode="dyadic", m=m, u=0, sign=rng.choice([1, -1]), c_max=cm, wrap=False)
        return dict(kind=k, seed=rng.randrange(1 << 30), h=[10 ** rng.uniform(-3, 3) for _ in range(nd)] if rng.random() < 0.3 else [rng.uniform(0.5, 20) for _ in range(nd)],
                    v=10 ** rng.uniform(-2, 4), mode=cases.pick(rng, ["any", "exact", "ulp+", "ulp-", "small", "big"]), m=rng.randint(1, 60), u=rng.random(),
                    sign=rng.choice([1, -1]), c_max=rng.choice([None, None, 0.6, 1.0, 0.25]), wrap=rng.random() < 0.3)
    if k in ("signal", "band"):
        return dict(kind=k, seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 3, 4, 5, rng.randint(6, 120)]), r=rng.choice([1, 1, 2, 3, 4, 5, rng.randint(6, 31)]),
                    lead=[rng.randint(1, 3) for _ in range(rng.randint(0, 3))], tf=rng.choice([0.0, 0.0, rng.random(), 1.0, rng.uniform(0, 0.03)]), tp=rng.choice([0.0, 0.0, rng.random(), 1.0]),
                    tt=rng.random() < 0.3, shift=rng.choice([0.0, 0.0, 1.0, -2.0, rng.uniform(-3, 3)]), tiny=rng.choice([0, 1]), dtype=rng.choice(["double", "double", "float"]), default_dtype=rng.choice(["float32"] * 5 + ["float64", "float16", "bfloat16"]))
    if k == "prop":
        c = cases.gen_case(rng, nt=rng.randint(1, 3), mgsi=1, wide=False, step_ratio=rng.choice([1, 2, 3, 7, 19, 20, 23]), courant=rng.choice([0.001, 0.5, 0.999, 0.98]),
                           dtype="double", loc_dtype="long")
        c["kind"] = k
        c["low_max"] = rng.random() < 0.3
        return c
    c = cases.gen_case(rng, mgsi=1, step_ratio=rng.choice([2, 3, 4]), wide=False, dtype=cases.pick(rng, ["double", "float"], [5, 1]), loc_dtype="long", nt=rng.randint(2, 14))
    c["kind"] = k
    return c


def run(c, mon):
    import deepwave.common as dc

    k = c["kind"]
    mon.count(f"kind:{k}")
    if k == "cfl":
        return run_cfl(c, mon, dc)
    if k in ("signal", "band"):
        return run_signal(c, mon, dc)
    if k == "prop":
        return run_prop(c, mon)
    return run_fine(c, mon)


def run_cfl(c, mon, dc):
    h, v = c["h"], c["v"]
    cm = 0.6 if c["c_max"] is None else c["c_max"]
    lim = cm / math.sqrt(sum(1 / x**2 for x in h)) * v / (v * v + 1e-15)
    m = c["m"]
    dt = {"any": lim * (m - 1 + c["u"]) + 1e-3 * lim, "exact": lim * m, "dyadic": cm * h[0] / v * m, "ulp+": math.nextafter(lim * m, math.inf), "ulp-": math.nextafter(lim * m, 0),
          "small": lim * 10 ** (-6 * c["u"]), "big": lim * 10 ** (4 * c["u"])}[c["mode"]] * c["sign"]
    kw = {} if c["c_max"] is None else dict(c_max=cm)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if c["wrap"] and len(h) == 2:
            inner, r = dc.cfl_condition(h[0], h[1], dt, v, **kw)
        else:
            inner, r = dc.cfl_condition_n(list(h), dt, v, **kw)
    mon.check(isinstance(r, int) and r >= 1, "ratio-type", repr(r))
    mon.check(abs(inner) <= lim * (1 + 1e-9), "cfl-limit", f"{inner} limit {lim} for {h} {dt} {v}")
    mon.check(abs(inner * r - dt) <= 1e-12 * abs(dt), "divides", f"{inner} * {r} != {dt}")
    if c["mode"] == "dyadic":
        mon.count("exact_multiples")
        mon.check(r == m, "smallest", f"{dt} is {m} times the limit but is divided by {r}")
    mon.check(r == 1 or abs(dt) / (r - 1) > lim * (1 - 1e-9), "smallest", f"{dt} / {r}: limit {lim}")
    mon.check((inner > 0) == (dt > 0), "sign", f"{inner} {dt}")
    mon.check(bool(w) == (r >= 20), "warning", f"ratio {r}, {len(w)} warnings")
    mon.count("warned", bool(w))
    mon.count("ratio>=20", r >= 20)
    if r > 1:
        mon.nontrivial("cfl")


def run_signal(c, mon, dc):
    dt = torch.float64 if c["dtype"] == "double" else torch.float32
    g = torch.Generator().manual_seed(c["seed"])
    n, r = c["n"], c["r"]
    tol = 1e-9 if c["dtype"] == "double" else 3e-5
    opts = dict(freq_taper_frac=c["tf"], time_pad_frac=c["tp"], time_taper=c["tt"])
    if c["kind"] == "band":
        # periodic and band-limited: exact at every time
        nb = max((n // 2 + 1) - 1, 1)  # bins below the last
        t = torch.arange(n, dtype=torch.float64)
        tf_ = torch.arange(n * r, dtype=torch.float64) / r
        x = torch.zeros(n, dtype=torch.float64)
        y = torch.zeros(n * r, dtype=torch.float64)
        sh = torch.zeros(n, dtype=torch.float64)
        s = c["shift"]
        for k in range(nb):
            a, ph = torch.randn(2, generator=g, dtype=torch.float64).tolist()
            f = 2 * math.pi * k / n
            x += a * torch.cos(f * t + ph)
            y += a * torch.cos(f * tf_ + ph)
            sh += a * torch.cos(f * (t - s / r) + ph)
        x, y, sh = x.to(dt), y.to(dt), sh.to(dt)
        top = max(x.abs().max().item(), 1e-3)
        tol = 1e-9 if c["dtype"] == "double" else 3e-5
        up = dc.upsample(x.clone(), r)
        mon.close(up, y, tol, "band-upsample", floor=top)
        dn = dc.downsample(y.clone(), r)
        mon.close(dn, x, tol, "band-downsample", floor=top)
        mon.close(dc.downsample(up.clone(), r), x, tol, "band-roundtrip", floor=top)
        tiny = 0.9 / (n // 2 + 1) * c["tiny"]  # less than one frequency
        if n % 2 == 0 and nb > 1:
            nyq = (-1.0) ** torch.arange(n, dtype=torch.float64)
            mon.close(dc.upsample(x + nyq.to(dt), r, freq_taper_frac=tiny), y if r > 1 else x + nyq.to(dt), tol, "band-nyquist", floor=top + 1)
            nyq = torch.cos(math.pi * tf_)
            mon.close(dc.downsample(y + nyq.to(dt), r, freq_taper_frac=tiny), x if r > 1 else y + nyq.to(dt), tol, "band-nyquist", floor=top + 1)
            mon.count("nyquist", r > 1)
            mon.count("short_taper", r > 1 and tiny > 0)
        if n > 1 and nb > 1:
            mon.close(dc.downsample(y.clone(), r, shift=s), sh if (r > 1 or s) else x, tol, "band-shift", floor=top)
        mon.nontrivial("band")
        return
    x = torch.randn(*c["lead"], n, generator=g, dtype=torch.float64).to(dt)
    x0 = x.clone()
    up = dc.upsample(x, r, **opts)
    mon.check(torch.equal(x, x0), "input-changed", "upsample")
    mon.check(up.dtype == dt and tuple(up.shape) == (*c["lead"], n * r), "upsample-shape", f"{up.dtype} {tuple(up.shape)}")
    want = ref.resample(x.double(), ref.up_matrix(n, r, **opts))
    mon.close(up, want, tol, "upsample", floor=x.abs().max().item())
    z = torch.randn(*c["lead"], n * r, generator=g, dtype=torch.float64).to(dt)
    z0 = z.clone()
    dn = dc.downsample(z, r, shift=c["shift"], **opts)
    mon.check(torch.equal(z, z0), "input-changed", "downsample")
    mon.check(dn.dtype == dt and tuple(dn.shape) == (*c["lead"], n), "downsample-shape", f"{dn.dtype} {tuple(dn.shape)}")
    M = ref.down_matrix(n * r, r, shift=c["shift"], **opts)
    mon.close(dn, ref.resample(z.double(), M), tol, "downsample", floor=z.abs().max().item() / r)
    dm = dc.downsample_and_movedim(torch.movedim(z, -1, 0), r, shift=c["shift"], **opts)
    mon.close(dm, dn, 1e-12 if dt == torch.float64 else 1e-5, "movedim", floor=z.abs().max().item())
    # gradients: transposed operators
    if n * r <= 200:
        x.requires_grad_()
        wgt = torch.randn(up.shape, generator=g, dtype=torch.float64)
        (gx,) = torch.autograd.grad((dc.upsample(x, r, **opts) * wgt.to(dt)).sum(), [x])
        mon.close(gx, ref.resample(wgt, ref.up_matrix(n, r, **opts).T), tol, "upsample-gradient", floor=1.0)
    mon.nontrivial("signal")


def run_prop(c, mon):
    prop, kw = cases.materialise(c)
    if c["low_max"] and kw["max_vel"] is not None:
        kw["max_vel"] *= -0.8  # only the magnitude counts
    seen = []
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        cases.call(prop, kw, forward_callback=lambda st: seen.append(st.dt))
    nd = c["ndim"]
    h = [float(kw["grid_spacing"])] * nd if not isinstance(kw["grid_spacing"], list) else kw["grid_spacing"]
    mv = rel.true_max_vel(prop, kw)
    lim = 0.6 / math.sqrt(sum(1 / x**2 for x in h)) / mv
    dt = kw["dt"]
    if not seen:
        raise Skip
    for s in seen:
        r = round(dt / s)
        mon.check(r >= 1 and abs(s * r - dt) <= 1e-6 * abs(dt), f"inner-divides:{prop}", f"{s} {dt}")
        mon.check(abs(s) <= lim * (1 + 1e-6), f"inner-limit:{prop}", f"{s} > {lim}")
        mon.check(r <= 1 or abs(dt) / (r - 1) > lim * (1 - 1e-6), f"inner-smallest:{prop}", f"{dt} / {r}, limit {lim}")
    r = round(dt / seen[0])
    cfl_warn = [x for x in w if "CFL" in str(x.message)]
    mon.check(bool(cfl_warn) == (r >= 20), f"cfl-warning:{prop}", f"ratio {r}: {[str(x.message)[:60] for x in w]}")
    mon.count("warned", bool(cfl_warn))
    mon.count("ratio>=20", r >= 20)
    low = kw["max_vel"] is not None and abs(kw["max_vel"]) < rel.true_max_vel(prop, {**kw, "max_vel": None}) * (1 - 1e-6)
    if low:
        mon.count("low_max_vel")
        mon.check(any("max_vel" in str(x.message) for x in w), f"max-vel-warning:{prop}", "")
    mon.nontrivial("prop", prop)


def run_fine(c, mon):
    """The user doing the internal steps himself."""
    prop, kw = cases.materialise(c)
    nd = c["ndim"]
    h = [float(kw["grid_spacing"])] * nd if not isinstance(kw["grid_spacing"], list) else kw["grid_spacing"]
    mv = rel.true_max_vel(prop, kw)
    dt, r = ref.cfl(h, kw["dt"], mv)
    if r == 1:
        raise Skip
    tp = dict(freq_taper_frac=kw.get("freq_taper_frac", 0.0), time_pad_frac=kw.get("time_pad_frac", 0.0), time_taper=kw.get("time_taper", False))
    nt = c["nt"]
    coarse = rel.outs(prop, kw)
    f = {k: v for k, v in kw.items() if k not in ("freq_taper_frac", "time_pad_frac", "time_taper")}
    f["dt"] = dt * (1 - 1e-13)
    U, Dn = ref.up_matrix(nt, r, **tp), ref.down_matrix(nt * r, r, **tp)
    T = torch.float64
    if "nt" in f and f["nt"] is not None:
        f["nt"] = nt * r
    for k in list(f):
        if k.startswith("source_amplitudes"):
            f[k] = ref.resample(f[k].to(T), U).to(f[k].dtype)
    fine = rel.outs(prop, f)
    for k in fine:
        if k.startswith("r:"):
            fine[k] = ref.resample(fine[k].to(T), Dn)
    mon.count(f"prop:{prop}")
    fl = rel.out_floor(prop, fine, c["dtype"])
    rel.compare(mon, coarse, fine, max(tol_of(c), 1e-8), f"fine:{prop}", floor_of=fl)
    if any(v.abs().max() > 0 for v in fine.values() if v.numel()):
        mon.nontrivial("fine", prop)
