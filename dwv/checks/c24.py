"""Convergence to solutions of the continuous equations."""

import math

import numpy as np
import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C24"
RULE = (
    "order: a plane wave in any direction that is exact in (discrete) time is propagated on two grids: the error in the part not reached by the edges must fall at "
    "the nominal spatial order; time: the same with two time steps, order two; green: recordings of every receiver type from every source type against the "
    "analytic Green functions of the homogeneous medium (amplitude, half-cell and half-step positions); interface: reflection and transmission coefficients; "
    "single: float32 against float64; non-trivial: non-zero analytic solution"
)
N = {"quick": 1000, "thorough": 12000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"kind:order": 120, "kind:time": 30, "kind:green": 25, "kind:interface": 15, "kind:single": 40}
KINDS = ["order", "green", "order", "time", "single", "order", "interface", "order"]


def gen(rng, i, tier):
    kind = KINDS[(i + i // 8) % 8]
    c = dict(kind=kind, seed=rng.randrange(1 << 30), prop=rng.choice(cases.PROPS), ndim=rng.choice([1, 2, 2, 3]), acc=rng.choice([2, 4, 6, 8]))
    c["eager"] = kind in ("order", "time") and rng.random() < 0.2
    if kind == "single":
        over = dict(prop=c["prop"], dtype="double", zero_cells=0, void=False)
        c["case"] = cases.gen_case(rng, **over)
    return c


def run(c, mon):
    globals()[c["kind"]](c, mon)
    mon.count(f"kind:{c['kind']}")


# ------------------------------------------------------------ plane waves
def medium(prop, nd, rng):
    """(model kwargs as numbers, speed of the wave to send, S polarised?)"""
    if prop == "elastic":
        rho, vp = rng.uniform(0.7, 2), rng.uniform(0.8, 2)
        vs = vp * rng.uniform(0.35, 0.65)
        shear = nd > 1 and rng.random() < 0.5
        return dict(lamb=rho * (vp**2 - 2 * vs**2), mu=rho * vs**2, buoyancy=1 / rho), vs if shear else vp, vp, shear
    v = rng.uniform(0.8, 2)
    if prop == "acoustic":
        return dict(v=v, rho=rng.uniform(0.7, 2)), v, v, False
    if prop == "born":
        return dict(v=v, scatter=rng.uniform(0.05, 0.3)), v, v, False
    return dict(v=v), v, v, False


def plane(prop, nd, m, c, k, pol, dt, exact_time, n):
    """-> {field name: complex amplitude at time step n} with phase e^{i k x}."""
    kk = float(np.linalg.norm(k))
    w = 2 / dt * math.asin(c * kk * dt / 2) if exact_time else c * kk
    wh = 2 / dt * math.sin(w * dt / 2)
    ds = ref.dims_of(nd)

    def at(t):
        return np.exp(-1j * w * t)

    if prop in ("scalar", "born"):
        out = {"wavefield_0": at(n * dt), "wavefield_m1": at((n - 1) * dt)}
        if prop == "born":
            s = (c * kk * dt) ** 2
            a = -2 * s / c * m["scatter"]
            if exact_time:
                prev, cur = 0j, 0j
                for j in range(n):
                    prev, cur = cur, (2 - s) * cur - prev + a * at(j * dt)
            else:
                # derivative of cos/sin solutions with respect to the speed:
                # w_tt + c2k2 w = -2 c delta k2 u with w = w_t = 0 at time 0
                def sol(t):
                    W = c * kk
                    f = -2 * c * m["scatter"] * kk**2
                    # u = e^{-iWt}: particular solution f t e^{-iWt} / (-2 i W)
                    p = f * t * np.exp(-1j * W * t) / (-2j * W)
                    return p - f / (-2j * W) * math.sin(W * t) / W
                cur, prev = sol(n * dt), sol((n - 1) * dt)
            out["wavefield_sc_0"], out["wavefield_sc_m1"] = cur, prev
        return out
    out = {}
    tv = (n - 0.5) * dt
    if prop == "acoustic":
        for i, d in enumerate(ds):
            out[f"v{d}_0"] = k[i] / (m["rho"] * wh) * at(tv) if exact_time else k[i] / (m["rho"] * w) * at(tv)
        out["pressure_0"] = at(n * dt)
        return out
    la, mu = m["lamb"], m["mu"]
    ww = wh if exact_time else w
    for i, d in enumerate(ds):
        out[f"v{d}_0"] = pol[i] * at(tv)
        for j in range(i, nd):
            s = mu * (k[i] * pol[j] + k[j] * pol[i]) + (la * float(np.dot(k, pol)) if i == j else 0)
            out[f"sigma{ds[j]}{d}_0"] = -s / ww * at(n * dt)
    return out


def grid_phase(prop, name, shape, h, k):
    ds = ref.dims_of(len(shape))
    half = ref.half_dims(prop, name) if prop in ("acoustic", "elastic") else set()
    ph = np.zeros(shape)
    for d, n in enumerate(shape):
        x = (np.arange(n) + (0.5 if ds[d] in half else 0)) * h[d]
        ph = ph + k[d] * x.reshape([-1 if e == d else 1 for e in range(len(shape))])
    return np.exp(1j * ph)


def plane_error(prop, nd, m, c, k, pol, h, dt, nt, acc, exact_time, inner, eager=False):
    """Largest error per field group, relative to the amplitude of the group."""
    per = acc if prop in ("acoustic", "elastic") else acc // 2
    margin = per * nt + 1
    shape = [inner + 2 * margin] * nd
    start, end = (plane(prop, nd, m, c, k, pol, dt, exact_time, n) for n in (0, nt))
    kw = {n: torch.full(shape, x, dtype=torch.float64) for n, x in m.items()}
    for name, a in start.items():
        z = a * grid_phase(prop, name, shape, h, k)
        kw[name] = torch.tensor(np.stack([z.real, z.imag]))
    kw.update(grid_spacing=list(h), dt=dt, accuracy=acc, pml_width=0, nt=nt, pml_freq=0.1 / dt, _ndim=nd, origin=[0] * nd)
    w, _ = cases.call(prop, kw, **({"python_backend": "eager"} if eager else {}))
    worst = {}
    cut = slice(margin, margin + inner)
    for name, a in end.items():
        z = a * grid_phase(prop, name, shape, h, k)
        got = w[name][0].numpy() + 1j * w[name][1].numpy()
        g = group(name)
        e = np.abs(got - z)[(cut,) * nd].max()
        amp = worst.setdefault(g, [0.0, 0.0])
        amp[0], amp[1] = max(amp[0], e), max(amp[1], abs(a))
    return {g: (e / s if s else math.inf) for g, (e, s) in worst.items()}


def group(name):
    return "v" if name[0] == "v" else "sigma" if name.startswith("sigma") else "sc" if "_sc" in name else "u"


def setup_plane(c):
    import random

    rng = random.Random(c["seed"])
    prop, nd, acc = c["prop"], c["ndim"], c["acc"]
    m, cs, vmax, shear = medium(prop, nd, rng)
    if c["kind"] == "time":
        acc = c["acc"] = 8 if nd < 3 else 6
    h = np.array([rng.uniform(0.7, 1.5) for _ in range(nd)])
    dirn = np.array([rng.choice([-1, 1]) * rng.uniform(0.3, 1) for _ in range(nd)])
    dirn /= np.linalg.norm(dirn)
    if prop == "elastic" and shear:
        pol = np.array([rng.uniform(-1, 1) for _ in range(nd)])
        pol -= dirn * pol.dot(dirn)
        if np.linalg.norm(pol) < 0.2:
            raise Skip
        pol /= np.linalg.norm(pol)
    else:
        pol = dirn
    return rng, prop, nd, acc, m, cs, vmax, h, dirn, pol


def order(c, mon):
    rng, prop, nd, acc, m, cs, vmax, h, dirn, pol = setup_plane(c)
    kh = rng.uniform(0.5, 0.7)
    k = dirn * kh / max(abs(dirn * h))
    nt = rng.choice([2, 3]) if nd == 3 else rng.randint(2, 7)
    dt = rng.uniform(0.5, 0.95) * 0.6 / math.sqrt(sum(4 / x**2 for x in h)) / vmax
    inner = 3 if nd == 3 else 6
    e1 = plane_error(prop, nd, m, vmax if prop != "elastic" else cs, k, pol, h, dt, nt, acc, True, inner, c["eager"])
    e2 = plane_error(prop, nd, m, vmax if prop != "elastic" else cs, k, pol, h / 2, dt, nt, acc, True, inner, c["eager"])
    for g in e1:
        p = math.log2(e1[g] / e2[g]) if e1[g] > 0 and e2[g] > 0 else math.nan
        mon.maximum(f"order_off_{prop}", abs(p - acc) if p == p else 99)
        mon.count("orders")
        mon.check(abs(p - acc) <= ORDER_TOL, f"order:{prop}:{g}", lambda: f"{nd}D accuracy {acc}: errors {e1[g]:.3g} and {e2[g]:.3g} on the grid of half the spacing: order {p:.3f}")
    mon.count("eager", int(c["eager"]))
    mon.nontrivial(prop, nd, acc)


ORDER_TOL = 0.25


def time(c, mon):
    rng, prop, nd, acc, m, cs, vmax, h, dirn, pol = setup_plane(c)
    kh = 0.12 if nd < 3 else 0.1
    k = dirn * kh / max(abs(dirn * h))
    nt = rng.choice([1, 2]) if nd == 3 else rng.randint(2, 6)
    dt = rng.uniform(0.7, 0.98) * 0.6 / math.sqrt(sum(1 / x**2 for x in h)) / vmax
    inner = 3
    cc = vmax if prop != "elastic" else cs
    e1 = plane_error(prop, nd, m, cc, k, pol, h, dt, nt, acc, False, inner, c["eager"])
    e2 = plane_error(prop, nd, m, cc, k, pol, h, dt / 2, 2 * nt, acc, False, inner, c["eager"])
    for g in e1:
        p = math.log2(e1[g] / e2[g]) if e1[g] > 0 and e2[g] > 0 else math.nan
        # leapfrog from two exact states: the error grows with n (n + 1)
        want = 2.0 if g in ("v", "sigma") or prop == "acoustic" else math.log2(16 * (nt + 1) / (2 * (2 * nt + 1)))
        mon.maximum(f"time_order_off_{prop}", abs(p - want) if p == p else 99)
        mon.count("time-orders")
        mon.check(abs(p - want) <= 0.15, f"time:{prop}:{g}", lambda: f"{nd}D accuracy {acc}: errors {e1[g]:.3g} and {e2[g]:.3g} with half the time step: order {p:.3f}")
    mon.nontrivial("time", prop, nd)


# ------------------------------------------------------------ single precision
def single(c, mon):
    prop, kw = cases.materialise(c["case"])
    w, r = cases.call(prop, kw)
    f = {k: v.float() if torch.is_tensor(v) and v.is_floating_point() and "locations" not in k else v for k, v in kw.items()}
    # the same numbers in both precisions
    kw = {k: f[k].double() if torch.is_tensor(v) and v.is_floating_point() and "locations" not in k else v for k, v in kw.items()}
    w, r = cases.call(prop, kw)
    w1, r1 = cases.call(prop, f)
    floors = rel.out_floor(prop, {**{f"w:{k}": v for k, v in w.items()}, **{f"r:{k}": v for k, v in r.items() if v is not None}}, "float")
    for a, b, t in ((w, w1, "w"), (r, r1, "r")):
        for n in a:
            if a[n] is None:
                mon.check(b[n] is None, f"single:{prop}", n)
                continue
            mon.check(b[n].dtype == torch.float32 and a[n].dtype == torch.float64, f"single-dtype:{prop}", n)
            mon.maximum(f"single_{prop}_{t}", cases.err(b[n], a[n], floors(f"{t}:{n}")))
            mon.close(b[n], a[n], 1e-3, f"single:{prop}:{n}", floor=floors(f"{t}:{n}"))
            if a[n].abs().max() > 0:
                mon.nontrivial("single", prop)


# ------------------------------------------------------------ Green functions
def green_d(nd, k, r):
    """Outgoing g (with e^{iwt}), g' and g''; Laplacian g + k^2 g = -delta."""
    from scipy.special import hankel2

    if nd == 1:
        g = -0.5j / k * np.exp(-1j * k * r)
        d = -1j * k * g
    elif nd == 2:
        g = -0.25j * hankel2(0, k * r)
        d = 0.25j * k * hankel2(1, k * r)
    else:
        g = np.exp(-1j * k * r) / (4 * math.pi * r)
        d = -(1j * k + 1 / r) * g
    return g, d, -(k**2) * g - (nd - 1) * d / r


def hess(nd, k, x):
    """-> g, gradient [nd], Hessian [nd][nd] at offset x."""
    r = float(np.linalg.norm(x))
    g, d, d2 = green_d(nd, k, r)
    n = x / r
    grad = [d * n[i] for i in range(nd)]
    H = [[d2 * n[i] * n[j] + d * ((i == j) - n[i] * n[j]) / r for j in range(nd)] for i in range(nd)]
    return g, grad, H


def predict(prop, nd, m, st, rt, x, h, dt, f, n):
    """Recording of type rt from source of type st at offset x (physical)."""
    big = 4 * n
    F = np.fft.rfft(np.concatenate([f, np.zeros(big - len(f))]))
    w = 2 * math.pi * np.fft.rfftfreq(big, dt)
    wh = 2 / dt * np.sin(w * dt / 2)
    wh[0] = wh[1]
    hd = float(np.prod(h))
    ds = ref.dims_of(nd)
    if prop in ("scalar", "born"):
        out = -hd * F * green_d(nd, wh / m["v"], float(np.linalg.norm(x)))[0]
    else:
        if prop == "acoustic":
            rho = m["rho"]
            g, gr, H = hess(nd, wh / m["v"], x)
            if st == "p":
                P, dP = rho * 1j * wh * g, [rho * 1j * wh * q for q in gr]
            else:
                j = ds.index(st)
                P, dP = -gr[j], [-H[i][j] for i in range(nd)]
            out = P if rt == "p" else -dP[ds.index(rt)] / (rho * 1j * wh)
        else:
            la, mu, rho = m["lamb"], m["mu"], 1 / m["buoyancy"]
            M = la + 2 * mu
            ka, kb = wh * math.sqrt(rho / M), wh * math.sqrt(rho / mu)
            ga, gra, Ha = hess(nd, ka, x)
            gb, _, Hb = hess(nd, kb, x)
            if st == "p":
                out = -(la + 2 * mu / nd) * (-1j) / wh * ka**2 / M * ga if rt == "p" else -gra[ds.index(rt)] / M
            else:
                j = ds.index(st)
                if rt == "p":
                    out = -(la + 2 * mu / nd) * gra[j] / M
                else:
                    i = ds.index(rt)
                    if nd == 1:
                        out = 1j * wh / (rho * wh**2) * ka**2 * ga
                    else:
                        out = 1j * wh / (rho * wh**2) * (kb**2 * gb * (i == j) + Hb[i][j] - Ha[i][j])
        out = out * hd * F
        # pressure sources act half a step later, velocities are recorded half a step earlier
        if st == "p":
            out = out * np.exp(-0.5j * w * dt)
        if rt != "p":
            out = out * np.exp(-0.5j * w * dt)
    out[0] = 0
    return np.fft.irfft(out, n=big)[:n]


PPW = {2: 26, 4: 12, 6: 9, 8: 8}


def green(c, mon):
    import random

    rng = random.Random(c["seed"])
    prop, nd, acc = c["prop"], c["ndim"], c["acc"]
    if prop == "born":
        prop = "scalar"
    if nd == 3 and prop == "elastic" and c["seed"] % 3:
        nd = 2
    if nd == 3 and acc == 2:
        acc = 4
    m, _, vmax, _ = medium(prop, nd, rng)
    if nd == 3 and prop == "elastic":
        m["mu"] = 0.4 * vmax**2 / m["buoyancy"]
        m["lamb"] = 0.2 * vmax**2 / m["buoyancy"]
    vmin = vmax if prop != "elastic" or nd == 1 else math.sqrt(m["mu"] * m["buoyancy"])
    h = np.array([rng.uniform(0.85, 1.15) for _ in range(nd)])
    dt = 0.97 * 0.6 / math.sqrt(sum(1 / x**2 for x in h)) / vmax
    freq = vmin / (PPW[acc] * max(h))  # peak frequency
    wavelet_n = int(2.6 / freq / dt)
    far = {1: 25, 2: 14, 3: 7 if prop != "elastic" else 5}[nd]
    near = {1: 4, 2: 5, 3: 4}[nd]
    free = nd == 3
    ds = ref.dims_of(nd)
    st = rng.choice(ref.source_types(prop, nd))
    # recordings end when the slowest wave has passed the furthest receiver
    reach = far * max(h) * math.sqrt(nd)
    nt = int((reach / vmin + 2.6 / freq) / dt) if not free else int((far * max(h) * 1.3 / vmin + 1.9 / freq) / dt)
    if free:
        # no edge reflection before the end: fastest wave there and back
        n = int((vmax * nt * dt) / min(h) / 2 + far / 2) + 4
        half = n
        pml = 0
    else:
        half = far + 6
        pml = 16
    shape = [2 * half + 1] * nd
    t = (np.arange(nt) - 1.3 / freq / dt) * dt
    a = (math.pi * freq * t) ** 2
    f = (1 - 2 * a) * np.exp(-a)
    f[int(2.6 / freq / dt):] = 0
    kw = {k: torch.full(shape, v, dtype=torch.float64) for k, v in m.items()}
    kw.update(grid_spacing=list(h), dt=dt, accuracy=acc, pml_width=pml, pml_freq=freq, _ndim=nd)
    kw[ref.sloc_name(st)] = torch.full((1, 1, nd), half)
    kw[ref.amp_name(st)] = torch.tensor(f)[None, None]
    recs = {}
    for rt in ref.receiver_types(prop, nd):
        if prop == "scalar" and rt != ref.receiver_types(prop, nd)[-1]:
            continue
        pts = set()
        while len(pts) < 4:
            o = tuple(rng.randint(-far, far) for _ in range(nd))
            dist = math.sqrt(sum(x * x for x in o))
            if near <= dist <= (far if free else 1e9):
                pts.add(o)
        recs[rt] = sorted(pts)
        kw[ref.rloc_name(rt)] = torch.tensor(recs[rt])[None] + half
    _, r = cases.call(prop, kw)

    def pos(typ):
        return np.array([0.5 if typ == d else 0.0 for d in ds])

    for rt, pts in recs.items():
        want, got, peak = [], [], 0.0
        for i, o in enumerate(pts):
            x = (np.array(o) + pos(rt) - pos(st)) * h
            want.append(predict(prop, nd, m, st, rt, x, h, dt, f, nt))
            got.append(r[rt][0, i].numpy())
            # numerical anisotropy turns the direction of motion a little, so
            # velocities are compared with the length of the whole vector
            peak = max([peak, np.abs(want[-1]).max()] + ([np.abs(predict(prop, nd, m, st, q, x, h, dt, f, nt)).max() for q in ds] if rt in ds else []))
        want, got = np.array(want), np.array(got)
        e = np.abs(got - want).max() / peak
        mon.maximum(f"green_{prop}_{nd}d_acc{acc}", e)
        mon.count("traces", len(pts))
        mon.check(e <= GREEN_TOL, f"green:{prop}:{st}:{rt}", lambda: f"{nd}D accuracy {acc}: recording differs from the analytic one by {e:.3g} of its peak {peak:.3g} (got {np.abs(got).max():.3g})")
    mon.nontrivial("green", prop, nd, st, acc)


GREEN_TOL = 0.06


# ------------------------------------------------------------ interfaces
def interface(c, mon):
    import random

    rng = random.Random(c["seed"])
    prop, acc = c["prop"], c["acc"]
    if prop == "born":
        prop = "scalar"
    h, v = rng.uniform(0.8, 1.2), [rng.uniform(1, 2), rng.uniform(1, 2)]
    rho = [rng.uniform(0.6, 2), rng.uniform(0.6, 2)]
    if prop == "scalar":
        z = [1 / v[0], 1 / v[1]]
    else:
        z = [rho[0] * v[0], rho[1] * v[1]]
    # amplitude ratios of u, p and stress
    R, T = (z[1] - z[0]) / (z[1] + z[0]), 2 * z[1] / (z[1] + z[0])
    if prop == "scalar":
        R, T = (v[1] - v[0]) / (v[0] + v[1]), 2 * v[1] / (v[0] + v[1])
    n = 560
    dt = 0.9 * 0.6 * h / max(v)
    freq = min(v) / (30 * h)
    t0 = 1.3 / freq
    # source at 60, receivers at 150 and 410, interface between 280 and 281
    xs, xr, xi, xt = 60, 150, 280, 410
    nt = int(((xi - xs + xi - xr) * h / v[0] + 2.8 / freq) / dt) + 1
    nt = max(nt, int(((xi - xs) / v[0] + (xt - xi) / v[1]) * h / dt + 2.8 / freq / dt) + 1)
    t = np.arange(nt) * dt
    a = (math.pi * freq * (t - t0)) ** 2
    f = (1 - 2 * a) * np.exp(-a)
    side = torch.arange(n) <= xi
    mk = lambda x: torch.where(side, torch.tensor(x[0], dtype=torch.float64), torch.tensor(x[1], dtype=torch.float64))
    V, D = mk(v), mk(rho)
    kind = ref.receiver_types(prop, 1)[-1] if prop == "scalar" else "p"
    src = ref.source_types(prop, 1)[-1] if prop == "scalar" else "p"

    def go(V, D):
        if prop == "scalar":
            kw = dict(v=V)
        elif prop == "acoustic":
            kw = dict(v=V, rho=D)
        else:
            mu = 0.2 * V**2 * D
            kw = dict(lamb=V**2 * D - 2 * mu, mu=mu, buoyancy=1 / D)
        kw.update(grid_spacing=h, dt=dt, accuracy=acc, pml_width=40, pml_freq=freq, max_vel=max(v), _ndim=1)
        kw[ref.sloc_name(src)] = torch.full((1, 1, 1), xs)
        kw[ref.amp_name(src)] = torch.tensor(f)[None, None]
        kw[ref.rloc_name(kind)] = torch.tensor([[[xr], [xt]]])
        return cases.call(prop, kw)[1][kind][0].numpy()

    two, one = go(V, D), go(torch.full_like(V, v[0]), torch.full_like(D, rho[0]))
    refl, trans, inc = (two - one)[0], two[1], one[0]

    def ratio(x):
        """Ratio of two pulses of the same shape, aligned on the largest value."""
        s = np.sign(x[np.abs(x).argmax()]) * np.sign(inc[np.abs(inc).argmax()])
        return s * np.linalg.norm(x) / np.linalg.norm(inc)

    for name, x, want in (("reflection", refl, R), ("transmission", trans, T)):
        e = abs(ratio(x) - want)
        mon.maximum(f"interface_{prop}_acc{acc}", e)
        mon.check(e <= 0.03, f"{name}:{prop}", f"coefficient {ratio(x):.4f}, expected {want:.4f}")
    mon.nontrivial("interface", prop, acc)
