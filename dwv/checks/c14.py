"""Hicks interpolation against independently computed Kaiser-windowed sincs."""

import math

import torch
from scipy.special import i0

from .. import harness

ID = "C14"
RULE = (
    "random off-grid locations (on grid, within eps of the grid, repeated fractions, next to free surfaces on and between grid "
    "points, ragged shots, monopoles and dipoles, all half-widths); the operator applied by source()/receiver() is probed with unit "
    "amplitudes and every (location, weight) compared with weights computed from the formula, folding by reflection; "
    "adjointness, autograd, shot subsets, repeated use and use in a propagator are compared; non-trivial: at least one off-grid point"
)
N = {"quick": 2000, "thorough": 80000}
CAP = {"quick": 300, "thorough": 2400}
NEED = {"folded": 300, "dipoles": 300, "on_grid": 300, "shared_fraction": 100, "propagated": 40, "subset": 300}
BETAS = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]


def gen(rng, i, tier):
    hw = rng.randint(1, 10) if rng.random() < 0.6 else rng.choice([1, 2, 4])
    c = dict(seed=rng.randrange(1 << 30), hw=hw, dtype=rng.choice(["float", "double", "double"]), loc_dtype=rng.choice(["float", "double", "double"]),
             n_shots=rng.choice([1, 1, 2, 3, 5]), n=rng.choice([1, 2, 3, 6]), eps=rng.choice([1e-5, 1e-5, 1e-5, 1e-3, 1e-7]),
             style=rng.choice(["uniform", "lattice", "near", "mixed"]), mono=rng.choice(["true", "true", "false", "tensor"]),
             ddim=rng.choice(["0", "1", "tensor"]), fs=[rng.random() < 0.5 for _ in range(4)] if rng.random() < 0.6 else None,
             fsl=rng.random() < 0.4, shape=[hw + rng.randint(1, 14) for _ in range(2)], prop=i % 40 == 0)
    c["default_dtype"] = harness.default_dtype(c["seed"])
    if c["prop"]:
        c.update(hw=rng.randint(1, 3), n_shots=rng.choice([1, 2]), n=rng.choice([1, 2]), dtype="double", shape=[rng.randint(7, 12), rng.randint(7, 12)])
    return c


def weights_1d(x0, hw, mono, eps, surf):
    """{index: weight} on the integer line, folded at surf = (lo or None, hi or None)."""
    if mono and abs(x0 - round(x0)) < eps:
        return {int(round(x0)): 1.0}
    f = math.floor(x0)
    out = {}
    for o in range(-hw + 1, hw + 1):
        x = f + o - x0
        win = i0(BETAS[hw - 1] * math.sqrt(max(0.0, 1 - (x / hw) ** 2))) / i0(BETAS[hw - 1])
        sinc = math.sin(math.pi * x) / (math.pi * x) if x else 1.0
        w = sinc * win if mono else (math.cos(math.pi * x) - sinc) / (x * x + eps) * x * win
        j, s = f + o, 1.0
        for _ in range(50):
            if surf[0] is not None and j < surf[0]:
                j, s = int(2 * surf[0] - j), -s
            elif surf[1] is not None and j > surf[1]:
                j, s = int(2 * surf[1] - j), -s
            else:
                break
        if (surf[0] is not None and j == surf[0]) or (surf[1] is not None and j == surf[1]):
            w = 0.0
        out[j] = out.get(j, 0.0) + s * w
    return out


def build(c):
    g = torch.Generator().manual_seed(c["seed"])

    def rand(*s):
        return torch.rand(*s, generator=g, dtype=torch.float64)

    fs = c["fs"] or [False] * 4
    n0, n1 = c["shape"]
    fsl = [-0.5, n0 - 0.5, -0.5, n1 - 0.5]
    custom = None
    if c["fsl"] and c["fs"]:
        for d in range(2):
            # on or between grid points, leaving room for a window between
            fsl[2 * d] += 0.5 * int(rand(1) * 3)
            fsl[2 * d + 1] -= 0.5 * int(rand(1) * 2)
        for d in range(2):
            if math.floor(fsl[2 * d + 1]) - math.ceil(fsl[2 * d]) + 1 < c["hw"] + 1:
                fsl[2 * d], fsl[2 * d + 1] = -0.5, c["shape"][d] - 0.5
        custom = list(fsl)
    loc = torch.zeros(c["n_shots"], c["n"], 2, dtype=torch.float64)
    frac_pool = rand(3)
    for s in range(c["n_shots"]):
        for i in range(c["n"]):
            for d in range(2):
                lo = fsl[2 * d] if fs[2 * d] else -0.5
                hi = fsl[2 * d + 1] if fs[2 * d + 1] else c["shape"][d] - 0.5
                for _ in range(100):
                    x = lo + (hi - lo) * rand(1).item()
                    st = c["style"]
                    if st == "mixed":
                        st = ["uniform", "lattice", "near", "edge"][int(rand(1) * 4)]
                    if st == "lattice":  # repeated fractions
                        x = math.floor(x) + frac_pool[int(rand(1) * 3)].item()
                    elif st == "near":  # around grid points, either side of eps
                        x = round(x) + (rand(1).item() - 0.5) * 2 * 10 ** (-7 * rand(1).item()) * (1 if rand(1) < 0.7 else 0)
                    elif st == "edge":
                        x = (lo + 0.01 + 0.9 * rand(1).item()) if rand(1) < 0.5 else (hi - 0.01 - 0.9 * rand(1).item())
                    if lo + 2e-3 < x < hi - 2e-3 and not abs(abs(x - round(x)) - c["eps"]) < 1e-2 * c["eps"]:
                        # a point exactly on an integer surface is degenerate
                        if not any(fs[2 * d + e] and abs(x - fsl[2 * d + e]) < 2e-3 for e in (0, 1)):
                            break
                else:
                    x = 0.5 * (lo + hi) + 0.137
                loc[s, i, d] = x
    if c["loc_dtype"] == "float":
        loc = loc.float()
        # rounding must not move a point across the eps threshold
        r = (loc.double() - loc.double().round()).abs()
        bad = (r - c["eps"]).abs() < 1e-2 * c["eps"]
        loc[bad] = loc[bad].round()
    mono = {"true": True, "false": False}.get(c["mono"])
    if mono is None:
        mono = rand(c["n_shots"], c["n"]) < 0.5
    dd = {"0": 0, "1": 1}.get(c["ddim"])
    if dd is None:
        dd = (rand(c["n_shots"], c["n"]) < 0.5).long()
    return g, loc, fs, fsl, custom, mono, dd


def run(c, mon):
    from deepwave.location_interpolation import Hicks

    g, loc, fs, fsl, custom, mono, dd = build(c)
    ns, n = c["n_shots"], c["n"]
    dt = torch.float64 if c["dtype"] == "double" else torch.float32
    kw = dict(halfwidth=c["hw"], monopole=mono, dipole_dim=dd, dtype=dt, eps=c["eps"])
    if c["fs"] is not None:
        kw.update(free_surfaces=list(c["fs"]), model_shape=list(c["shape"]))
        if custom:
            kw["free_surface_locs"] = list(custom)
    loc0 = loc.clone()
    h = Hicks(loc, **kw)
    mon.check(torch.equal(loc, loc0), "input-modified", "Hicks changed the locations tensor")
    pts = h.get_locations().clone()
    mon.check(pts.shape[0] == ns and pts.shape[2] == 2 and not pts.is_floating_point(), "locations-shape", f"{pts.shape} {pts.dtype}")
    eye = torch.eye(n, dtype=dt).expand(ns, n, n).clone()
    out = h.source(eye)
    mon.check(tuple(out.shape) == (ns, pts.shape[1], n) and out.dtype == dt, "source-shape", f"{out.shape} {out.dtype}")
    # all (fraction, type) of the points, for the documented eps-wide sharing
    lines = []
    for s in range(ns):
        for i in range(n):
            m = bool(mono[s, i]) if torch.is_tensor(mono) else mono
            k = int(dd[s, i]) if torch.is_tensor(dd) else dd
            for d in range(2):
                x = loc[s, i, d].item()
                md = m or k != d
                mon.count("dipoles", not md)
                surf = tuple(fsl[2 * d + e] if fs[2 * d + e] else None for e in (0, 1))
                lines.append((s, i, d, x, md, surf))
    cand = {}
    # the window parameter is stored in single precision
    tolw = 1e-7 if dt == torch.float64 else 1e-5
    offgrid = False
    for s, i, d, x, md, surf in lines:
        exact = weights_1d(x, c["hw"], md, c["eps"], surf)
        ls = [exact]
        if not (md and abs(x - round(x)) < c["eps"]):
            offgrid = True
            f = x - math.floor(x)
            for s2, i2, d2, x2, md2, _ in lines:
                f2 = x2 - math.floor(x2)
                if md2 == md and 0 < abs(f2 - f) < 1.01 * c["eps"] and (s2, i2, d2) != (s, i, d):
                    ls.append(weights_1d(math.floor(x) + f2, c["hw"], md, c["eps"], surf))
                    mon.count("shared_fraction")
                elif md2 == md and f2 == f and (s2, i2, d2) != (s, i, d):
                    mon.count("shared_fraction")
            if any(surf[e] is not None and (abs(x - surf[e]) < c["hw"] - 1) for e in (0, 1)):
                mon.count("folded")
        else:
            mon.count("on_grid")
        cand[s, i, d] = ls
    dense = {}
    for s in range(ns):
        where = {}
        for j in range(pts.shape[1]):
            p = tuple(pts[s, j].tolist())
            if any(x == IGNORE for x in p):
                mon.check(all(x == IGNORE for x in p) and bool((out[s, j] == 0).all()), "ignored-amplitude", "a padding point has an amplitude or is partly ignored")
                continue
            mon.check(p not in where, "duplicate-point", f"grid point {p} listed twice in shot {s}")
            where[p] = j
        used = set()
        for i in range(n):
            best = None
            for w0 in cand[s, i, 0]:
                for w1 in cand[s, i, 1]:
                    e = 0.0
                    want = {(a, b): u * v for a, u in w0.items() for b, v in w1.items()}
                    for p, w in want.items():
                        got = out[s, where[p], i].item() if p in where else 0.0
                        e = max(e, abs(got - w))
                    for p, j in where.items():
                        if p not in want:
                            e = max(e, abs(out[s, j, i].item()))
                    if best is None or e < best[0]:
                        best = (e, want)
            sc = max(max(abs(v) for v in best[1].values()), 1.0)
            # dipole weights are a quotient of small numbers near the grid
            sc += 0.0 if dt == torch.float64 or c["mono"] == "true" else 0.012 / math.sqrt(c["eps"])
            mon.count("comparisons")
            ok = best[0] <= tolw * sc * (1 if max(abs(loc[s, i]).tolist()) < 30 else 4)
            if ok:
                mon.maximum("weight_error", best[0] / sc)
            mon.check(ok, "weights", lambda: f"shot {s} point {loc[s, i].tolist()}: weights differ from the formula by {best[0]:.3g}")
            dense[s, i] = best[1]
            used |= {p for p in where if abs(out[s, where[p], i].item()) > 0}
            # inside the folded domain
            for p, j in where.items():
                for d in range(2):
                    for e, sg in ((0, 1), (1, -1)):
                        if fs[2 * d + e] and sg * (p[d] - fsl[2 * d + e]) < 0:
                            mon.violate("beyond-surface", f"point {p} lies beyond the free surface {fsl}")
    if offgrid:
        mon.nontrivial()
    # adjointness, autograd, subsets, repetition
    y = torch.randn(ns, pts.shape[1], 5, generator=g, dtype=torch.float64).to(dt)
    a = torch.randn(ns, n, 5, generator=g, dtype=torch.float64).to(dt)
    a0, y0 = a.clone(), y.clone()
    ar, yr = a.clone().requires_grad_(), y.clone().requires_grad_()
    sa, ry = h.source(ar), h.receiver(yr)
    mon.check(torch.equal(a, a0) and torch.equal(y, y0), "input-modified", "an amplitudes tensor was changed")
    mon.check(tuple(ry.shape) == (ns, n, 5) and ry.dtype == dt, "receiver-shape", f"{ry.shape}")
    tol = 1e-12 if dt == torch.float64 else 2e-5
    mon.close(sa, torch.einsum("sji,sit->sjt", out, a), tol, "source-linear", floor=1e-6)
    mon.close(ry, torch.einsum("sji,sjt->sit", out, y), tol, "receiver-adjoint", floor=1e-6)
    ga, = torch.autograd.grad((sa * y).sum(), ar)
    gy, = torch.autograd.grad((ry * a).sum(), yr)
    mon.close(ga, ry.detach(), tol, "source-gradient", floor=1e-6)
    mon.close(gy, sa.detach(), tol, "receiver-gradient", floor=1e-6)
    m = int(torch.randint(1, ns + 2, (1,), generator=g))
    idx = torch.randint(0, ns, (m,), generator=g)
    mon.count("subset")
    mon.check(torch.equal(h.get_locations(idx), pts[idx]), "subset-locations", "get_locations(shot_idxs) differs")
    mon.check(torch.equal(h.source(a[idx], idx), sa.detach()[idx]), "subset-source", "source(shot_idxs) differs from the selected shots")
    mon.check(torch.equal(h.receiver(y[idx], idx), ry.detach()[idx]), "subset-receiver", "receiver(shot_idxs) differs from the selected shots")
    mon.check(torch.equal(h.get_locations(), pts) and torch.equal(h.source(eye), out), "repeated-use", "a second use gave something else")
    h2 = Hicks(loc, **kw)
    mon.check(torch.equal(h2.get_locations(), pts) and torch.equal(h2.source(eye), out), "rebuild", "a second interpolator gave something else")
    if c["prop"]:
        propagate(c, h, dense, fs, ns, n, g, mon)


def propagate(c, h, dense, fs, ns, n, g, mon):
    import deepwave

    shape = c["shape"]
    w = 4
    big = [x + 2 * w for x in shape]  # room for points outside the model
    v = 1 + 0.2 * torch.rand(*big, generator=g, dtype=torch.float64)
    nt = 12
    a = torch.randn(ns, n, nt, generator=g, dtype=torch.float64)
    pts = h.get_locations()
    shift = torch.where(pts == IGNORE, pts, pts + w)
    r = deepwave.scalar(v, 1.0, 0.3, source_amplitudes=h.source(a), source_locations=shift, receiver_locations=shift, pml_width=2)[-1]
    got = h.receiver(r)
    grid = torch.stack(torch.meshgrid(*[torch.arange(x) for x in big], indexing="ij"), -1).reshape(-1, 2)
    M = torch.zeros(ns, n, *big, dtype=torch.float64)
    for (s, i), d in dense.items():
        for p, x in d.items():
            M[s, i, p[0] + w, p[1] + w] = x
    M = M.reshape(ns, n, -1)
    rr = deepwave.scalar(v, 1.0, 0.3, source_amplitudes=torch.einsum("sng,snt->sgt", M, a), source_locations=grid.expand(ns, -1, -1).contiguous(),
                         receiver_locations=grid.expand(ns, -1, -1).contiguous(), pml_width=2)[-1]
    want = torch.einsum("sng,sgt->snt", M, rr)
    mon.count("propagated")
    # locations closer than eps may share weights, hence the looser tolerance
    mon.close(got, want, 2e-6, "propagated")


IGNORE = -(1 << 31)
