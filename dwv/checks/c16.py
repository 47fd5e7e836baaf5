"""Stability, conservation, absorption and time reversal."""

import math

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C16"
RULE = (
    "energy: without PML and sources a callback records every wavefield and the discrete energy sum w[(u_n+1)^2 - u_n u_n+2] must be "
    "positive and the same at every step; reverse: the recorded final state run backwards must give back every earlier state; "
    "stable: long runs with PML must not grow exponentially; absorb: the recording with a PML must equal that of a much larger model to "
    "a small fraction of the peak; non-trivial: non-zero field"
)
N = {"quick": 450, "thorough": 30000}
CAP = {"quick": 300, "thorough": 3000}
KINDS = ["energy", "reverse", "stable", "absorb"]
NEED = {"kind:energy": 100, "kind:reverse": 100, "kind:stable": 20, "kind:absorb": 12}
EQ = ["scalar", "born", "acoustic", "elastic"]


def gen(rng, i, tier):
    kind = ["energy", "reverse", "energy", "reverse", "energy", "stable", "reverse", "absorb" if i // 8 % 2 else "energy"][(i + i // 8) % 8]
    prop = rng.choice(cases.PROPS)
    if kind in ("stable", "absorb") and prop == "born":
        prop = "scalar"
    nd = rng.choice([1, 2, 2, 3])
    o = dict(prop=prop, ndim=nd, dtype="double" if rng.random() < 0.8 else "float", wf="none", extract="none", ignore=0.0, neg_dt=False,
             zero_cells=0, freq_taper=0.0, time_pad=0.0, time_taper=False)
    if kind in ("energy", "reverse"):
        o.update(pml=[0] * 2 * nd, wf="all", n_src={t: 0 for t in ref.source_types(prop, nd)}, n_rec={t: 0 for t in ref.receiver_types(prop, nd)},
                 n_shots=rng.choice([1, 2]), hetero=rng.choice([0.0, 0.5, 4.0]), step_ratio=1, courant=round(rng.uniform(0.3, 0.995), 3),
                 use_max_vel=False, void=False, nt=rng.choice([12, 40, 40, 150] + ([1500] if nd == 1 else [])), wide=False)
        if kind == "reverse":
            o["step_ratio"] = rng.choice([1, 1, 2])
    elif kind == "stable":
        w = [8, 10, 14, 20] if nd < 3 else [8, 10]
        zero = rng.random() < (0.5 if prop != "elastic" else 0)
        p = [rng.choice(w + [0] if zero else w) for _ in range(2 * nd)]
        cap = {1: 60, 2: 20, 3: 7}[nd]
        o.update(pml=p, n_shots=1, hetero=rng.choice([0.0, 0.4, 3.0]), void=False, nt=60,
                 shape=[rng.randint(3, cap) for _ in range(nd)], step_ratio=rng.choice([1, 2, 3]), courant=rng.choice([0.97, 0.6]), dtype="double", use_max_vel=False)
        if rng.random() < 0.5:
            o.update(n_shots=rng.choice([2, 3]), hetero=0.2, batched=[True] * 3)
    else:
        cap = {1: 60, 2: 32, 3: 8}[nd]
        o.update(shape=[rng.randint(cap // 2, cap) for _ in range(nd)], pml=[rng.randint(18, 24) if nd < 3 else rng.randint(12, 14) for _ in range(2 * nd)], n_shots=1,
                 hetero=0.0, step_ratio=rng.choice([1, 2]), courant=round(rng.uniform(0.6, 0.98), 3), nt=30, dtype="double", void=False, fluid=False,
                 batched=[False] * 3, loc_dtype="long", n_src=None, grid_form="scalar")
        st = ref.source_types(prop, nd)
        k = rng.choice(st)
        o["n_src"] = {t: int(t == k) for t in st}
        o["n_rec"] = {t: 2 for t in ref.receiver_types(prop, nd)}
    c = cases.gen_case(rng, **o)
    c["kind"] = kind
    # one shot's model is much faster than the others
    c["contrast"] = kind == "stable" and c["n_shots"] > 1
    c["frel"] = rng.choice([0.01, 0.03])
    c["cells"] = rng.choice([8, 12])
    return c


def run(c, mon):
    prop, kw = cases.materialise(c)
    globals()[c["kind"]](c, prop, kw, mon)
    mon.count(f"kind:{c['kind']}")
    mon.count(f"steps:{c['kind']}", c["nt"])


def fields(prop, nd):
    return [n for n in ref.wavefield_names(prop, nd) if n.endswith("_0") and not n.startswith(("psi", "phi", "zeta", "m_"))]


def record(prop, kw, nd, extra=()):
    hist = []
    names = fields(prop, nd) + list(extra)

    def cb(st):
        hist.append({n: st.get_wavefield(n, "inner").detach().to(torch.float64, copy=True) for n in names})

    w, _ = cases.call(prop, kw, forward_callback=cb)
    return hist, w


# ------------------------------------------------------------ energy
def energy(c, prop, kw, mon):
    nd = c["ndim"]
    hist, _ = record(prop, kw, nd)
    if prop == "elastic":
        P = {}
        ref.run(prop, dict(cases.to_double(kw), nt=1), models_out=P)
        parts = [(f"v{d}_0", torch.where(P["B" + d] != 0, 1 / P["B" + d], torch.zeros_like(P["B" + d]))) for d in ref.dims_of(nd)]
    elif prop == "acoustic":
        m = cases.to_double(kw)
        parts = [("pressure_0", 1 / (m["rho"] * m["v"] ** 2))]
    else:
        parts = [("wavefield_0", cases.to_double(kw)["v"] ** -2)]
    q = []
    size = []
    ax = tuple(range(1, nd + 1))
    for i in range(len(hist) - 2):
        a, b, d = hist[i], hist[i + 1], hist[i + 2]
        q.append(sum(((b[n] ** 2 - a[n] * d[n]) * w).sum(ax) for n, w in parts))
        size.append(sum(((b[n] ** 2 + (a[n] * d[n]).abs()) * w).sum(ax) for n, w in parts))
    if not q:
        raise Skip
    q, size = torch.stack(q), torch.stack(size)
    mon.count("energies", q.numel())
    if bool((q[0] > 0).all()):
        mon.nontrivial("energy")
    # the printed fields carry rounding of their own type
    eps = 1e-6 if c["dtype"] == "float" else 1e-14
    tol = eps * 30 * math.sqrt(len(hist)) * size.max(0).values
    for s in range(q.shape[1]):
        drift = (q[:, s] - q[0, s]).abs().max().item()
        mon.check(math.isfinite(drift) and drift <= tol[s].item(), f"energy-drift:{prop}",
                  f"energy of shot {s} went from {q[0, s].item():.9g} to between {q[:, s].min().item():.9g} and {q[:, s].max().item():.9g}")
        if math.isfinite(drift) and q[0, s] != 0:
            mon.maximum(f"energy_drift_{c['dtype']}", drift / size[:, s].max().item())
        mon.check(bool(q[0, s] > -tol[s]), f"energy-negative:{prop}", f"energy {q[0, s].item():.9g} is negative")


# ------------------------------------------------------------ time reversal
def reverse(c, prop, kw, mon):
    """From any pair of successive states the past follows."""
    nd, nt = c["ndim"], c["nt"]
    if prop in ("scalar", "born"):
        subs = [("", "")] + ([("_sc", "_sc")] if prop == "born" else [])
        hist, w = record(prop, kw, nd, [n for n in ref.wavefield_names(prop, nd) if n.startswith("wavefield") and n.endswith("m1")])
        start = {}
        for s, _ in subs:
            start[f"wavefield{s}_0"] = w[f"wavefield{s}_m1"]
            start[f"wavefield{s}_m1"] = w[f"wavefield{s}_0"]
        back = dict(kw)
        for n in ref.wavefield_names(prop, nd):
            back.pop(n, None)
        back.update(start)
        h2, w2 = record(prop, back, nd)
        # after the reversal, wavefield_m1 at state k is the state nt-k of the original
        for s, _ in subs:
            rt = tolerance(c, hist, f"wavefield{s}_0")
            if bool((w2[f"wavefield{s}_0"] != 0).any()):
                mon.nontrivial("reverse", s)
            mon.close(w2[f"wavefield{s}_0"], kw[f"wavefield{s}_m1"] if f"wavefield{s}_m1" in kw else torch.zeros_like(w2[f"wavefield{s}_0"]), rt, f"reverse:{prop}:wavefield{s}_m1",
                      floor=peak(hist, f"wavefield{s}_0"))
            mon.close(w2[f"wavefield{s}_m1"], kw[f"wavefield{s}_0"] if f"wavefield{s}_0" in kw else torch.zeros_like(w2[f"wavefield{s}_0"]), rt, f"reverse:{prop}:wavefield{s}_0",
                      floor=peak(hist, f"wavefield{s}_0"))
        return
    if c["step_ratio"] > 1:
        # returned states are whole steps apart: go through one-step calls with the internal step
        kw = dict(kw)
        kw["dt"] = kw["dt"] / c["step_ratio"]
    vel = [f"v{d}_0" for d in ref.dims_of(nd)]
    memory = [n for n in ref.wavefield_names(prop, nd) if n not in fields(prop, nd)]
    hist, w = record(prop, kw, nd)
    one = dict(kw, nt=1)
    one.update({n: w[n].detach() for n in w if n not in memory})
    _, wn = record(prop, one, nd)  # one more step gives the next velocities
    back = dict(kw)
    for n in ref.wavefield_names(prop, nd):
        back.pop(n, None)
    how = c["seed"] % 2
    if how:
        back["dt"] = -kw["dt"]
    for n in fields(prop, nd):
        v = wn[n] if n in vel else w[n]
        back[n] = (-v if n in vel and not how else v).detach()
    _, w2 = record(prop, back, nd)
    first, w1 = record(prop, dict(kw, nt=1), nd)
    for n in fields(prop, nd):
        want = w1[n] if n in vel else kw.get(n, torch.zeros_like(w2[n]))
        got = -w2[n] if n in vel and not how else w2[n]
        for d in [ref.dims_of(nd).index(x) for x in ref.half_dims(prop, n)]:
            # the last half-grid row is not part of the domain
            got, want = got.narrow(d + 1, 0, got.shape[d + 1] - 1), want.narrow(d + 1, 0, want.shape[d + 1] - 1)
        if bool((want != 0).any()):
            mon.nontrivial("reverse", n)
        top = max(peak(hist, m) for m in (vel if n in vel else [m for m in fields(prop, nd) if m not in vel]))
        mon.close(got, want, tolerance(c, hist, n), f"reverse:{prop}:{n}", floor=top)


def tolerance(c, hist, n):
    return (2e-5 if c["dtype"] == "float" else 1e-12) * math.sqrt(len(hist)) * (5 if c["prop"] == "born" else 1)


def peak(hist, n):
    return max(h[n].abs().max().item() for h in hist)


# ------------------------------------------------------------ long runs
def stable(c, prop, kw, mon):
    nd = c["ndim"]
    kw = dict(kw)
    if c["contrast"]:
        slow = torch.arange(c["n_shots"]) != c["seed"] % c["n_shots"]
        for k in {"elastic": ["lamb", "mu"]}.get(prop, ["v"]):
            kw[k] = kw[k].clone()
            kw[k][slow] /= 9 if prop == "elastic" else 3
        mon.count("contrast")
    kw["pml_freq"] = c["frel"] / kw["dt"]
    w, _ = cases.call(prop, kw)
    amp = lambda w: {n: w[n].abs().max().item() for n in fields(prop, nd)}
    go = {k: v for k, v in kw.items() if not k.startswith(("source", "receiver"))}
    go["nt"] = 700 if nd < 3 else 250
    rows = [amp(w)]
    for _ in range(4):
        w, _ = cases.call(prop, dict(go, **w))
        rows.append(amp(w))
    for n in rows[0]:
        a = [r[n] for r in rows]
        if max(a[0], a[1]) > 0:
            mon.nontrivial("stable", n)
        ok = all(math.isfinite(x) for x in a) and max(a) <= 200 * max(a[0], 1e-300)
        mon.check(ok, f"unstable:{prop}", lambda: f"{n} peaks {a} after segments of {go['nt']} steps")
        if ok and a[0] > 0:
            mon.maximum("late_growth", max(a) / a[0])
    c["nt"] = 60 + 4 * go["nt"]


# ------------------------------------------------------------ absorption
def absorb(c, prop, kw, mon):
    nd = c["ndim"]
    kw = dict(kw)
    h = kw["grid_spacing"]
    if prop == "elastic":
        vp = math.sqrt((kw["lamb"].max().item() + 2 * kw["mu"].max().item()) * kw["buoyancy"].max().item())
        vs = math.sqrt(kw["mu"].max().item() * kw["buoyancy"].max().item())
    else:
        vp = vs = kw["v"].max().item()
    f = vs / h / c["cells"]
    kw["max_vel"] = vp
    nt = int((max(c["shape"]) + 40) * h / vs / kw["dt"]) + int(2 / f / kw["dt"])
    t = torch.arange(nt, dtype=torch.float64) * kw["dt"] - 1.2 / f
    wav = (1 - 2 * (math.pi * f * t) ** 2) * torch.exp(-((math.pi * f * t) ** 2))
    for k in list(kw):
        if k.startswith("source_amplitudes"):
            kw[k] = wav.expand(1, kw[k].shape[1], -1).clone()
    kw["pml_freq"] = f
    w = 20 if nd < 3 else 14
    # a margin wide enough that nothing returns from its own boundary
    m = int(vp * nt * kw["dt"] / h / 2) + 12
    most = 4e7 / nt / {"scalar": 1, "acoustic": 2, "elastic": 4}[prop]
    if (max(c["shape"]) + 2 * m + 2 * w) ** nd > most:
        m = max(8, int((most ** (1 / nd) - max(c["shape"]) - 2 * w) / 2))
    big = dict(kw)
    for k in ref.model_names(prop):
        big[k] = torch.full([s + 2 * m for s in c["shape"]], kw[k].reshape(-1)[0].item(), dtype=kw[k].dtype)
    for k in kw:
        if "locations" in k:
            big[k] = kw[k] + m
    big["pml_width"] = w
    o = rel.outs(prop, kw)
    b = rel.outs(prop, big)
    top = {}
    kind = lambda k: "p" if k in ("r:p", "r:") else "v"
    for k in b:
        if k.startswith("r:"):
            top[kind(k)] = max(top.get(kind(k), 0.0), b[k].abs().max().item())
    for k in b:
        if not k.startswith("r:"):
            continue
        d = (o[k] - b[k]).abs().max().item() / max(top[kind(k)], 1e-300)
        mon.count("absorption_records")
        mon.maximum(f"reflected:{prop}:{nd}D", d)
        if top[kind(k)] > 0:
            mon.nontrivial("absorb", k)
        mon.check(d <= LIMIT[nd], f"reflection:{prop}:{k}", f"{d:.3g} of the peak differs from the unbounded model ({nd}D, PML {c['pml']}, margin {m})")
    c["nt"] = nt


LIMIT = {1: 0.03, 2: 0.03, 3: 0.02}
