"""Callbacks observe and steer the simulation faithfully."""

import math

import torch

from .. import cases, ref, rel
from ..harness import Skip
from .c03 import tol_of

ID = "C10"
RULE = (
    "random problems and callback frequencies; every forward and backward callback call is recorded (step, dt, all wavefields, models and "
    "gradients in every view) and compared with the trajectory, adjoint trajectory and partial gradients of an independent float64 reference; "
    "reading callbacks must leave results bitwise unchanged; writes made by callbacks must act as in the reference; "
    "non-trivial: several calls with non-zero fields"
)
N = {"quick": 2400, "thorough": 40000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"calls:forward": 1000, "calls:backward": 500, "fields": 5000, "gradients": 200, "writes": 200, "eager": 20,
        "prop:scalar": 100, "prop:born": 100, "prop:acoustic": 100, "prop:elastic": 100}


def gen(rng, i, tier):
    over = {}
    kind = cases.pick(rng, ["read", "backward", "write", "scale", "bwrite", "bzero", "neutral"], [4, 5, 4, 2, 2, 2, 3])
    if kind != "neutral":
        over["mgsi"] = 1
    else:
        over["mgsi"] = rng.choice([1, 2, 3])
    if kind == "bzero":
        over.update(step_ratio=1, freq_taper=0.0, time_pad=0.0, time_taper=False, wf="none")
    c = cases.gen_case(rng, loc_dtype="long", dtype=cases.pick(rng, ["double", "float"], [6, 1]), wide=rng.random() < 0.03, tail=0.03,
                       nt=rng.randint(1, 12), ignore=cases.pick(rng, [0.0, 0.4], [5, 1]), **over)
    c["kind"] = kind
    c["freq"] = cases.pick(rng, [1, 2, 3, 5, 50], [4, 3, 2, 1, 1])
    c["cb_seed"] = rng.randrange(1 << 30)
    c["storage"] = {}
    if kind == "neutral" and rng.random() < 0.7:
        c["storage"] = dict(storage_mode=rng.choice(["device", "cpu", "disk"]), storage_compression=rng.random() < 0.7)
    elif kind in ("backward", "write", "scale") and rng.random() < 0.1:
        c["storage"] = dict(storage_mode="disk")
    c["eager"] = kind == "read" and rng.random() < 0.15
    return c


def model_alias(prop, nd, key):
    """Reference name of a converted model -> public name."""
    if prop in ("scalar", "born", "acoustic"):
        return key
    if key.startswith("B"):
        return "buoyancy_" + key[1:]
    if key.startswith("mu") and len(key) == 4:
        return "mu_" + key[2:]
    return key


def kept(prop, nd, name, x):
    if prop in ("acoustic", "elastic"):
        for d, nm in enumerate(ref.dims_of(nd)):
            if nm in ref.half_dims(prop, name):
                x = x.narrow(x.ndim - nd + d, 0, x.shape[x.ndim - nd + d] - 1)
    return x


def inner(x, pml, nd):
    for d in range(nd):
        D = x.ndim - nd + d
        x = x.narrow(D, pml[2 * d], x.shape[D] - pml[2 * d] - pml[2 * d + 1])
    return x


class Recorder:
    """Snapshots of everything a callback can see; checks views on the way."""

    def __init__(self, c, prop, mon, which, want_grads=()):
        self.c, self.prop, self.mon, self.which = c, prop, mon, which
        self.steps, self.snaps, self.dts, self.grads, self.models = [], [], [], [], []
        self.want_grads = want_grads
        self.scatter_only = False

    def views(self, get, name, zero_outside):
        c, mon, nd = self.c, self.mon, self.c["ndim"]
        p, f, i = get(name, "pml"), get(name, "full"), get(name, "inner")
        d = get(name)
        ok = d.shape == i.shape and (d.numel() == 0 or d.data_ptr() == i.data_ptr())
        mon.check(ok, f"default-view:{self.prop}", name)
        mon.check(torch.equal(inner(p, c["pml"], nd), i), f"inner-view:{self.prop}", lambda: f"{name} {tuple(p.shape)} {tuple(i.shape)}")
        # the padding of the full view surrounds the pml view
        pads = [f.shape[k - nd] - p.shape[k - nd] for k in range(nd)]
        acc = c["acc"]
        low = acc // 2
        if all(x >= low for x in pads):
            q = f
            for k in range(nd):
                q = q.narrow(q.ndim - nd + k, low, p.shape[p.ndim - nd + k])
            mon.check(torch.equal(q, p), f"full-view:{self.prop}", name)
            if zero_outside:
                mon.check(float(f.double().pow(2).sum()) <= float(p.double().pow(2).sum()) * (1 + 1e-9) + 1e-300, f"full-view-padding:{self.prop}", name)
        else:
            mon.check(False, f"full-view:{self.prop}", f"{name} padding {pads}")
        return p

    def __call__(self, st):
        self.mon.count(f"calls:{self.which}")
        nd = self.c["ndim"]
        self.steps.append(st.step)
        self.dts.append(st.dt)
        snap = {}
        for k in ref.wavefield_names(self.prop, nd):
            if self.scatter_only and "_sc" not in k:
                continue  # the adjoint of the background is not computed
            snap[k] = self.views(st.get_wavefield, k, True).detach().clone()
        self.snaps.append(snap)
        self.models.append({k: self.views(st.get_model, k, False).detach().clone() for k in self.model_names()})
        if self.want_grads:
            self.grads.append({k: self.views(st.get_gradient, k, False).detach().clone() for k in self.want_grads})

    def model_names(self):
        nd = self.c["ndim"]
        ds = ref.dims_of(nd)
        if self.prop == "scalar":
            return ["v"]
        if self.prop == "born":
            return ["v", "scatter"]
        if self.prop == "acoustic":
            return ["K"] + ["B" + x for x in ds]
        return ["lamb", "mu"] + ["buoyancy_" + x for x in ds] + [f"mu_{a}{b}" for i, a in enumerate(ds) for b in ds[i + 1 :]]


def expect_steps(nt, f):
    fwd = list(range(0, nt, f))
    bwd, s = [], nt
    while s > 0:
        s -= min(s, f)
        bwd.append(s)
    return fwd, bwd


def near(mon, a, b, key, dtype):
    """Equal up to the order of summation of gradient contributions."""
    for k in b:
        top = b[k].abs().max().item() if b[k].numel() else 0.0
        mon.close(a[k], b[k], 1e-4 if dtype == "float" else 1e-11, key, floor=max(top, 1e-30), what=k)


def same(mon, a, b, key):
    for k in b:
        mon.check(torch.equal(a[k], b[k]) or (a[k].isnan() == b[k].isnan()).all() and torch.equal(a[k].nan_to_num(), b[k].nan_to_num()), key, k)


def run(c, mon):
    if c["wide"] and c["kind"] in ("backward", "write"):
        raise Skip
    if c["neg_dt"] and c["kind"] == "backward" and c["step_ratio"] > 1:
        pass
    prop, kw = cases.materialise(c)
    nd, f, nt = c["ndim"], c["freq"], c["nt"]
    tol = tol_of(c)
    kind = c["kind"]
    names = cases.float_inputs(kw)
    if cases.last_row_outside(c, kw):
        raise Skip
    base = rel.outs(prop, kw)
    if not any(v.abs().max() > 0 for v in base.values() if v.numel()):
        raise Skip
    mon.count(f"prop:{prop}")
    ws = rel.weights(base, c["seed"])
    T = torch.float64
    fwd_steps, bwd_steps = expect_steps(nt, f)
    dkw = cases.to_double(kw)
    if c["storage"]:
        kw = dict(kw, **c["storage"])
        mon.count("storage:" + c["storage"]["storage_mode"] + (":compressed" if c["storage"].get("storage_compression") else ""))

    if kind in ("read", "neutral"):
        rec = Recorder(c, prop, mon, "forward")
        extra = dict(python_backend="eager") if c["eager"] else {}
        if kind == "neutral":
            brec = Recorder(c, prop, mon, "backward")
            _, g0 = rel.run_grads(prop, kw, names, ws)
            sub = rel.subset(prop, names, c["seed"])
            brec.scatter_only = prop == "born" and all(k == "scatter" or "_sc_" in k for k in sub)
            o1, g1 = rel.run_grads(prop, kw, sub, ws, forward_callback=rec, backward_callback=brec, callback_frequency=f)
            same(mon, o1, base, f"neutral-outputs:{prop}")
            near(mon, g1, {k: g0[k] for k in sub}, f"neutral-gradients:{prop}", c["dtype"])
            units = math.ceil(nt / c["mgsi"])
            fs, bs = expect_steps(units, f)
            if c["mgsi"] == 1:
                mon.check(rec.steps == fs, f"forward-steps:{prop}", f"{rec.steps} expected {fs}")
                mon.check(brec.steps == bs, f"backward-steps:{prop}", f"{brec.steps} expected {bs}")
            mon.check(len(set(rec.steps)) == len(rec.steps) and rec.steps == sorted(rec.steps), f"forward-order:{prop}", rec.steps)
            mon.check(brec.steps == sorted(brec.steps, reverse=True), f"backward-order:{prop}", brec.steps)
            mon.nontrivial(kind, prop)
            return
        w, r = cases.call(prop, kw, forward_callback=rec, callback_frequency=f, **extra)
        if c["eager"]:
            mon.count("eager")
        else:
            o1 = {**{f"w:{k}": v for k, v in w.items()}, **{f"r:{k}": v for k, v in r.items() if v is not None}}
            same(mon, o1, base, f"neutral-outputs:{prop}")
        traj = {}
        models = {}

        def cb(s, F):
            if s % f == 0:
                traj[s] = {k: v.clone() for k, v in F.items()}

        def pert(s):
            return {}

        with torch.no_grad():
            _, _, info = ref.run(prop, dkw, callback=cb, models_out=models)
        mon.check(rec.steps == fwd_steps, f"forward-steps:{prop}", f"{rec.steps} expected {fwd_steps}")
        for dt in rec.dts:
            mon.check(abs(dt - info["dt"]) <= 1e-6 * abs(info["dt"]), f"forward-dt:{prop}", f"{dt} {info['dt']}")
        top = {}
        fam = lambda k: (k[0] if not k.startswith("w") else "w") + ("sc" if "_sc" in k else "")
        for t in traj.values():
            for k, v in t.items():
                if v.numel():
                    top[k] = max(top.get(k, 0.0), v.abs().max().item())
        for s, snap in zip(rec.steps, rec.snaps):
            for k, v in snap.items():
                mon.count("fields")
                if s == 0 and k.startswith(("psi", "zeta", "phi", "m_")):
                    # given memory variables have no meaning outside the PML
                    pm = in_pml(c, prop, k, v)
                    v, traj[s][k] = v * pm, traj[s][k] * pm
                mon.close(kept(prop, nd, k, v), kept(prop, nd, k, traj[s][k]), tol, f"forward-field:{prop}", floor=max(top.get(k, 0.0) * 1e-3, 1e-30), what=f"{k} at step {s}")
        for m in rec.models:
            for k, v in models.items():
                a = m[model_alias(prop, nd, k)]
                hm = kept_model(prop, nd, k)
                mon.close(hm(a.expand(v.shape) if a.shape != v.shape else a), hm(v), tol, f"forward-model:{prop}", what=k, floor=1e-30)
        if len(rec.steps) > 1:
            mon.nontrivial(kind, prop)
        return

    if kind == "backward":
        mnames = ref.model_names(prop)
        names = [k for k in names if k not in mnames] + mnames  # all models
        grec = Recorder(c, prop, mon, "backward")
        grec.want_grads = grec.model_names()
        if prop == "born" and c["seed"] % 4 == 0:
            names = ["scatter"]
            grec.scatter_only = True
            grec.want_grads = ["scatter"]
            mon.count("scatter_only")
        _, g1 = rel.run_grads(prop, kw, names, ws, backward_callback=grec, callback_frequency=f)
        mon.check(grec.steps == bwd_steps, f"backward-steps:{prop}", f"{grec.steps} expected {bwd_steps}")
        leaves, ml, models = {}, {}, {}

        def cb(s, F):
            if s in bwd_steps:
                leaves[s] = {k: torch.zeros_like(v, requires_grad=True) for k, v in F.items()}
                for k in F:
                    F[k] = F[k] + leaves[s][k]

        def pert(s):
            if s not in ml:
                ml[s] = {k: torch.zeros_like(v, requires_grad=True) for k, v in models.items()}
            return ml[s]

        rk = rel.leaf(dkw, names)
        w, r, info = ref.run(prop, rk, callback=cb, perturb=pert, models_out=models)
        ro = {**{f"w:{k}": v for k, v in w.items()}, **{f"r:{k}": v for k, v in r.items() if v is not None}}
        L = rel.dot({k: x.to(T) for k, x in ws.items()}, ro)
        if not L.requires_grad:
            raise Skip
        order = ["scatter"] if grec.scatter_only else list(models)
        per = {}
        flat = [ml[s][k] for s in sorted(ml) for k in order]
        gs = torch.autograd.grad(L, flat, retain_graph=True, allow_unused=True)
        gs = [torch.zeros_like(x) if g is None else g for x, g in zip(flat, gs)]
        for n_, s in enumerate(sorted(ml)):
            per[s] = dict(zip(order, gs[n_ * len(order) : (n_ + 1) * len(order)]))
        acc = {k: torch.zeros_like(models[k]) for k in order}
        s_hi = nt
        adj = {}
        for s in bwd_steps:
            for t in range(s, s_hi):
                for k in order:
                    acc[k] = acc[k] + per[t][k]
            s_hi = s
            ks = list(leaves[s])
            g = torch.autograd.grad(L, [leaves[s][k] for k in ks], retain_graph=True, allow_unused=True)
            adj[s] = ({k: torch.zeros_like(leaves[s][k]) if x is None else x for k, x in zip(ks, g)}, dict(acc))
        topw, topm = {}, {}
        for a, b in adj.values():
            for k, v in a.items():
                topw[k] = max(topw.get(k, 0.0), v.abs().max().item() if v.numel() else 0.0)
            for k, v in b.items():
                topm[k] = max(topm.get(k, 0.0), v.abs().max().item() if v.numel() else 0.0)
        # rounding level: models in proportion to their size
        size = max((topm[k] * models[k].detach().abs().max().item() for k in order), default=0.0)
        eps = 1e-3 if c["dtype"] == "float" else 1e-5
        for s, snap, gr in zip(grec.steps, grec.snaps, grec.grads):
            for k, v in snap.items():
                want = kept(prop, nd, k, adj[s][0][k])
                got = kept(prop, nd, k, v)
                if k in ("wavefield_m1", "wavefield_sc_m1") and got.numel() and (got.double() + want).abs().max() < (got.double() - want).abs().max():
                    got = -got  # the adjoint of the previous field is kept negated
                mon.count("fields")
                mon.close(got, want, tol * 10, f"backward-field:{prop}", floor=max(eps * topw[k], 1e-30), what=f"{k} at step {s}")
            for k in order:
                nm = model_alias(prop, nd, k)
                want = adj[s][1][k]
                got = gr[nm]
                if got.shape != want.shape:
                    got, want = got.double().reshape(-1, *want.shape[-nd:]).sum(0), want.reshape(-1, *want.shape[-nd:]).sum(0)
                hm = kept_model(prop, nd, k)
                mon.count("gradients")
                fl = max(1e-30, eps * size / max(models[k].detach().abs().max().item(), 1e-30), eps * topm[k])
                mon.close(hm(got), hm(want), tol * 10, f"backward-gradient:{prop}", floor=fl, what=f"gradient of {nm} at step {s}")
        for dt in grec.dts:
            mon.check(abs(dt - info["dt"]) <= 1e-6 * abs(info["dt"]), f"backward-dt:{prop}", f"{dt} {info['dt']}")
        mon.nontrivial(kind, prop)
        return

    if kind in ("write", "scale"):
        # random writes at random calls
        wn = ref.wavefield_names(prop, nd)
        gen_ = torch.Generator().manual_seed(c["cb_seed"])
        plan = {}
        for s in fwd_steps:
            if torch.rand((), generator=gen_).item() < 0.6:
                k = wn[int(torch.randint(len(wn), (), generator=gen_))] if torch.rand((), generator=gen_).item() < 0.6 else wn[0]
                view = "pml" if torch.rand((), generator=gen_).item() < 0.5 else "inner"
                plan[s] = (k, view, int(torch.randint(1 << 30, (), generator=gen_)))
        if not plan:
            raise Skip
        scale = {k[2:]: v.abs().max().item() for k, v in base.items() if k.startswith("w:") and v.numel()}
        mags = {s: (scale.get(p[0], 0.0) or max(scale.values()) or 1.0) for s, p in plan.items()}
        if any(m == 0 for m in mags.values()):
            raise Skip

        def delta(s, shape, name):
            k, view, sd = plan[s]
            full = torch.randn(shape, generator=torch.Generator().manual_seed(sd), dtype=T)
            m = torch.zeros_like(full)
            q = inner(m, c["pml"], nd) if view == "inner" else m
            q.fill_(1.0)
            # half points beyond the end do not exist
            if prop in ("acoustic", "elastic"):
                for d, nm in enumerate(ref.dims_of(nd)):
                    if nm in ref.half_dims(prop, name):
                        m.narrow(m.ndim - nd + d, m.shape[m.ndim - nd + d] - 1, 1).zero_()
            # PML memory exists only in the PML of its own dimension
            if name.startswith(("psi", "zeta", "phi", "m_")):
                d = mem_dim(prop, nd, name)
                n = m.shape[m.ndim - nd + d]
                b = min(c["pml"][2 * d], n)
                e = max(b, n - c["pml"][2 * d + 1])
                if e > b:
                    m.narrow(m.ndim - nd + d, b, e - b).zero_()
            return (full * m, m)

        def wcb(st):
            if st.step in plan:
                k = plan[st.step][0]
                x = st.get_wavefield(k, plan[st.step][1])
                p = st.get_wavefield(k, "pml")
                dl, m = delta(st.step, p.shape, k)
                if plan[st.step][1] == "inner":
                    dl, m = inner(dl, c["pml"], nd), inner(m, c["pml"], nd)
                if kind == "write":
                    x += (mags[st.step] * dl).to(x.dtype)
                else:
                    x *= (1 - 0.7 * m).to(x.dtype)
                mon.count("writes")

        def rcb(s, F):
            if s in plan:
                k = plan[s][0]
                dl, m = delta(s, F[k].shape, k)
                F[k] = F[k] + mags[s] * dl.to(kw_dtype(kw)).to(T) if kind == "write" else F[k] * (1 - 0.7 * m)

        if kind == "write":
            o, g = rel.run_grads(prop, kw, names, ws, forward_callback=wcb, callback_frequency=f)
            rk = rel.leaf(dkw, names)
        else:
            o, g = rel.outs(prop, kw, forward_callback=wcb, callback_frequency=f), None
            rk = dkw
        w, r, info = ref.run(prop, rk, callback=rcb)
        ro = {**{f"w:{k}": v for k, v in w.items()}, **{f"r:{k}": v for k, v in r.items() if v is not None}}
        fl = rel.out_floor(prop, ro, c["dtype"])
        changed = any(not torch.equal(o[k], base[k]) for k in o)
        for k in ro:
            mon.close(kept(prop, nd, k[2:], o[k]) if k.startswith("w:") else o[k], kept(prop, nd, k[2:], ro[k]) if k.startswith("w:") else ro[k],
                      tol * 10, f"{kind}-output:{prop}", floor=fl(k), what=k)
        if g is not None:
            L = rel.dot({k: x.to(T) for k, x in ws.items()}, ro)
            if torch.is_tensor(L) and L.requires_grad:
                rg = rel.grads(L, rk, names)
                gf = rel.group_floor(rk, rg, c["dtype"])
                for k in names:
                    mon.close(g[k], rg[k], tol * 10, f"write-gradient:{prop}", floor=gf(k), what=k)
        if changed:
            mon.nontrivial(kind, prop)
        return

    if kind == "bwrite":
        # scaling the accumulated model gradient at the last call scales that part of the result
        mn = ref.model_names(prop)

        seen = []

        def grads_with(fac):
            def bcb(st):
                if st.step == 0:
                    for k in list(Recorder(c, prop, mon, "x").model_names()):
                        gk = st.get_gradient(k, "full")
                        if gk.numel():
                            seen.append(gk.abs().max().item())
                            gk *= fac
                            mon.count("writes")

            return rel.run_grads(prop, kw, names, ws, backward_callback=bcb, callback_frequency=f)[1]

        g0, g1, g2 = grads_with(0.0), grads_with(1.0), grads_with(2.5)
        _, gn = rel.run_grads(prop, kw, names, ws)
        near(mon, g1, gn, f"backward-neutral:{prop}", c["dtype"])
        diff = False
        tol2 = 1e-4 if c["dtype"] == "float" else 1e-9
        for k in names:
            want = g0[k] + 2.5 * (g1[k] - g0[k])
            mon.close(g2[k], want, tol2, f"bwrite:{prop}", floor=g1[k].abs().max().item() if g1[k].numel() else 1, what=k)
            if k in mn:
                diff |= not torch.equal(g0[k], g1[k])
            else:
                mon.check(torch.equal(g0[k], g1[k]), f"bwrite-other:{prop}", k)
        if diff:
            mon.nontrivial(kind, prop)
        else:
            mon.check(max(seen) <= 1e-200, f"bwrite-lost:{prop}", f"kernel gradients up to {max(seen)} scaled without effect")
        return

    if kind == "bzero":
        # zeroing the adjoint fields at a step removes what was recorded from that step on
        amps = [k for k in names if k.startswith("source_amplitudes")]
        if not amps or not any(k.startswith("r:") for k in base):
            raise Skip
        wr = {k: v for k, v in ws.items() if k.startswith("r:")}
        at = bwd_steps[int(c["cb_seed"] % len(bwd_steps))]

        def bcb(st):
            if st.step == at:
                for k in ref.wavefield_names(prop, nd):
                    st.get_wavefield(k, "full").zero_()
                    mon.count("writes")

        _, g = rel.run_grads(prop, kw, amps, wr, backward_callback=bcb, callback_frequency=f)
        _, full = rel.run_grads(prop, kw, amps, wr)
        early = {k: v.clone() for k, v in wr.items()}
        for v in early.values():
            v[..., at:] = 0
        _, ge = rel.run_grads(prop, kw, amps, early)
        tol2 = 1e-4 if c["dtype"] == "float" else 1e-9
        gf = rel.group_floor(kw, full, c["dtype"])
        for k in amps:
            want = torch.cat([ge[k][..., :at], full[k][..., at:]], -1)
            mon.close(g[k], want, tol2, f"bzero:{prop}", floor=max(gf(k), full[k].abs().max().item() * 1e-3), what=f"{k} zeroed at {at}")
        mon.nontrivial(kind, prop)


def kw_dtype(kw):
    return next(v.dtype for k, v in kw.items() if torch.is_tensor(v) and v.is_floating_point() and "locations" not in k)


def in_pml(c, prop, name, x):
    nd = c["ndim"]
    d = mem_dim(prop, nd, name)
    m = torch.zeros(x.shape, dtype=x.dtype)
    n = x.shape[x.ndim - nd + d]
    lo, hi = max(min(c["pml"][2 * d], n) - 1, 0), max(min(c["pml"][2 * d + 1], n) - 1, 0)
    m.narrow(x.ndim - nd + d, 0, lo).fill_(1)
    m.narrow(x.ndim - nd + d, n - hi, hi).fill_(1)
    return m


def mem_dim(prop, nd, name):
    """Dimension whose PML a memory variable belongs to."""
    ds = ref.dims_of(nd)
    n = name.replace("_sc", "")
    if prop in ("scalar", "born"):
        return ds.index(n.split("_")[0][-1])
    return ds.index(n[:-2][-1])


def kept_model(prop, nd, key):
    """Drop the meaningless last entries of averaged parameters."""
    ds = ref.dims_of(nd)
    dims = []
    if prop in ("acoustic", "elastic"):
        if key.startswith("B"):
            dims = [ds.index(key[1:])]
        elif key.startswith("mu") and len(key) == 4:
            dims = [ds.index(x) for x in key[2:]]

    def f(x):
        for d in dims:
            x = x.narrow(x.ndim - nd + d, 0, x.shape[x.ndim - nd + d] - 1)
        return x

    return f
