"""Shots are independent; ignored or absent entries have no effect."""

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C08"
RULE = (
    "random multi-shot problems; outputs and gradients of the whole call are compared with (a) each shot run alone, (b) a random "
    "reordering or subset with repetition, (c) batched models replaced by equal shared ones and vice versa, (d) ignored points "
    "removed, points listed in another order, silent or ignored points added, absent sources given as zero amplitudes, (e) one shot filled with infinities or NaNs; "
    "non-trivial: a non-zero output"
)
N = {"quick": 2600, "thorough": 60000}
CAP = {"quick": 300, "thorough": 3000}
KINDS = ["alone", "permute", "batch", "points", "poison"]
NEED = {f"kind:{k}": 150 for k in KINDS} | {"ignored_nan": 20, "poisoned": 100}


def gen(rng, i, tier):
    kind = KINDS[i % 5]
    o = dict(wide=rng.random() < 0.08, n_shots=rng.choice([2, 2, 3, 4, 5, 9]), mgsi=rng.choice([1, 1, 2]), tail=0.05)
    o["extract"] = rng.choice(["none", "none", "none", "origin"])
    if kind == "points":
        o["n_shots"] = rng.choice([1, 2, 3])
        o["ignore"] = rng.choice([0.0, 0.3, 0.6, 1.0])
    elif rng.random() < 0.3:
        o["ignore"] = rng.choice([0.4, 0.8])
    c = cases.gen_case(rng, **o)
    c["kind"] = kind
    return c


def run(c, mon):
    prop, kw = cases.materialise(c)
    nd, ns = c["ndim"], c["n_shots"]
    g = torch.Generator().manual_seed(c["seed"] + 3)
    models = ref.model_names(prop)
    # the time step and PML depend on the largest velocity of the whole call
    kw["max_vel"] = rel.true_max_vel(prop, kw)
    fi = cases.float_inputs(kw)
    tol = rel.rtol(c, 1e-11, 2e-4)
    try:
        whole0 = rel.outs(prop, kw)
    except RuntimeError:
        if c["ignore"] == 1.0 and not any(k in kw for k in ref.wavefield_names(prop, nd)):
            raise Skip
        raise
    ws = rel.weights(whole0, c["seed"])
    whole, gw = rel.run_grads(prop, kw, fi, ws)
    fo = rel.out_floor(prop, whole, c["dtype"])
    fg = rel.group_floor(kw, gw, c["dtype"])
    kind = c["kind"]
    fi = rel.subset(prop, fi, c["seed"])
    gw = {k: gw[k] for k in fi}
    mon.count(f"kind:{kind}")
    if any(bool((v != 0).any()) for v in whole.values()):
        mon.nontrivial(kind)
    if kind == "alone":
        acc = {k: torch.zeros_like(kw[k]) for k in fi}
        got = {k: torch.empty_like(v) for k, v in whole.items()}
        batched = rel.shot_dim_inputs(prop, kw, nd)
        for s in range(ns):
            ks = rel.select_shots(prop, kw, [s], nd)
            o, gs = rel.run_grads(prop, ks, fi, {k: v[s : s + 1] for k, v in ws.items()})
            for k in got:
                if mon.check(k in o and o[k].shape[0] == 1, f"alone:{prop}:{k}", "missing output"):
                    got[k][s] = o[k][0]
            for k in fi:
                if k in batched:
                    acc[k][s] = gs[k][0]
                else:
                    acc[k] += gs[k]
        rel.compare(mon, got, whole, tol, f"alone:{prop}", fo)
        rel.compare(mon, acc, gw, tol, f"alone-grad:{prop}", fg)
    elif kind == "permute":
        m = int(torch.randint(1, ns + 3, (1,), generator=g))
        idx = torch.randint(0, ns, (m,), generator=g)
        if c["seed"] % 2:
            idx = torch.randperm(ns, generator=g)
        wp = {k: v[idx] for k, v in ws.items()}
        o, gs = rel.run_grads(prop, rel.select_shots(prop, kw, idx, nd), fi, wp)
        rel.compare(mon, o, {k: v[idx] for k, v in whole.items()}, tol, f"permute:{prop}", fo)
        batched = rel.shot_dim_inputs(prop, kw, nd)
        if len(set(idx.tolist())) == ns == m:
            rel.compare(mon, gs, {k: (v[idx] if k in batched else v) for k, v in gw.items()}, tol, f"permute-grad:{prop}", fg)
        else:
            keep = [k for k in fi if k in batched]
            rel.compare(mon, {k: gs[k] for k in keep}, {k: gw[k][idx] for k in keep}, tol, f"subset-grad:{prop}", fg)
    elif kind == "batch":
        # every shared model given per shot: gradients add up to the shared one
        kb = dict(kw)
        made = []
        for k in models:
            if kw[k].ndim == nd and torch.rand(1, generator=g).item() < 0.7:
                kb[k] = kw[k].expand(ns, *kw[k].shape).clone()
                made.append(k)
            elif kw[k].ndim == nd and torch.rand(1, generator=g).item() < 0.5:
                kb[k] = kw[k][None].clone()  # a batch of one is a shared model
                made.append(k)
        o, gs = rel.run_grads(prop, kb, fi, ws)
        rel.compare(mon, o, whole, tol, f"batch:{prop}", fo)
        gs = {k: (v.sum(0) if k in made else v) for k, v in gs.items()}
        rel.compare(mon, gs, gw, tol, f"batch-grad:{prop}", fg)
    elif kind == "poison":
        # what is wrong in one shot stays there
        kp = {k: (v.clone() if torch.is_tensor(v) else v) for k, v in kw.items()}
        batched = [k for k in rel.shot_dim_inputs(prop, kw, nd) if k in cases.float_inputs(kw) and k not in models]
        bad = int(torch.randint(0, ns, (1,), generator=g))
        val = [float("nan"), float("inf"), -float("inf")][c["seed"] % 3]
        for k in batched:
            if torch.rand(1, generator=g).item() < 0.5 or k == batched[-1]:
                f = kp[k][bad].view(-1) if kp[k][bad].is_contiguous() else kp[k][bad]
                if f.numel():
                    f[int(torch.randint(0, f.numel(), (1,), generator=g)) if f.ndim == 1 else slice(None)] = val
        rest = [s for s in range(ns) if s != bad]
        mine = [k for k in fi if k in rel.shot_dim_inputs(prop, kw, nd)]
        o, gs = rel.run_grads(prop, kp, fi, ws)
        mon.count("poisoned", any(not v.isfinite().all() for v in o.values()))
        rel.compare(mon, {k: v[rest] for k, v in o.items()}, {k: v[rest] for k, v in whole.items()}, tol, f"poison:{prop}", fo)
        rel.compare(mon, {k: gs[k][rest] for k in mine}, {k: gw[k][rest] for k in mine}, tol, f"poison-grad:{prop}", fg)
    else:
        points(c, prop, kw, nd, ns, g, whole, ws, gw, fi, tol, fo, fg, mon)


def points(c, prop, kw, nd, ns, g, whole, ws, gw, fi, tol, fo, fg, mon):
    """Transform every list of points, run, transform back, compare."""
    kt = dict(kw)
    back_r, back_a = {}, {}
    rt = {ref.rloc_name(t): f"r:{t}" for t in ref.receiver_types(prop, nd)}
    at = {ref.sloc_name(t): ref.amp_name(t) for t in ref.source_types(prop, nd)}
    for k in [x for x in kw if "locations" in x and torch.is_tensor(kw[x])]:
        l = kw[k]
        n = l.shape[1]
        act = ref.active(l)
        perm = torch.stack([torch.randperm(n, generator=g) for _ in range(ns)])
        how = int(torch.randint(0, 3, (1,), generator=g))
        if how == 0:  # listed in another order
            sel = perm
        elif how == 1:  # without the points that are ignored in every shot
            keep = act.any(0).nonzero()[:, 0]
            if len(keep) == 0 and not any(kw.get(x) is not None for x in ref.wavefield_names(prop, nd)):
                keep = torch.arange(1)
            sel = keep.expand(ns, -1)
        else:  # active ones first, ignored ones last, cut to the longest
            order = torch.argsort((~act).to(torch.int64), dim=1, stable=True)
            m = max(1, int(act.sum(1).max()))
            sel = order[:, :m]
        nl = torch.gather(l, 1, sel[..., None].expand(-1, -1, nd))
        extra = int(torch.randint(0, 3, (1,), generator=g)) if how != 1 else 0
        if extra:  # additional ignored points
            pad = torch.full((ns, extra, nd), ref.IGNORE, dtype=l.dtype)
            nl = torch.cat([nl, pad], 1)
        kt[k] = nl
        if nl.shape[1] == 0:
            del kt[k]
        if k in at and at[k] in kw:
            a = kw[at[k]]
            na = torch.gather(a, 1, sel[..., None].expand(-1, -1, a.shape[-1]))
            if extra:
                na = torch.cat([na, 1e3 * torch.randn(ns, extra, a.shape[-1], generator=g, dtype=torch.float64).to(a.dtype)], 1)
            off = ~ref.active(nl)
            if c["seed"] % 5 < 2 and bool(off.any()):
                # what is ignored may be anything
                na[off] = float("nan") if c["seed"] % 5 else float("inf")
                mon.count("ignored_nan")
            kt[at[k]] = na
            if nl.shape[1] == 0:
                del kt[at[k]]
                kt["nt"] = c["nt"]
            back_a[at[k]] = (sel, act, extra)
        elif k in rt:
            back_r[rt[k]] = (sel, act, extra)
    silent(c, prop, kt, nd, ns, g, mon)
    # weights and data in the transformed order
    wt = dict(ws)
    for k, (sel, act, extra) in back_r.items():
        if k not in ws:
            continue
        w = torch.gather(ws[k], 1, sel[..., None].expand(-1, -1, ws[k].shape[-1]))
        if extra:
            w = torch.cat([w, torch.ones(ns, extra, w.shape[-1], dtype=w.dtype)], 1)
        wt[k] = w
        if w.shape[1] == 0:
            del wt[k]
    names = [k for k in fi if k in kt]
    o, gs = rel.run_grads(prop, kt, names, wt)
    got = dict(o)
    for k, (sel, act, extra) in back_r.items():
        if k not in whole:
            continue
        full = torch.zeros_like(whole[k])
        if k in o:
            n = sel.shape[1]
            full.scatter_(1, sel[..., None].expand(-1, -1, full.shape[-1]), o[k][:, :n])
            if extra:
                mon.check(bool((o[k][:, n:] == 0).all()), f"ignored-receiver:{prop}:{k}", "an ignored receiver recorded something")
        got[k] = full
        rows = (~act)[..., None]
        mon.check(bool(((whole[k] == 0) | ~rows).all()), f"ignored-receiver:{prop}:{k}", "an ignored receiver recorded something")
    rel.compare(mon, got, whole, tol, f"points:{prop}", fo)
    for k in fi:
        want = gw[k]
        if k in back_a:
            sel, act, extra = back_a[k]
            mon.check(bool(((want == 0) | act[..., None]).all()), f"ignored-source-grad:{prop}", "an ignored source has a gradient")
            full = torch.zeros_like(want)
            if k in gs:
                full.scatter_(1, sel[..., None].expand(-1, -1, full.shape[-1]), gs[k][:, : sel.shape[1]])
                if extra:
                    mon.check(bool((gs[k][:, sel.shape[1] :] == 0).all()), f"ignored-source-grad:{prop}", "an ignored source has a gradient")
            got_k = full
        elif k in gs:
            got_k = gs[k]
        else:
            continue
        mon.close(got_k, want, tol, f"points-grad:{prop}:{k}", floor=fg(k))


def silent(c, prop, kt, nd, ns, g, mon):
    """Absent source types given explicitly, with zero amplitude."""
    for t in ref.source_types(prop, nd):
        if ref.sloc_name(t) in kt or torch.rand(1, generator=g).item() < 0.5:
            continue
        if c["extract"] == "origin":
            continue
        hi = list(c["shape"])
        if t in ("x", "y", "z"):
            hi[ref.dims_of(nd).index(t)] -= 1
        n = int(torch.randint(1, 3, (1,), generator=g))
        l = cases._distinct(g, ns, n, [0] * nd, hi)
        if l is None:
            continue
        kt[ref.sloc_name(t)] = l
        kt[ref.amp_name(t)] = torch.zeros(ns, l.shape[1], c["nt"], dtype=kt[ref.model_names(prop)[0]].dtype)
        kt.pop("nt", None)
        mon.count("silent_sources")
