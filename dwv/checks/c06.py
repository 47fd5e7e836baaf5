"""A run split into segments equals the unsplit run."""

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C06"
RULE = (
    "random problems; random sequence of split points (1-5 segments, single steps included); outputs and gradients of the chained "
    "segments (wavefields passed on, amplitudes sliced) are compared with one call; with a step ratio above one, problems "
    "driven by initial wavefields; non-trivial: at least two segments and a non-zero output"
)
N = {"quick": 2600, "thorough": 70000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"segments": 3000, "prop:scalar": 100, "prop:born": 100, "prop:acoustic": 100, "prop:elastic": 100}


def gen(rng, i, tier):
    r = rng.choice([1, 1, 1, 2, 3])
    o = dict(step_ratio=r, nt=rng.randint(2, 30), freq_taper=0, time_pad=0, time_taper=False, wide=False)
    o["mgsi"] = rng.choice([1, 1, 1, 2, 3])
    if r > 1:
        o["wf"] = "all"
    c = cases.gen_case(rng, tail=0.04, **o)
    if r > 1:
        c["n_src"] = {k: 0 for k in c["n_src"]}
        c["n_rec"] = {k: 0 for k in c["n_rec"]}
        if c["extract"] == "pad":
            c["extract"] = "none"
    u = c["mgsi"]
    c["nt"] = max(2, c["nt"] // u) * u
    n = c["nt"] // u
    k = rng.randint(1, min(4, n - 1))
    mode = rng.random()
    if mode < 0.3:
        cuts = list(range(1, k + 1))
    else:
        cuts = sorted(rng.sample(range(1, n), k))
    c["cuts"] = [x * u for x in cuts]
    c["segment_opts"] = rng.random() < 0.3
    return c


def run(c, mon):
    prop, kw = cases.materialise(c)
    if cases.last_row_outside(c, kw):
        raise Skip
    nd = c["ndim"]
    nt = c["nt"]
    fi = cases.float_inputs(kw)
    kw = rel.leaf(kw, fi)
    sub = rel.subset(prop, fi, c["seed"])
    given = {k: (v.detach() if torch.is_tensor(v) else v) for k, v in kw.items()}
    whole = rel.outs(prop, kw)
    ws = rel.weights(whole, c["seed"])
    L = rel.dot(ws, whole)
    gw = rel.grads(L, kw, fi)
    fg = rel.group_floor(kw, gw, c["dtype"])
    kw = rel.leaf(given, sub)

    names = ref.wavefield_names(prop, nd)
    bounds = [0, *c["cuts"], nt]
    state = {k: kw[k] for k in names if kw.get(k) is not None}
    rec = {}
    amps = [k for k in kw if k.startswith("source_amplitudes")]
    for n, (a, b) in enumerate(zip(bounds, bounds[1:])):
        kk = {k: v for k, v in kw.items() if k not in names}
        for k in amps:
            kk[k] = kw[k][..., a:b]
            if c["segment_opts"]:
                kk[k] = kk[k].contiguous()
        if not amps:
            kk["nt"] = b - a
        kk.update(state)
        if n and kk.get("origin") is None and c["extract"] == "none":
            kk["origin"] = [0] * nd if c["segment_opts"] else None
        w, r = cases.call(prop, kk)
        state = w
        for k, v in r.items():
            if v is not None:
                rec.setdefault(k, []).append(v)
        mon.count("segments")
    got = {f"w:{k}": v for k, v in state.items()}
    got.update({f"r:{k}": torch.cat(v, -1) for k, v in rec.items()})
    tol = rel.rtol(c, 1e-11, 2e-4)
    rel.compare(mon, got, whole, tol, f"split:{prop}", rel.out_floor(prop, whole, c["dtype"]))
    L = rel.dot(ws, got)
    if L.requires_grad:
        gs = rel.grads(L, kw, sub)
        rel.compare(mon, gs, {k: gw[k] for k in sub}, tol, f"split-grad:{prop}", fg)
    else:
        mon.check(all(bool((gw[k] == 0).all()) for k in sub), f"split-grad:{prop}", f"no gradient for {sub}")
    mon.count(f"prop:{prop}")
    if any(bool((v != 0).any()) for v in whole.values()):
        mon.nontrivial(prop)
