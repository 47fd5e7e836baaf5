"""Forward propagation equals the documented discretised equations."""

from .. import cases, ref
from ..harness import Skip

ID = "C03"
RULE = (
    "random problems over propagator x 1-3D x accuracy x dtype x grid, PML widths, heterogeneous/batched/zero models, "
    "sources, receivers, initial wavefields, step ratio, resampling options, cropping; every output of the compiled "
    "code is compared with an independent float64 reference; non-trivial: at least one output is non-zero"
)
N = {"quick": 5200, "thorough": 160000}
CAP = {"quick": 300, "thorough": 3000}
NEED = {"comparisons": 5000, "prop:scalar": 100, "prop:born": 100, "prop:acoustic": 100, "prop:elastic": 100}


def tol_of(c):
    if c["dtype"] == "float":
        return 1e-3
    return 1e-9


def gen(rng, i, tier):
    c = cases.gen_case(rng, tail=0.06)
    if tier == "thorough" and rng.random() < 0.2:
        c = cases.gen_case(rng, wide=True)
    return c


def run(c, mon):
    prop, kw = cases.materialise(c)
    if cases.last_row_outside(c, kw):
        raise Skip
    W, R, info = ref.run(prop, cases.to_double(kw))
    w, r = cases.call(prop, kw)
    tol = tol_of(c)
    nz = 0
    for k in W:
        mon.close(w[k], W[k], tol, f"wavefield:{prop}:{k}", floor=1e-13)
        nz += bool(W[k].abs().max() > 0) if W[k].numel() else 0
    for k in R:
        if R[k] is None:
            mon.check(r[k] is None, f"receiver:{prop}:{k}", "unexpected receiver data")
        elif r[k] is None:
            mon.check(R[k].numel() == 0, f"receiver:{prop}:{k}", "missing receiver data")
        else:
            mon.close(r[k], R[k], tol, f"receiver:{prop}:{k}", floor=1e-13)
            nz += bool(R[k].abs().max() > 0)
            mon.check(r[k].dtype == kw[ref.model_names(prop)[0]].dtype, f"dtype:{prop}", "output dtype")
    mon.count(f"prop:{prop}")
    mon.count("inner_steps", info["step_ratio"] * c["nt"])
    if nz:
        mon.nontrivial(prop)
