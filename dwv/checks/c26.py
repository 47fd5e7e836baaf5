"""Warnings: exactly when a request is accepted but likely inaccurate."""

import math
import os
import warnings

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C26"
RULE = (
    "random requests around the conditions for which the library documents a warning (pml_freq not set, or above the Nyquist frequency; "
    "fewer than six cells per shortest wavelength; max_vel below the model's speed; twenty or more internal steps per step; an area inferred "
    "from wavefields without an origin), through functions and modules, native and Python backends; the warnings recorded by Python's machinery must be those whose "
    "condition, computed in the check, holds, and no others; a default must give the numbers of its documented value; non-trivial: at least one warning was due"
)
N = {"quick": 3000, "thorough": 80000}
CAP = {"quick": 300, "thorough": 2000}
KINDS = ["default", "nyquist", "wavelength", "max_vel", "steps", "origin"]
NEED = {f"due:{k}": 80 for k in KINDS} | {f"absent:{k}": 80 for k in KINDS} | {"only_slow_cell": 50, "near_limit": 100, "default_value": 30}


def gen(rng, i, tier):
    o = dict(prop=cases.PROPS[i % 4], nt=rng.randint(1, 3), wide=False, neg_dt=rng.random() < 0.2, time_pad=0.0, time_taper=False, freq_taper=0.0, tail=0)
    o["step_ratio"] = rng.choice([1, 1, 2, 5, 18, 19, 20, 21, 30]) if rng.random() < 0.6 else 1
    o["use_max_vel"] = rng.random() < 0.4
    o["wf"] = rng.choice(["none", "some", "all"])
    c = cases.gen_case(rng, **o)
    c["max_factor"] = rng.choice([0.5, 0.9, 1.0, 1.0, 1.3, 0.9999, 1.0001])
    c["neg_max"] = rng.random() < 0.2
    c["freq"] = rng.choice(["as_is", "none", "zero", "nyquist", "near6", "near6", "far6", "far6"])
    c["side"] = rng.choice([-1, 1])
    c["eps"] = rng.choice([2e-3, 0.1, 0.5])
    c["slow"] = rng.random() < 0.3
    c["negative_v"] = rng.random() < 0.1
    c["drop_origin"] = rng.random() < 0.5
    c["eager"] = rng.random() < 0.1
    c["module"] = rng.random() < 0.15
    return c


def speeds(prop, kw):
    """(slowest, fastest) non-zero speeds in the models as given."""
    if prop == "elastic":
        la, mu, b = (kw[k].double() for k in ("lamb", "mu", "buoyancy"))
        vp, vs = ((la + 2 * mu) * b).sqrt(), (mu * b).sqrt()
        a = torch.cat([vp.flatten(), vs.flatten()])
    else:
        a = kw["v"].double().abs().flatten()
    return a[a > 0].min().item(), a.max().item()


def classify(m):
    t = str(m.message).lower()
    if "nyquist" in t:
        return "nyquist"
    if "pml_freq" in t and ("not set" in t or "default" in t):
        return "default"
    if "wavelength" in t and ("six" in t or "6" in t or "recommended" in t):
        return "wavelength"
    if "max_vel" in t:
        return "max_vel"
    if "cfl" in t:
        return "steps"
    if "origin" in t:
        return "origin"
    return None


def call(c, prop, kw):
    extra = {}
    if c["eager"]:
        extra["python_backend"] = "eager"
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if c["module"]:
            import deepwave

            cls = {"scalar": deepwave.Scalar, "born": deepwave.ScalarBorn, "acoustic": deepwave.Acoustic, "elastic": deepwave.Elastic}[prop]
            ms = {k: kw[k] for k in ref.model_names(prop)}
            m = cls(*ms.values(), kw["grid_spacing"])
            rest = {k: v for k, v in kw.items() if k not in ms and k not in ("grid_spacing", "_ndim")}
            out = m(rest.pop("dt"), **rest, **extra)
            out = [x for x in out if torch.is_tensor(x)]
        else:
            W, R = cases.call(prop, kw, **extra)
            out = [*W.values(), *[x for x in R.values() if x is not None]]
    return out, w


def run(c, mon):
    prop, kw = cases.materialise(c)
    nd = c["ndim"]
    if cases.last_row_outside(c, kw):
        raise Skip
    if prop != "elastic":
        if c["slow"]:
            kw["v"].view(-1)[kw["v"].numel() // 2] *= 0.03
            mon.count("only_slow_cell")
        if c["negative_v"]:
            kw["v"] = -kw["v"]
    elif c["slow"]:
        i = kw["mu"].numel() // 2
        kw["mu"].view(-1)[i] *= 1e-3
        mon.count("only_slow_cell")
    lo, top = speeds(prop, kw)
    if kw["max_vel"] is not None:
        kw["max_vel"] = top * c["max_factor"] * (-1 if c["neg_max"] else 1)
    if c["extract"] == "origin" and c["drop_origin"]:
        # only where the area then starts at zero and stays inside
        kw.pop("origin")
    h = [float(kw["grid_spacing"])] * nd if not isinstance(kw["grid_spacing"], list) else kw["grid_spacing"]
    mv = abs(kw["max_vel"]) if kw["max_vel"] is not None else top
    lim = 0.6 / math.sqrt(sum(1 / x**2 for x in h)) / mv
    q = abs(kw["dt"]) / lim
    r = math.ceil(q)
    if abs(q - round(q)) < 1e-5:
        raise Skip
    inner = abs(kw["dt"]) / r
    six = lo / 6 / max(h)  # the frequency with six cells per wavelength
    f = c["freq"]
    if f == "none":
        kw["pml_freq"] = None
    elif f == "zero":
        kw["pml_freq"] = 0.0
    elif f == "nyquist":
        kw["pml_freq"] = 0.5 / inner * (1 + c["eps"]) if c["side"] > 0 else 0.5 / abs(kw["dt"]) * (1 - c["eps"])
    elif f in ("near6", "far6"):
        s = c["eps"] if f == "near6" else 3.0
        kw["pml_freq"] = six * (1 + s) if c["side"] > 0 else six / (1 + s)
        mon.count("near_limit", f == "near6")
    freq = 25.0 if kw["pml_freq"] is None else kw["pml_freq"]
    due = {
        "default": kw["pml_freq"] is None,
        "nyquist": True if freq > 0.5 / inner * (1 + 1e-9) else (False if freq <= 0.5 / abs(kw["dt"]) * (1 - 1e-9) else None),
        "wavelength": None if abs(freq - six) < 1e-3 * six else freq > six,
        "max_vel": kw["max_vel"] is not None and (None if abs(mv - top) < 1e-5 * top else mv < top),
        "steps": r >= 20,
        "origin": None,
    }
    wf = any(k in kw for k in ref.wavefield_names(prop, nd))
    due["origin"] = wf and kw.get("origin") is None and kw.get("survey_pad") is None
    try:
        out, w = call(c, prop, kw)
    except RuntimeError:
        if c["extract"] == "origin" and kw.get("origin") is None:
            raise Skip  # points outside the inferred area
        raise
    root = os.environ.get("DWV_PKG", "deepwave")
    seen = {}
    for m in w:
        k = classify(m)
        if k is None:
            if root in m.filename and issubclass(m.category, UserWarning):
                mon.violate(f"unexpected:{prop}", f"{m.message}")
            continue
        seen.setdefault(k, []).append(m)
    for k, d in due.items():
        if d is None:
            continue
        mon.count(f"{'due' if d else 'absent'}:{k}")
        mon.check(bool(seen.get(k)) == d, f"{k}:{'missing' if d else 'spurious'}:{prop}",
                  lambda: f"{[str(m.message)[:150] for m in w]}; frequency {freq}, six cells at {six}, Nyquist {0.5 / inner} (inner), max_vel {kw['max_vel']} of {top}, {r} steps")
        if d and seen.get(k):
            mon.check(all(issubclass(m.category, Warning) for m in seen[k]), f"category:{k}", "")
    if kw["pml_freq"] is None:
        o2, _ = call(c, prop, dict(kw, pml_freq=25.0))
        mon.count("default_value")
        mon.check(len(o2) == len(out) and all(torch.equal(a, b) or bool(((a == b) | (a.isnan() & b.isnan())).all()) for a, b in zip(out, o2)), f"default-value:{prop}", "")
    if any(due.values()):
        mon.nontrivial(f"{prop}:{nd}:{sorted(k for k, d in due.items() if d)}:{c['eager']}:{c['module']}")
