"""No data races; results independent of the number of threads."""

import ctypes
import os
import re

import torch

from .. import cases, ref, rel
from ..harness import Skip
from . import c04, c05

ID = "C02"
RULE = (
    "phase tsan: the library is rebuilt with ThreadSanitizer and a pthread OpenMP runtime (fresh threads per region, random start delays and order) and runs "
    "forward, backward and double backward of random problems with 2-6 threads and 2-7 shots over all storage modes; any race report with a frame in the "
    "library is a violation. phase threads: the same call with 1 to 9 threads (libgomp, repeated): outputs must be bitwise identical, gradients equal up to summation "
    "order. phase serial: the library built without OpenMP, against the reference; non-trivial: more than one thread worked on a non-zero problem"
)
N = {"quick": 640, "thorough": 25000}
NT = {"quick": 500, "thorough": 30000}
NS = {"quick": 240, "thorough": 12000}
CAP = {"quick": 300, "thorough": 4000}
NO_RELEASE = True
NEED = {"phase:tsan": 300, "phase:threads": 300, "phase:serial": 120, "team_regions": 500, "team_threads": 2000, "second": 30, "mode:disk": 50, "mode:cpu": 50, "shared_model": 200, "batched_model": 100}
for _p in ("scalar", "born", "acoustic", "elastic"):
    for _n in "123":
        NEED[f"tsan:{_p}:{_n}"] = 8


def gen(rng, i, tier):
    phase = os.environ.get("DWV_PHASE", "tsan")
    if phase == "serial":
        base = rng.choice(["c04", "c04", "c04", "c05"])
        c = {"c04": c04, "c05": c05}[base].gen(rng, i - i % 8, tier)
        c["n_shots"] = rng.randint(1, 4)
        c.update(phase=phase, base=base, threads=rng.randint(1, 5))
        return c
    nd = cases.pick(rng, [1, 2, 3], [2, 4, 3])
    big = {1: 20, 2: 9, 3: 5}[nd] if phase == "tsan" else {1: 40, 2: 14, 3: 8}[nd]
    pm = {1: 5, 2: 3, 3: 2}[nd]
    c = cases.gen_case(rng, ndim=nd, dtype=cases.pick(rng, ["double", "float"]), wide=False, shape=[rng.randint(3, big) for _ in range(nd)],
                       pml=[rng.choice([0, rng.randint(1, pm)]) for _ in range(2 * nd)], n_shots=rng.randint(2, 7), nt=rng.randint(2, 6 if phase == "tsan" else 14),
                       mgsi=cases.pick(rng, [1, 2], [4, 1]), step_ratio=rng.choice([1, 1, 2]), extract="none")
    c["phase"] = phase
    c["threads"] = rng.randint(2, 6)
    c["mode"] = cases.pick(rng, ["device", "cpu", "disk"], [3, 2, 2])
    c["comp"] = rng.random() < 0.3
    c["second"] = c["prop"] == "scalar" and rng.random() < 0.6
    c["subset"] = rng.random() < 0.25
    if rng.random() < 0.2:
        # one shot per thread at most, or fewer shots than threads
        c["threads"] = c["n_shots"] + rng.randint(0, 3)
    return c


def execute(c, prop, kw, names, mon):
    from .c01 import execute as ex

    return ex({**c, "chunk": 0}, prop, kw, names, mon)


_pos = {}


def new_reports():
    path = f"{os.environ['DWV_TSAN_LOG']}.{os.getpid()}"
    if not os.path.exists(path):
        return []
    with open(path, errors="replace") as f:
        f.seek(_pos.get(path, 0))
        text = f.read()
        _pos[path] = f.tell()
    return [b for b in text.split("==================") if "WARNING: ThreadSanitizer" in b]


FRAME = re.compile(r"#\d+ (\S+) .*(?:libdeepwave_C|/src/deepwave/)")


def report_key(b):
    kind = b.split("WARNING: ThreadSanitizer:")[1].split("(")[0].strip()
    fns = []
    for f in FRAME.findall(b):
        f = re.sub(r"\._omp_fn\.\d+|_\d+d|_\d+(?=_)|_float|_double|_cpu", "", f)
        if f not in fns and not f.startswith("GOMP") and f != "entry":
            fns.append(f)
    return f"tsan:{kind}:{'+'.join(fns[:2])}" if fns else None


def run(c, mon):
    if c["phase"] == "serial":
        import deepwave

        if hasattr(deepwave.backend_utils.dll, "omp_get_num_threads"):
            raise Skip
        torch.set_num_threads(c["threads"])
        try:
            {"c04": c04, "c05": c05}[c["base"]].run(c, mon)
        finally:
            torch.set_num_threads(1)
        mon.count("phase:serial")
        return
    prop, kw = cases.materialise(c)
    names = cases.float_inputs(kw)
    if c["subset"]:
        g = torch.Generator().manual_seed(c["seed"] + 2)
        names = [k for k in names if torch.rand(1, generator=g).item() < 0.5] or [ref.model_names(prop)[0]]
    mon.count(f"phase:{c['phase']}")
    mon.count(f"mode:{c['mode']}")
    mon.count("batched_model", any(c["batched"]))
    mon.count("shared_model", not all(c["batched"]))
    if c["phase"] == "tsan":
        import deepwave

        dll = deepwave.backend_utils.dll
        before = [ctypes.c_long.in_dll(dll, n).value for n in ("dwv_team_regions", "dwv_threads")]
        torch.set_num_threads(c["threads"])
        try:
            a = execute(c, prop, kw, names, mon)
        finally:
            torch.set_num_threads(1)
        for n, k in ((0, "team_regions"), (1, "team_threads")):
            mon.count(k, ctypes.c_long.in_dll(dll, ("dwv_team_regions", "dwv_threads")[n]).value - before[n])
        mon.count(f"tsan:{prop}:{c['ndim']}")
        for b in new_reports():
            k = report_key(b)
            if k is None:
                mon.count("reports_elsewhere")
            else:
                mon.violate(k, b[:1400])
        if any(bool((v != 0).any()) for v in a.values()):
            mon.nontrivial("tsan", prop)
        return
    # ------------------------------------------------ thread counts
    base = None
    counts = sorted({1, 2, c["threads"], c["n_shots"], c["n_shots"] + 2})
    g = torch.Generator().manual_seed(c["seed"] + 9)
    order = [counts[i] for i in torch.randperm(len(counts), generator=g)]
    top = {}
    for n in [1] + order:
        torch.set_num_threads(n)
        try:
            a = execute(c, prop, kw, names, mon)
            if n > 1:
                b = execute(c, prop, kw, names, mon)
                mon.count("repeats")
                for k in a:
                    if k[:2] not in ("w:", "r:"):
                        continue  # sums over shots: below
                    mon.check(same(a[k], b[k]), f"not-reproducible:{prop}:{k[:2]}", f"{k} with {n} threads")
        finally:
            torch.set_num_threads(1)
        if base is None:
            base = a
            continue
        gr = {k[2:]: v for k, v in base.items() if k.startswith("g:")}
        gf = rel.group_floor(kw, gr, c["dtype"]) if gr else None
        hr = {k[2:]: v for k, v in base.items() if k.startswith("h:")}
        hf = rel.group_floor(kw, hr, c["dtype"]) if hr else None
        mon.count("thread_counts")
        for k in base:
            if k[:2] in ("w:", "r:"):
                mon.check(same(a[k], base[k]), f"outputs:{prop}", f"{k} differs with {n} threads")
            else:
                fl = gf(k[2:]) if k.startswith("g:") else hf(k[2:])
                mon.close(a[k], base[k], (1e-3 if c["dtype"] == "float" else 1e-9) * (20 if k[0] == "h" else 1), f"gradients:{prop}:{k[:2]}", floor=fl, what=f"{k} with {n} threads")
    if any(bool((v != 0).any()) for v in base.values()):
        mon.nontrivial("threads", prop)


def same(a, b):
    return torch.equal(a, b) or bool(((a == b) | (a.isnan() & b.isnan())).all())


def driver(ctx):
    mod = ctx.mod
    ctx.spawn("tsan", mod.N[ctx.tier], cap=mod.CAP[ctx.tier], threads=1, DWV_PHASE="tsan")
    seed = ctx.seed
    ctx.seed += 500009
    ctx.spawn("plain", mod.NT[ctx.tier], cap=mod.CAP[ctx.tier], n_workers=6, threads=8, DWV_PHASE="threads", OMP_WAIT_POLICY="passive")
    ctx.seed += 1
    ctx.spawn("serial", mod.NS[ctx.tier], cap=mod.CAP[ctx.tier] / 2, threads=1, DWV_PHASE="serial")
    if ctx.tier == "thorough":
        ctx.seed += 1
        ctx.spawn("release", mod.NT[ctx.tier] // 4, cap=mod.CAP[ctx.tier], n_workers=6, threads=8, DWV_PHASE="threads", OMP_WAIT_POLICY="passive")
    ctx.seed = seed
