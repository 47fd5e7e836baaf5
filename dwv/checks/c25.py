"""Memory and disk use follow the options; everything is released."""

import ctypes
import gc
import math
import os
import random
import shutil
import subprocess
import tempfile

import torch

from .. import build, cases, ref, rel
from ..harness import Skip

ID = "C25"
RULE = (
    "a preloaded heap monitor (live and peak bytes of blocks of a page or more) and the sizes of the files below storage_path, read "
    "during pairs of runs of the same random problem that differ only in the number of time steps: the growth per stored step of live and "
    "peak memory (forward, backward, second backward) and of the files is at most that of the snapshots which the documentation "
    "describes for the chosen options and the models that require gradients, and zero (but for source and receiver samples) where it promises none; "
    "afterwards live memory returns to its level before the call, also over repetitions, errors and dropped graphs; non-trivial: "
    "snapshots were stored"
)
N = {"quick": 480, "thorough": 12000}
CAP = {"quick": 300, "thorough": 2400}
NEED = {"measured": 900, "mode:device": 150, "mode:cpu": 150, "mode:disk": 150, "mode:none": 80, "no_model_gradient": 100, "interval>1": 100,
        "released": 900, "second": 20, "errors_released": 40, "heap_blocks_seen": 20000}
NO_RELEASE = True
PAGE = 4096


def setup(tier):
    # the collector then looks at what the cases create only
    gc.collect()
    gc.freeze()


def gen(rng, i, tier):
    nd = [1, 2, 3, 2][(i // 4) % 4]
    o = dict(prop=cases.PROPS[i % 4], ndim=nd, nt=1, mgsi=rng.choice([1, 1, 2, 3, 5]), wide=False, extract=rng.choice(["none", "none", "pad"]),
             step_ratio=rng.choice([1, 1, 1, 2, 3]), neg_dt=False, tail=0)
    o["shape"] = [rng.randint(*{1: (3000, 6000), 2: (42, 60), 3: (11, 15)}[nd]) for _ in range(nd)]
    o["n_shots"] = rng.choice([1, 1, 2, 3])
    o["n_src"] = {t: rng.randint(0, 1) for t in ref.source_types(o["prop"], nd)}
    o["n_rec"] = {t: rng.randint(0, 1) for t in ref.receiver_types(o["prop"], nd)}
    o["hetero"] = 0.2
    o["zero_cells"] = 0
    o["void"] = o["fluid"] = False
    c = cases.gen_case(rng, **o)
    k = c["mgsi"]
    c["nts"] = [k * rng.randint(1, 3)]
    c["nts"].append(c["nts"][0] + k * rng.randint(4, 7 if nd < 3 else 5))
    c["need"] = rng.choice(["subset"] * 6 + ["nothing", "no_grad", "nomodel", "nomodel"])
    c["configs"] = rng.sample([(m, z) for m in ("device", "cpu", "disk", "none") for z in (False, True)], 2)
    c["threads"] = rng.choice([1, 1, 3])
    c["callback"] = rng.choice([0, 0, 0, 1, 4])
    c["second"] = o["prop"] == "scalar" and rng.random() < 0.4
    c["error"] = rng.random() < 0.15
    return c


class Heap:
    def __init__(self):
        self.lib = ctypes.CDLL(None)
        for f in ("dwv_live", "dwv_peak", "dwv_blocks"):
            getattr(self.lib, f).restype = ctypes.c_long

    def live(self):
        gc.collect()
        return self.lib.dwv_live()

    def start(self):
        self.lib.dwv_reset()

    def peak(self):
        return self.lib.dwv_peak()


def quantities(prop, nd, needed):
    """How many snapshots per stored step the requested gradients call for."""
    if prop == "scalar":
        return 1 if "v" in needed else 0
    if prop == "born":
        # the background for either, the scattered wavefield for v
        return 2 if "v" in needed else (1 if "scatter" in needed else 0)
    if prop == "acoustic":
        # the bulk modulus depends on both, the buoyancies on the density
        return (1 + nd) if "rho" in needed else (1 if "v" in needed else 0)
    n = 0
    if "mu" in needed:
        n = nd + nd * (nd - 1) // 2
    elif "lamb" in needed:
        n = nd
    return n + (nd if "buoyancy" in needed else 0)


def size_below(d):
    return sum(os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs)


class Stop(Exception):
    pass


def measure(c, prop, kw, names, opts, heap, second=False, error=None):
    """One complete use. -> bytes relative to the level before the call."""
    calls = [0]

    def watch(state):
        calls[0] += 1
        if error is not None and calls[0] > error:
            raise Stop

    extra = dict(opts)
    if c["callback"] or error is not None:
        extra.update(forward_callback=watch, backward_callback=watch, callback_frequency=c["callback"] or 2)
    kw = rel.leaf(kw, names)
    d = opts["storage_path"]
    base = heap.live()
    heap.start()
    m = {}
    try:
        if c["need"] == "no_grad":
            with torch.no_grad():
                o = rel.outs(prop, kw, **extra)
        else:
            o = rel.outs(prop, kw, **extra)
        m["forward_peak"] = heap.peak() - base
        m["forward_live"] = heap.live() - base
        m["files"] = size_below(d)
        L = sum(v.sum() for v in o.values())
        if torch.is_tensor(L) and L.requires_grad:
            heap.start()
            if second:
                g = torch.autograd.grad(sum((v * v).sum() for v in o.values()), kw["v"], create_graph=True)
                m["backward_peak"] = heap.peak() - base
                heap.start()
                g = torch.autograd.grad(g[0].sum(), [kw[k] for k in names], allow_unused=True)
                m["second_peak"] = heap.peak() - base
            else:
                g = torch.autograd.grad(L, [kw[k] for k in names], allow_unused=True)
                m["backward_peak"] = heap.peak() - base
            m["files_backward"] = size_below(d)
            del g
        del L, o
    except Stop:
        m = {"stopped": 1}
        o = L = g = None  # noqa: F841
    m["left"] = heap.live() - base
    m["files_left"] = size_below(d)
    return m


def run(c, mon):
    heap = Heap()
    torch.set_num_threads(c["threads"])
    nd = c["ndim"]
    prop, kw = cases.materialise(dict(c, nt=c["nts"][1]))
    if cases.last_row_outside(c, kw):
        raise Skip
    kw["time_pad_frac"] = 0.0
    kws = [kw]
    if c["nts"][0] < c["nts"][1]:
        short = {k: (v[..., : c["nts"][0]].contiguous() if k.startswith("source_amplitudes") else v) for k, v in kw.items()}
        if "nt" in short:
            short["nt"] = c["nts"][0]
        kws = [short, kw]
    kw = kws[0]
    models = ref.model_names(prop)
    fi = cases.float_inputs(kw)
    need = c["need"]
    if need in ("subset", "no_grad"):
        names = rel.subset(prop, list(fi), c["seed"])
    elif need == "nomodel":
        names = [k for k in fi if k not in models]
    else:
        names = []
    item = 8 if c["dtype"] == "double" else 4
    second = c["second"] and "v" in names and need == "subset"
    q = 0 if need == "no_grad" else quantities(prop, nd, names)
    # an upper bound on the size of a padded wavefield
    full = [s + c["pml"][2 * d] + c["pml"][2 * d + 1] + c["acc"] for d, s in enumerate(c["shape"])]
    pts = math.prod(full)
    ratio = c["step_ratio"] + 1
    n_loc = sum(v.shape[1] for k, v in kw.items() if "locations" in k and torch.is_tensor(v))
    noise = 64 * n_loc * c["n_shots"] * item * ratio * c["mgsi"] + 256
    n = [-(-nt // c["mgsi"]) for nt in c["nts"]]
    root = tempfile.mkdtemp(dir=os.environ["DWV_SCRATCH"])
    try:
        for mode, comp in c["configs"]:
            opts = dict(storage_mode=mode, storage_compression=comp, storage_path=root)
            snap = c["n_shots"] * pts * item
            if comp:
                # one byte per sample, and two numbers per block of 8 cells a side
                blocks = math.prod(-(-s // 8) for s in full)
                snap = c["n_shots"] * (pts + (2 * blocks + 2) * item)
            mem = q * snap if mode in ("device", "cpu") else 0
            disk = q * snap if mode == "disk" else 0
            tag = f"{prop}:{nd}D:{mode}{':compressed' if comp else ''}"
            measure(c, prop, kws[0], names, opts, heap, second)  # caches, compiled functions
            a, b = (measure(c, prop, k, names, opts, heap, second) for k in kws)
            mon.count("measured")
            mon.count(f"mode:{mode}")
            mon.count("no_model_gradient", q == 0)
            mon.count("interval>1", c["mgsi"] > 1)
            mon.count("second", second)
            for k in b:
                if k.startswith("files"):
                    # the longest run decides: sizes of files are exact
                    lim = n[1] * disk * (1.0 if k != "files_left" else 0) + (2 * PAGE if disk else 0)
                    if k == "files_left":
                        lim = 0
                    mon.check(b[k] <= lim, f"{k}:{tag}", lambda: f"{b[k]} bytes below storage_path, expected at most {lim} ({n[1]} steps, gradients of {names})")
                    if disk and k == "files":
                        mon.maximum("files/bound", b[k] / lim)
                    continue
                if k == "left":
                    continue
                lim = mem + noise
                if k == "second_peak" and mode in ("device", "cpu"):
                    # the propagation that is repeated for it keeps two more
                    lim = 3 * snap + noise
                slope = (b[k] - a[k] - 8 * PAGE) / (n[1] - n[0])
                what = "snapshots" if lim > noise else "none"
                mon.maximum(f"{what}:{k}/bound", slope / lim)
                mon.check(slope <= 1.02 * lim, f"{k}:{tag}", lambda: f"grows by {slope:.0f} bytes per stored step, expected at most {lim} "
                          f"(snapshot {snap} x {q}; {a[k]} and {b[k]} bytes at {n} steps; gradients of {names}, callback every {c['callback']})")
            for m in (a, b):
                mon.count("released")
                mon.maximum("left_after_drop", m["left"])
                mon.check(m["left"] < max(16 * PAGE, 0.3 * pts * item), f"left:{tag}", lambda: f"{m['left']} bytes are still allocated after everything was dropped")
            if c["error"]:
                g = random.Random(c["seed"])
                m = measure(c, prop, kws[1], names, opts, heap, False, error=g.randint(0, 3))
                m = measure(c, prop, kws[1], names, opts, heap, False, error=g.randint(0, 3))
                mon.count("errors_released")
                mon.maximum("left_after_error", m["left"])
                mon.check(m["left"] < max(16 * PAGE, 0.3 * pts * item), f"left-error:{tag}", lambda: f"{m['left']} bytes are still allocated after a failed call")
                mon.check(m["files_left"] == 0, f"files-error:{tag}", "files remain after a failed call")
            if q and mode != "none":
                mon.nontrivial(f"{tag}:{c['mgsi'] > 1}:{c['callback'] > 0}:{len(names) == len(fi)}:{c['n_shots'] > 1}")
    finally:
        torch.set_num_threads(1)
        shutil.rmtree(root, ignore_errors=True)
    mon.counters["heap_blocks_seen"] = heap.lib.dwv_blocks()


def driver(ctx):
    so = os.path.join(ctx.scratch, "memtrack.so")
    src = os.path.join(os.path.dirname(os.path.abspath(build.__file__)), "memtrack.c")
    subprocess.run(["/usr/bin/gcc", "-O2", "-w", "-shared", "-fPIC", src, "-o", so], check=True)
    t = ctx.tier
    ctx.spawn("plain", N[t], cap=CAP[t], threads=1, LD_PRELOAD=so)
