"""Faults of disk storage raise errors instead of giving wrong gradients."""

import gc
import os
import random
import resource
import shutil
from contextlib import contextmanager

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C21"
LEVEL = "fault_enumeration"
RULE = (
    "random problems with disk storage (all propagators, compression, callbacks, several threads, second derivatives); faults are "
    "injected before and during the forward call, between the calls and during the backward call: no space (RLIMIT_FSIZE at "
    "offsets around every step boundary, /dev/full), no descriptors, missing or replaced directories and files, truncation at "
    "offsets around every step boundary of every file, refused permission (as an unprivileged user); the monitor demands an "
    "exception, or gradients identical to those without the fault, and exact gradients once the fault is removed; "
    "non-trivial: an injected fault made a call raise"
)
N = {"quick": 160, "thorough": 16000}
CAP = {"quick": 300, "thorough": 2400}
NEED = {"faults": 2500, "raised": 1800, "recovered": 400, "f:truncate": 800, "f:fsize": 400, "f:nofile": 100, "f:replace": 100, "f:mid": 150}


def gen(rng, i, tier):
    o = dict(prop=cases.PROPS[i % 4], wide=False, mgsi=rng.choice([1, 1, 2]), ndim=rng.choice([1, 1, 2, 2, 3]), dtype="double",
             zero_cells=0, void=False, fluid=False, hetero=rng.choice([0.2, 0.4]), wf="all", extract="none")
    o["nt"] = rng.randint(3, 9)
    o["n_shots"] = rng.choice([1, 2, 3])
    c = cases.gen_case(rng, **o)
    c["compress"] = rng.random() < 0.35
    c["freq"] = rng.choice([0, 1, 2, 3])
    c["threads"] = rng.choice([1, 1, 3])
    c["big"] = False
    if rng.random() < 0.15:
        # more than one buffer of the C library per step
        c["shape"] = {1: [900], 2: [30, 28], 3: [9, 9, 9]}[c["ndim"]]
        c["big"] = True
    c["second"] = c["prop"] == "scalar" and rng.random() < 0.4
    return c


# ------------------------------------------------------------ the system
class Run:
    """Forward and backward with disk storage; hooks run at every callback."""

    def __init__(self, c):
        self.c = c
        prop, kw = cases.materialise(c)
        if cases.last_row_outside(c, kw):
            raise Skip
        self.prop, self.kw0 = prop, kw
        self.names = rel.subset(prop, cases.float_inputs(kw), c["seed"])
        if c["second"] and "v" not in self.names:
            self.names.append("v")
        self.fhook = self.bhook = None
        self.o = None

    def forward(self, path):
        self.kw = rel.leaf(self.kw0, self.names)
        ex = dict(storage_mode="disk", storage_compression=self.c["compress"], storage_path=path)
        self.nf = self.nb = 0
        if self.c["freq"]:
            def fcb(s):
                self.nf += 1
                if self.fhook:
                    self.fhook(self.nf)

            def bcb(s):
                self.nb += 1
                if self.bhook:
                    self.bhook(self.nb)

            ex.update(callback_frequency=self.c["freq"], forward_callback=fcb, backward_callback=bcb)
        self.o = rel.outs(self.prop, self.kw, **ex)

    def backward(self):
        self.nb = 0
        if self.c["second"]:
            L = sum((self.ws[k] * v + 0.5 * self.ws[k].abs() * self.ws[k].abs() * v * v).sum() for k, v in self.o.items())
            G = torch.autograd.grad(L, self.kw["v"], create_graph=True)[0]
            L = (G * self.kw["v"].detach()).sum()
        else:
            L = rel.dot(self.ws, self.o)
        gs = torch.autograd.grad(L, [self.kw[k] for k in self.names], allow_unused=True, retain_graph=True)
        return {k: (torch.zeros_like(self.kw[k]) if g is None else g) for k, g in zip(self.names, gs)}

    def drop(self):
        self.o = self.kw = None
        self.fhook = self.bhook = None


def files(d):
    out = []
    for root, _, fs in os.walk(d):
        out += [os.path.join(root, f) for f in fs]
    return sorted(out)


# ------------------------------------------------------------ faults
@contextmanager
def fsize(n):
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


@contextmanager
def nofile(extra):
    fd = os.dup(0)
    os.close(fd)
    old = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(fd + extra, old[1]), old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, old)


@contextmanager
def nobody():
    os.setegid(65534)
    os.seteuid(65534)
    try:
        yield
    finally:
        os.seteuid(0)
        os.setegid(0)


def can_switch():
    try:
        with nobody():
            return True
    except OSError:
        return False


@contextmanager
def put_back(path):
    """Whatever happens to this file is undone."""
    with open(path, "rb") as f:
        data = f.read()
    try:
        yield len(data)
    finally:
        if os.path.isdir(path) and not os.path.islink(path):
            os.rmdir(path)
        elif os.path.lexists(path):
            os.unlink(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)


def replace(path, how):
    if os.path.lexists(path):
        os.unlink(path)
    if how == "dir":
        os.mkdir(path)
    elif how == "full":
        os.symlink("/dev/full", path)
    elif how == "dangling":
        os.symlink("/nonexistent-dir/x", path)
    elif how == "empty":
        open(path, "wb").close()
    elif how == "null":
        os.symlink("/dev/null", path)


class Judge:
    def __init__(self, c, mon, want, floor):
        self.c, self.mon, self.want, self.floor = c, mon, want, floor

    def exact(self, g):
        if self.c["threads"] == 1:
            return next((k for k in g if not torch.equal(g[k], self.want[k])), None)
        return next((k for k in g if cases.err(g[k], self.want[k], self.floor(k)) > 1e-10), None)

    def attempt(self, kind, f, what):
        """f() -> gradients, under a fault."""
        mon = self.mon
        mon.count("faults")
        mon.count(f"f:{kind}")
        try:
            g = f()
        except Exception as e:
            mon.count("raised")
            mon.count(f"raised:{type(e).__name__}")
            mon.nontrivial(kind, what)
            e = None
            return True
        bad = self.exact(g)
        mon.count("harmless" if bad is None else "wrong")
        mon.check(bad is None, f"wrong-gradient:{kind}:{self.c['prop']}", lambda: f"{what}: no exception, but grad {bad} differs by {cases.err(g[bad], self.want[bad], 1e-300):.3g}")
        return False

    def healthy(self, f, what):
        try:
            g = f()
        except Exception as e:
            self.mon.violate(f"not-recovered:{self.c['prop']}", f"{what}: {e!r}"[:500])
            return
        bad = self.exact(g)
        self.mon.count("recovered")
        self.mon.check(bad is None, f"not-recovered:{self.c['prop']}", f"{what}: grad {bad}")


def run(c, mon):
    torch.set_num_threads(c["threads"])
    rng = random.Random(c["seed"])
    root = os.path.join(os.environ["DWV_SCRATCH"], f"c21-{os.getpid()}-{c['seed']}")
    os.makedirs(root)
    os.chmod(root, 0o777)
    try:
        body(c, mon, rng, root)
    finally:
        torch.set_num_threads(1)
        gc.collect()
        shutil.rmtree(root, ignore_errors=True)


def body(c, mon, rng, root):
    r = Run(c)
    clean = os.path.join(root, "clean")
    r.ws = None
    r.forward(clean)
    r.ws = rel.weights({k: v.detach() for k, v in r.o.items()}, c["seed"])
    want = r.backward()
    j = Judge(c, mon, want, rel.group_floor(r.kw0, want, c["dtype"]))
    j.healthy(r.backward, "no fault")
    fs = files(clean)
    mon.count("files", len(fs))
    if not fs:
        return
    size = os.path.getsize(fs[0])
    n_callbacks = (r.nf, r.nb)
    between(c, mon, rng, r, j, fs)
    if c["freq"]:
        during_backward(c, mon, rng, r, j, fs, n_callbacks[1])
    r.drop()
    gc.collect()
    forward_faults(c, mon, rng, r, j, root, size, n_callbacks)
    # and the process is as good as new
    p = os.path.join(root, "after")
    j.healthy(lambda: (r.forward(p), r.backward())[1], "after all faults")
    r.drop()
    gc.collect()
    mon.check(not files(p), "left-behind", str(files(p)[:3]))


def offsets(rng, size, n):
    """Byte offsets around step boundaries (the frame size is not assumed: divisors of the size)."""
    pts = {0, 1, size - 1, size // 2}
    for d in range(2, 40):
        if size % d == 0:
            for m in (1, d - 1):
                pts |= {size // d * m, size // d * m - 1, size // d * m + 1}
    pts |= {rng.randrange(size) for _ in range(3)}
    pts = sorted(p for p in pts if 0 <= p < size)
    return rng.sample(pts, min(n, len(pts)))


def between(c, mon, rng, r, j, fs):
    for f in rng.sample(fs, min(len(fs), 3)):
        with put_back(f) as size:
            for n in offsets(rng, size, 5):
                # descending truncation of a full file
                with put_back(f):
                    os.truncate(f, n)
                    j.attempt("truncate", r.backward, f"{os.path.basename(f)} to {n} of {size}")
        j.healthy(r.backward, "truncation undone")
    f = rng.choice(fs)
    for how in rng.sample(["gone", "dir", "dangling", "empty", "null"], 3):
        with put_back(f):
            replace(f, how)
            j.attempt("replace", r.backward, how)
    d = os.path.dirname(f)
    os.rename(d, d + ".moved")
    try:
        j.attempt("directory", r.backward, "moved")
    finally:
        os.rename(d + ".moved", d)
    for n in rng.sample([0, 1, 2, 4], 2):
        def limited():
            with nofile(n):
                return r.backward()

        j.attempt("nofile", limited, f"backward {n}")
    if can_switch():
        # leave other files readable
        os.chmod(f, 0)

        def refused():
            with nobody():
                return r.backward()

        j.attempt("permission", refused, "backward")
        os.chmod(f, 0o644)
    j.healthy(r.backward, "faults between undone")


def during_backward(c, mon, rng, r, j, fs, n_cb):
    for _ in range(3):
        f = rng.choice(fs)
        at = rng.randint(1, max(1, n_cb))
        how = rng.choice(["gone", "dir", "empty", "truncate", "nofile"])
        with put_back(f) as size:
            def hook(n, f=f, at=at, how=how, size=size):
                if n == at:
                    if how == "truncate":
                        os.truncate(f, rng.randrange(size))
                    elif how != "nofile":
                        replace(f, how)

            r.bhook = hook
            j.attempt("mid", r.backward, f"backward {how} at {at}")
            r.bhook = None
    j.healthy(r.backward, "faults during backward undone")


def forward_faults(c, mon, rng, r, j, root, size, n_cb):
    def whole(path):
        r.forward(path)
        return r.backward()

    def case(kind, what, f, left=True):
        r.fhook = r.bhook = None
        j.attempt(kind, f, what)
        r.drop()
        gc.collect()

    # the path does not name a directory
    plain = os.path.join(root, "plain")
    open(plain, "w").close()
    link = os.path.join(root, "link")
    os.symlink("/nonexistent-dir/x/y", link)
    for p in rng.sample([plain, os.path.join(plain, "sub"), os.path.join(root, "x" * 300), "/proc/no-such-dir", root + "/\0"], 2):
        case("path", p[-20:], lambda: whole(p))
    # no space
    for n in offsets(rng, size, 5) + [size]:
        p = os.path.join(root, "fsize")

        def limited():
            with fsize(n):
                r.forward(p)
            return r.backward()

        case("fsize", f"{n} of {size}", limited)
        mon.check(not files(p), "left-behind:fsize", str(files(p)[:3]))
    for n in rng.sample([0, 1, 2, 3], 2):
        def limited():
            with nofile(n):
                r.forward(os.path.join(root, "nofile"))
            return r.backward()

        case("nofile", f"forward {n}", limited)
    if can_switch():
        closed = os.path.join(root, "closed")
        os.mkdir(closed, 0o555)

        def refused():
            with nobody():
                return whole(closed)

        case("permission", "forward", refused)
    if c["second"]:
        for n in offsets(rng, size, 3):
            def limited():
                r.forward(os.path.join(root, "second"))
                with fsize(n):
                    return r.backward()

            case("fsize", f"second {n} of {size}", limited)
    if not c["freq"]:
        return
    for k in range(4):
        p = os.path.join(root, f"mid{k}")
        at = rng.randint(1, max(1, n_cb[0]))
        how = rng.choice(["full", "dir", "dangling", "null", "empty", "gone", "rmdir", "truncate", "fsize"])
        stack = []

        def hook(n, p=p, at=at, how=how):
            if n != at:
                return
            if how == "fsize":
                cm = fsize(rng.randrange(size))
                cm.__enter__()
                stack.append(cm)
                return
            fs = files(p)
            if not fs:
                return
            f = rng.choice(fs)
            if how == "rmdir":
                shutil.rmtree(os.path.dirname(f))
            elif how == "truncate":
                os.truncate(f, rng.randrange(os.path.getsize(f) + 1))
            else:
                replace(f, how)

        def faulty():
            r.fhook = hook
            try:
                r.forward(p)
            finally:
                for cm in stack:
                    cm.__exit__(None, None, None)
                r.fhook = None
            return r.backward()

        j.mon.count("f:mid")
        case("mid-forward", f"{how} at {at}", faulty)


def driver(ctx):
    os.chmod(ctx.scratch, 0o711)
    t = ctx.tier
    ctx.spawn("plain", N[t], cap=CAP[t], threads=1)
    if t == "thorough":
        ctx.seed += 1000003
        ctx.spawn("asan", N["quick"], cap=CAP[t], threads=1)
        ctx.seed -= 1000003
