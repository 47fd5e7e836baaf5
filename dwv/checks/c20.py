"""Life cycle of the files of disk storage."""

import gc
import json
import os
import subprocess
import sys
import threading
import time

import torch

from .. import cases, ref, rel
from ..harness import Skip

ID = "C20"
RULE = (
    "random histories (create, backward, repeated backward, destroy in any order, exceptions in forward and backward callbacks, "
    "failed calls, change of directory, forked copies, several Python threads, several processes in one directory, processes that "
    "end with live graphs) of several graphs with disk storage; after every event the monitor lists the requested directories, the "
    "working directory and the temporary directory, fingerprints the files of the other graphs and lists open descriptors; "
    "gradients are compared with device storage; non-trivial: files of two live graphs existed at the same time"
)
N = {"quick": 360, "thorough": 16000}
CAP = {"quick": 300, "thorough": 2400}
NEED = {"files_seen": 600, "gradients": 600, "events": 1200, "kind:threads": 12, "kind:fork": 12, "kind:exit": 4, "kind:shared": 12}


def problem(rng, i):
    o = dict(prop=cases.PROPS[i % 4], wide=rng.random() < 0.05, mgsi=rng.choice([1, 1, 2]), ndim=rng.choice([1, 1, 2, 2, 3]))
    c = cases.gen_case(rng, **o)
    c["nt"] = min(c["nt"], 16)
    c["compress"] = rng.random() < 0.3
    c["freq"] = rng.choice([0, 0, 1, 3, 5])
    return c


def gen(rng, i, tier):
    j = i + i // 8
    kind = ["mix", "mix", "mix", "threads", "fork", "shared", "mix", "chdir"][j % 8]
    if (i // 8) % 25 == 1:
        kind = "exit"
    k = rng.randint(2, 4)
    return dict(kind=kind, calls=[problem(rng, i + n) for n in range(k)], seed=rng.randrange(1 << 30), steps=rng.randint(5, 12),
                path=rng.choice(["abs", "rel", "new", "space", "slash", "default"]), how=rng.choice(["end", "exit", "raise", "thread", "cycle", "callback"]))


def tree(d):
    """All entries below d, with a fingerprint of each file."""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d) + "/"] = None
        for x in files:
            p = os.path.join(root, x)
            try:
                st = os.stat(p)
                with open(p, "rb") as f:
                    h = hash(f.read())
            except OSError:
                continue
            out[os.path.relpath(p, d)] = (st.st_size, st.st_mtime_ns, h)
    return out


def fds_below(d):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if t.startswith(d + "/") and "deepwave" in t:
            out.append(t)
    return out


class Boom(Exception):
    pass


class Graph:
    """One call with disk storage, and what its gradients should be."""

    def __init__(self, c, path):
        self.c, self.path = c, path
        prop, kw = cases.materialise(c)
        if cases.last_row_outside(c, kw):
            raise Skip
        self.prop, self.kw0 = prop, kw
        self.names = rel.subset(prop, cases.float_inputs(kw), c["seed"])
        self.o = None

    def expect(self):
        kw = self.kw0
        o = rel.outs(self.prop, kw)
        self.ws = rel.weights(o, self.c["seed"])
        self.want_o, self.want = rel.run_grads(self.prop, kw, self.names, self.ws, storage_mode="device", storage_compression=self.c["compress"])
        return self

    def create(self, fail_at=None, bfail=False):
        self.kw = rel.leaf(self.kw0, self.names)
        ex = dict(storage_mode="disk", storage_compression=self.c["compress"])
        if self.path is not None:
            ex["storage_path"] = self.path
        if self.c["freq"] or fail_at is not None or bfail:
            ex["callback_frequency"] = max(1, self.c["freq"])
            n = [0]

            def cb(state):
                n[0] += 1
                if fail_at is not None and n[0] > fail_at:
                    raise Boom

            self.bf = [bfail]

            def bcb(state):
                if self.bf[0]:
                    raise Boom

            ex["forward_callback"] = cb
            ex["backward_callback"] = bcb
        self.o = rel.outs(self.prop, self.kw, **ex)

    def backward(self, retain=True):
        L = rel.dot(self.ws, self.o)
        if not torch.is_tensor(L) or not L.requires_grad:
            return None
        gs = torch.autograd.grad(L, [self.kw[k] for k in self.names], allow_unused=True, retain_graph=retain)
        return {k: (torch.zeros_like(self.kw[k]) if g is None else g) for k, g in zip(self.names, gs)}

    def verify(self, g, mon, tag):
        """Close to the gradients with device storage."""
        if g is None:
            return True
        fg = rel.group_floor(self.kw0, self.want, self.c["dtype"])
        tol = rel.rtol(self.c, 1e-11, 1e-3)
        if mon is None:
            return all(cases.err(g[k], self.want[k], fg(k)) <= tol for k in g)
        rel.compare(mon, g, self.want, tol, f"grad:{tag}:{self.prop}", fg)
        mon.count("gradients")
        return True

    def drop(self):
        self.o = self.kw = None


class World:
    """Directories under observation."""

    def __init__(self, c, mon):
        self.mon = mon
        base = os.environ["DWV_SCRATCH"]
        self.root = os.path.join(base, f"c20-{os.getpid()}-{c['seed']}")
        self.cwd, self.tmp, self.req = (os.path.join(self.root, x) for x in ("cwd", "tmp", "req"))
        for d in (self.cwd, self.tmp, self.req):
            os.makedirs(d)
        self.keep = set(os.listdir(base))
        self.base = base
        p = c["path"]
        self.path = {"abs": self.req, "rel": os.path.relpath(self.req, self.cwd), "new": os.path.join(self.req, "a", "b"),
                     "space": os.path.join(self.req, "with space é"), "slash": self.req + "//", "default": None}[p]
        if p == "space":
            os.makedirs(self.path)
        self.where = self.cwd if p == "default" else (self.path if p in ("new", "space") else self.req)
        self.made = {"new": {"a/", "a/b/"}, "space": {"with space é/"}}.get(p, set())

    def __enter__(self):
        self.old, self.oldtmp = os.getcwd(), os.environ.get("TMPDIR")
        os.chdir(self.cwd)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        import shutil

        shutil.rmtree(self.root, ignore_errors=True)

    def list(self):
        """Entries, relative to root, that hold stored data or directories of it."""
        t = tree(self.root)
        base = {"cwd/", "tmp/", "req/"} | {"req/" + x for x in self.made}
        return {k: v for k, v in t.items() if k not in base}

    def inside(self, k):
        return os.path.join(self.root, k).startswith(self.where + "/")


def mix(c, mon, w, rng):
    """Random history of several graphs in one thread."""
    graphs = [Graph(p, w.path).expect() for p in c["calls"]]
    live, owned = [], {}
    before = w.list()
    mon.check(not before, "dirty-start", str(before))
    for step in range(c["steps"] + len(graphs)):
        if step >= c["steps"] and not live:
            break
        op = rng.choice(["create", "backward", "backward", "drop", "boom", "bboom", "bad"]) if step < c["steps"] else "drop"
        if op in ("drop", "backward", "bboom") and not live:
            op = "create"
        idle = [g for g in graphs if g not in live]
        if op in ("create", "boom", "bad") and not idle:
            op = "backward"
        mon.count("events")
        mon.count(f"op:{op}")
        snap = w.list()
        g = None
        if op == "create":
            g = rng.choice(idle)
            g.create()
            live.append(g)
            rel.compare(mon, {k: v.detach() for k, v in g.o.items()}, g.want_o, rel.rtol(g.c, 1e-12, 1e-5), f"out:{g.prop}", rel.out_floor(g.prop, g.want_o, g.c["dtype"]))
            new = set(w.list()) - set(snap)
            owned[id(g)] = new
            mon.count("files_seen", sum(not k.endswith("/") for k in new))
            if c["kind"] != "chdir":
                mon.check(all(w.inside(k) for k in new), "outside-requested-directory", f"path {w.path}: {sorted(new)}")
        elif op == "backward":
            g = rng.choice(live)
            g.verify(g.backward(), mon, op)
        elif op == "boom":
            g = rng.choice(idle)
            n = rng.randint(0, 2)
            try:
                g.create(fail_at=n)
                live.append(g)
                owned[id(g)] = set(w.list()) - set(snap)
            except Boom:
                g.drop()
                g = None
        elif op == "bboom":
            g = rng.choice(live)
            g2 = Graph(g.c, w.path)
            g2.ws, g2.want, g2.want_o = g.ws, g.want, g.want_o
            try:
                g2.create(bfail=True)
                g2.backward()
            except Boom:
                mon.count("backward_exceptions")
                # the graph is still alive: it must keep working
                g2.bf[0] = False
                g2.verify(g2.backward(), mon, "after-exception")
            g2.drop()
            del g2
            g = None
        elif op == "bad":
            g = rng.choice(idle)
            bad = dict(g.kw0)
            bad["pml_width"] = [-1] * len(g.c["pml"])
            try:
                rel.outs(g.prop, rel.leaf(bad, g.names), storage_mode="disk", **({} if w.path is None else dict(storage_path=w.path)))
                mon.violate("bad-accepted", "negative pml_width")
            except Exception:
                pass
            g = None
        else:
            g = rng.choice(live)
            live.remove(g)
            g.drop()
        if c["kind"] == "chdir" and rng.random() < 0.6:
            os.chdir(rng.choice([w.cwd, w.tmp, w.root]))
        gc.collect()
        now = w.list()
        # entries of graphs other than the one the event belongs to
        for h in live:
            if h is g:
                continue
            for k in owned.get(id(h), ()):
                mon.count("fingerprints")
                mon.check(now.get(k, "gone") == snap.get(k, "gone") or k.endswith("/"), f"touched-by-other:{op}", f"{k}: {snap.get(k)} -> {now.get(k, 'gone')}")
                if k.endswith("/"):
                    mon.check(k in now, f"removed-by-other:{op}", k)
        mine = set().union(*[owned[id(h)] for h in live]) if live else set()
        left = set(now) - mine
        mon.check(not left, f"left-behind:{op}", f"{sorted(left)[:6]}")
        f = fds_below(w.root)
        mon.check(not f, f"descriptors:{op}", str(f[:4]))
        if len({id(h) for h in live if owned.get(id(h))}) >= 2:
            mon.nontrivial(step, op)
    gc.collect()
    mon.check(not w.list(), "left-at-end", str(sorted(w.list())[:6]))


def life(g, rng, errors, repeat):
    for _ in range(repeat):
        try:
            g.create()
            for _ in range(rng.randint(0, 3)):
                if not g.verify(g.backward(), None, "thread"):
                    errors.append("wrong gradients")
            g.drop()
        except BaseException as e:  # noqa: BLE001
            errors.append(repr(e)[:300])
            return


def threads(c, mon, w, rng):
    import random

    graphs = [Graph(p, w.path).expect() for p in c["calls"]]
    # two threads with the same problem as well
    twin = Graph(graphs[0].c, w.path)
    twin.ws, twin.want, twin.want_o = graphs[0].ws, graphs[0].want, graphs[0].want_o
    graphs.append(twin)
    errors = []
    ts = [threading.Thread(target=life, args=(g, random.Random(c["seed"] + n), errors, 4)) for n, g in enumerate(graphs)]
    for t in ts:
        t.start()
    seen = 0
    while any(t.is_alive() for t in ts):
        n = w.list()
        seen = max(seen, len(n))
        mon.count("files_seen", len(n))
        time.sleep(0.002)
    for t in ts:
        t.join()
    gc.collect()
    mon.count("events", 4 * len(ts))
    mon.count("gradients", 4 * len(ts))
    mon.check(not errors, "threads", str(errors[:3]))
    mon.check(not w.list(), "left-after-threads", str(sorted(w.list())[:6]))
    mon.check(not fds_below(w.root), "descriptors:threads", "")
    if seen:
        mon.nontrivial("threads")


def fork(c, mon, w, rng):
    """Forked copies use their own files and leave the parent's alone."""
    import random

    graphs = [Graph(p, w.path).expect() for p in c["calls"]]
    a, b = graphs[0], graphs[1]
    random.seed(c["seed"])
    torch.manual_seed(c["seed"])
    a.create()
    snap = w.list()
    r, wr = os.pipe()
    go_r, go_w = os.pipe()
    pids = []
    for n in range(3):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                errors = []
                # started together, with the same random state
                os.read(go_r, 1)
                if n == 0:
                    # a copy is used, then destroyed
                    if not a.verify(a.backward(), None, "x"):
                        errors.append("wrong gradients of an inherited graph")
                    a.drop()
                    gc.collect()
                life(b, random.Random(c["seed"]), errors, 2)
                if errors:
                    os.write(wr, json.dumps(errors[:2]).encode()[:400] + b"\n")
                    code = 1
                b.drop()
                gc.collect()
            except BaseException as e:  # noqa: BLE001
                os.write(wr, repr(e).encode()[:400] + b"\n")
                code = 1
            os._exit(code)
        pids.append(pid)
    os.close(go_r)
    os.write(go_w, b"xxx")
    os.close(go_w)
    os.close(wr)
    bad = []
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st:
            bad.append(st)
    msg = b""
    while x := os.read(r, 65536):
        msg += x
    os.close(r)
    mon.count("events", 6)
    mon.count("files_seen", len(snap))
    mon.check(not bad, "forked", f"status {bad}: {msg.decode(errors='replace')[:600]}")
    now = w.list()
    mon.check(now == snap, "parent-files-changed-by-fork", f"{sorted(set(snap) ^ set(now))[:6]}")
    a.verify(a.backward(), mon, "after-fork")
    a.drop()
    gc.collect()
    mon.check(not w.list(), "left-after-fork", str(sorted(w.list())[:6]))
    if snap:
        mon.nontrivial("fork")


def shared(c, mon, w, rng):
    """All worker processes use one directory."""
    d = os.path.join(os.environ["DWV_SCRATCH"], "c20-shared")
    os.makedirs(d, exist_ok=True)
    graphs = [Graph(p, d).expect() for p in c["calls"]]
    for g in graphs:
        g.create()
    mon.count("files_seen", len(tree(d)))
    for _ in range(3):
        g = rng.choice(graphs)
        g.verify(g.backward(), mon, "shared")
        mon.count("events")
    for g in rng.sample(graphs, len(graphs)):
        g.drop()
    gc.collect()
    mine = [k for k in tree(d) if f"_{os.getpid()}_" in k]
    mon.check(not mine, "left-in-shared", str(mine[:4]))
    mon.nontrivial("shared")


SCRIPT = r"""
import json, os, sys, threading
from dwv.checks import c20
c = json.loads(sys.argv[1])
g = c20.Graph(c["calls"][0], sys.argv[2])
how = c["how"]
if how == "callback":
    g.create(fail_at=1)
g.create()
print("files", len(c20.tree(sys.argv[2])))
if how == "exit":
    def f():
        local = g.o
        sys.exit(3)
    f()
if how == "raise":
    raise ValueError(how)
if how == "thread":
    t = threading.Thread(target=lambda: (g.create(), None))
    t.start(); t.join()
if how == "cycle":
    class A: pass
    a = A(); a.a = a; a.g = g; g.a = a
    x = g.kw[g.names[0]]; x.o = g.o
"""


def at_exit(c, mon, w, rng):
    d = w.path if w.path and os.path.isabs(w.path) else w.req
    os.makedirs(d, exist_ok=True)
    r = subprocess.run([sys.executable, "-c", SCRIPT, json.dumps(c), d], capture_output=True, text=True, timeout=300, cwd=w.cwd)
    mon.count("events")
    if "files" in r.stdout:
        mon.count("files_seen", int(r.stdout.split()[1]))
        if int(r.stdout.split()[1]):
            mon.nontrivial("exit")
    mon.check(r.returncode >= 0, "crash-at-exit", f"{r.returncode} {r.stderr[-400:]}")
    left = [k for k in w.list() if "tmp_" in k or not k.endswith("/")]
    mon.check(not left, f"left-at-exit:{c['how']}", f"{left[:4]} {r.stderr[-300:]}")


def run(c, mon):
    import random

    rng = random.Random(c["seed"])
    mon.count(f"kind:{c['kind']}")
    w = World(c, mon)
    if c["kind"] == "chdir" and c["path"] in ("default", "rel"):
        w.where = w.root
    try:
        with w:
            {"mix": mix, "chdir": mix, "threads": threads, "fork": fork, "shared": shared, "exit": at_exit}[c["kind"]](c, mon, w, rng)
    finally:
        gc.collect()


def driver(ctx):
    from . import c20

    os.makedirs(os.path.join(ctx.scratch, "c20-shared"))
    t = ctx.tier
    ctx.spawn("plain", N[t], cap=CAP[t], threads=1)
    left = os.listdir(os.path.join(ctx.scratch, "c20-shared"))
    if left and not ctx.agg.violations and not ctx.agg.inconclusive:
        ctx.agg.violations.append(dict(key="left-in-shared-at-end", msg=str(left[:5]), case={}, flavour="plain"))
