"""Runs one property's check: build, spawn monitored workers, judge, record.

  run.py C03                        (tier and seed from VERIF_TIER, VERIF_SEED)
  run.py --replay evidence/replay/C03-0.json
"""

import glob
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.json")
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL, signal.SIGTRAP}
SAN_EXIT = 77


class Skip(Exception):
    """The drawn case does not meet the property's precondition."""


class Mon:
    """Collects what one worker observed."""

    def __init__(self):
        self.evaluations = 0
        self.sigs = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.maxima = {}
        self.case = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def maximum(self, name, x):
        self.maxima[name] = max(self.maxima.get(name, 0.0), float(x))

    def nontrivial(self, *sig):
        h = hashlib.blake2b(repr((sig, self.case)).encode(), digest_size=8).hexdigest()
        self.sigs.add(h)

    def violate(self, key, msg):
        self.violations.append(dict(key=key, msg=str(msg)[:1500], case=self.case))

    def check(self, ok, key, msg=""):
        self.count("assertions")
        if not ok:
            self.violate(key, msg() if callable(msg) else msg)
        return ok

    def close(self, got, want, tol, key, floor=0.0, what=""):
        """max|got-want| <= tol * max|want| (monitored and recorded)."""
        from . import cases

        e = cases.err(got, want, floor)
        self.count("comparisons")
        if e <= tol:
            self.maximum("relative_error", e)
        else:
            self.violate(key, f"{what or key}: relative error {e:.3g} > {tol:.3g}, |ref|max="
                         f"{want.detach().abs().max().item() if want.numel() else 0:.3g}, shapes {tuple(got.shape)} {tuple(want.shape)}")
        return e <= tol

    def dump(self):
        return dict(
            evaluations=self.evaluations, sigs=sorted(self.sigs), counters=self.counters,
            samples=self.samples, violations=self.violations[:20], maxima=self.maxima,
        )


def load(pid):
    return importlib.import_module(f"dwv.checks.{pid.lower()}")


def case_rng(pid, seed, i):
    return random.Random(f"{pid}:{seed}:{i}")


# ------------------------------------------------------------ worker side
def watch_lines(root):
    """Record which lines of the library's Python run; free after the first time."""
    seen = {}
    m = getattr(sys, "monitoring", None)
    if m is None:
        return seen

    def line(code, n):
        if code.co_filename.startswith(root):
            seen.setdefault(os.path.basename(code.co_filename), set()).add(n)
        return m.DISABLE

    try:
        m.use_tool_id(m.COVERAGE_ID, "dwv")
        m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)
    except ValueError:
        pass
    return seen


def default_dtype(seed):
    """Default floating point type of the process for a case: it must not matter."""
    r = random.Random(seed * 31 + 7).random()
    return "float32" if r > 0.12 else ("float64" if r > 0.04 else ("float16" if r > 0.02 else "bfloat16"))


def run_case(mod, case, mon):
    import torch

    mon.case = case
    try:
        d = case.get("default_dtype", "float32") if isinstance(case, dict) else "float32"
        if d != "float32":
            mon.count("default_dtype:" + d)
            torch.set_default_dtype(getattr(torch, d))
        try:
            mod.run(case, mon)
        finally:
            torch.set_default_dtype(torch.float32)
        mon.evaluations += 1
        if len(mon.samples) < 2:
            mon.samples.append(case)
    except Skip:
        mon.count("skipped")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "deepwave" in f.filename), "harness")
        mon.violate(f"exception:{type(e).__name__}:{where}", "".join(traceback.format_exception(e))[-1400:])


def worker(argv):
    """--worker PID seed tier index n_workers total cap out [casefile]"""
    pid, seed, tier, idx, nw, total, cap, out = argv[:8]
    idx, nw, total, cap, seed = int(idx), int(nw), int(total), float(cap), int(seed)
    import torch

    torch.set_num_threads(max(1, int(os.environ.get("OMP_NUM_THREADS", "1"))))
    import deepwave

    want = os.environ.get("DWV_PKG")
    if want and not os.path.abspath(deepwave.__file__).startswith(want):
        raise SystemExit(f"wrong deepwave: {deepwave.__file__}")
    lines = watch_lines(os.path.dirname(os.path.abspath(deepwave.__file__)))
    mod = load(pid)
    if hasattr(mod, "setup"):
        mod.setup(tier)
    mon = Mon()
    t0 = time.time()
    if len(argv) > 8:
        with open(argv[8]) as f:
            run_case(mod, json.load(f), mon)
    else:
        # interleave so that an early stop is spread over the whole range
        for i in range(idx, total, nw):
            if time.time() - t0 > cap:
                mon.count("stopped_at_time_cap")
                break
            case = mod.gen(case_rng(pid, seed, i), i, tier)
            case["_i"] = i
            with open(out + ".cur", "w") as f:
                json.dump(case, f)
            run_case(mod, case, mon)
            if len(mon.violations) >= 10:
                break
    with open(out + ".tmp", "w") as f:
        json.dump(dict(mon.dump(), lines={k: sorted(v) for k, v in lines.items()}), f)
    os.replace(out + ".tmp", out)


# ------------------------------------------------------------ parent side
class Agg:
    def __init__(self):
        self.evaluations = 0
        self.sigs = set()
        self.counters = {}
        self.maxima = {}
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.lines = {}

    def add(self, d):
        self.evaluations += d["evaluations"]
        self.sigs |= set(d["sigs"])
        for k, v in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in d["maxima"].items():
            self.maxima[k] = max(self.maxima.get(k, 0.0), v)
        self.samples += d["samples"]
        self.violations += d["violations"]
        for k, v in d.get("lines", {}).items():
            self.lines.setdefault(k, set()).update(v)


class Ctx:
    """What a check's own driver may use."""

    def __init__(self, pid, mod, seed, tier, scratch):
        self.pid, self.mod, self.seed, self.tier, self.scratch = pid, mod, seed, tier, scratch
        self.agg = Agg()
        self.pkgs = {}
        self.t0 = time.time()
        self.deadline = self.t0 + (780 if tier == "quick" else 6 * 3600)

    def pkg(self, flavour):
        from . import build

        if flavour not in self.pkgs:
            self.pkgs[flavour] = build.build(flavour, self.scratch)
        return self.pkgs[flavour]

    def env(self, flavour, threads=1, **more):
        from . import build

        e = {k: v for k, v in os.environ.items() if not k.startswith(("LD_PRELOAD", "OMP_", "ASAN", "TSAN", "UBSAN"))}
        pkg = self.pkg(flavour)
        e.update(
            PYTHONPATH=f"{pkg}:{HERE}", DWV_PKG=pkg, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
            OMP_NUM_THREADS=str(threads), MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
            DWV_SCRATCH=self.scratch, TMPDIR=self.scratch, DWV_TIER=self.tier,
            CUDA_VISIBLE_DEVICES="", PYTHONWARNINGS="ignore",
        )
        if flavour == "asan":
            e["LD_PRELOAD"] = f"{build.gcc_file('libasan.so')} {build.gcc_file('libubsan.so')}"
            e["ASAN_OPTIONS"] = f"detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode={SAN_EXIT}:detect_stack_use_after_return=1:allocator_may_return_null=1:redzone=256:max_redzone=2048"
            e["UBSAN_OPTIONS"] = f"halt_on_error=1:print_stacktrace=1:exitcode={SAN_EXIT}"
        if flavour == "tsan":
            e["LD_PRELOAD"] = build.gcc_file("libtsan.so")
            log = os.path.join(self.scratch, "tsan")
            e["DWV_TSAN_LOG"] = log
            e["TSAN_OPTIONS"] = f"halt_on_error=0:exitcode=0:report_signal_unsafe=0:report_thread_leaks=0:report_destroy_locked=0:report_mutex_bugs=0:detect_deadlocks=0:history_size=4:log_path={log}"
            e["DWV_DELAY_US"] = "200"
        e.update(getattr(self.mod, "ENV", {}).get(flavour, {}))
        e.update({k: str(v) for k, v in more.items()})
        return e

    def spawn(self, flavour, total, n_workers=8, cap=90.0, threads=1, **env):
        """Run the check module's gen/run on `total` cases."""
        env = self.env(flavour, threads, **env)
        procs = []
        for i in range(n_workers):
            out = os.path.join(self.scratch, f"w-{flavour}-{i}-{len(os.listdir(self.scratch))}")
            log = open(out + ".log", "wb")
            p = subprocess.Popen(
                [sys.executable, os.path.join(HERE, "run.py"), "--worker", self.pid, str(self.seed), self.tier,
                 str(i), str(n_workers), str(total), str(cap), out],
                env=env, stdout=log, stderr=subprocess.STDOUT, cwd=self.scratch,
            )
            procs.append((p, out, log))
        for p, out, log in procs:
            try:
                rc = p.wait(timeout=max(1.0, self.deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
            log.close()
            self.collect(rc, out, flavour)

    def collect(self, rc, out, flavour):
        if os.path.exists(out):
            with open(out) as f:
                d = json.load(f)
            for v in d["violations"]:
                v["flavour"] = flavour
            self.agg.add(d)
            return
        text = open(out + ".log", errors="replace").read()[-6000:]
        case = None
        if os.path.exists(out + ".cur"):
            with open(out + ".cur") as f:
                case = json.load(f)
        if case is not None and (rc == SAN_EXIT or (rc is not None and rc < 0 and -rc in CRASH)):
            self.agg.violations.append(dict(key=crash_key(rc, text), msg=f"worker ended with {rc}\n{summ(text)}", case=case, flavour=flavour))
            self.agg.evaluations += 1
        else:
            self.agg.inconclusive.append(f"worker ended with {rc}: {text[-800:]}")


def summ(text):
    keep = [l for l in text.splitlines() if any(s in l for s in ("ERROR:", "SUMMARY", "runtime error", "    #", "WARNING: Thread"))]
    return "\n".join(keep[:25]) or text[-800:]


def crash_key(rc, text):
    for l in text.splitlines():
        if "runtime error:" in l:
            return "ubsan:" + l.split("runtime error:")[1].strip()[:60]
        if "ERROR: AddressSanitizer:" in l:
            kind = l.split("AddressSanitizer:")[1].split()[0]
            fn = next((x.split(" in ")[1].split()[0] for x in text.splitlines() if " in " in x and "deepwave" in x and "#" in x), "?")
            return f"asan:{kind}:{fn}"
    return f"crash:{rc}"


def known_for(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main(argv):
    if argv[:1] == ["--worker"]:
        worker(argv[1:])
        return 0
    replay = None
    if argv[:1] == ["--replay"]:
        with open(argv[1]) as f:
            replay = json.load(f)
        pid = replay["property"]
    else:
        pid = argv[0]
    mod = load(pid)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if not replay:
        for f in glob.glob(os.path.join(EVID, "replay", f"{pid}-*.json")):
            os.remove(f)
    scratch = tempfile.mkdtemp(prefix=f"dwv-{pid}-")
    t0 = time.time()
    ctx = Ctx(pid, mod, seed, tier, scratch)
    try:
        if replay:
            cf = os.path.join(scratch, "case.json")
            with open(cf, "w") as f:
                json.dump(replay["case"], f)
            fl = replay.get("flavour") or getattr(mod, "FLAVOUR", "plain")
            out = os.path.join(scratch, "out")
            shutil.copy(cf, out + ".cur")
            with open(out + ".log", "wb") as log:
                rc = subprocess.run(
                    [sys.executable, os.path.join(HERE, "run.py"), "--worker", pid, str(seed), tier, "0", "1", "1", "1e9", out, cf],
                    env=ctx.env(fl, getattr(mod, "THREADS", 1)), stdout=log, stderr=subprocess.STDOUT, cwd=scratch).returncode
            ctx.collect(rc, out, fl)
        elif hasattr(mod, "driver"):
            mod.driver(ctx)
        else:
            ctx.spawn(getattr(mod, "FLAVOUR", "plain"), mod.N[tier], cap=mod.CAP[tier], threads=getattr(mod, "THREADS", 1))
            if tier == "thorough" and getattr(mod, "FLAVOUR", "plain") == "plain" and not hasattr(mod, "NO_RELEASE"):
                # the shipped optimisation flags, on fresh cases
                ctx.seed += 1000003
                ctx.spawn("release", mod.N["quick"], cap=mod.CAP["thorough"], threads=getattr(mod, "THREADS", 1))
                ctx.seed = seed
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return judge(ctx, mod, pid, seed, tier, time.time() - t0, replay)


def judge(ctx, mod, pid, seed, tier, wall, replay):
    agg = ctx.agg
    known = {k["key"]: k for k in known_for(pid)}
    new, seen_known = {}, {}
    for v in agg.violations:
        if v["key"] in known:
            seen_known.setdefault(v["key"], v)
        else:
            new.setdefault(v["key"], v)
    if not replay:
        cov = dict(
            evaluations=agg.evaluations, distinct_nontrivial=len(agg.sigs), rule=mod.RULE,
            samples=agg.samples[:6], observed=agg.counters, maxima=agg.maxima,
            library_lines_run={k: len(v) for k, v in sorted(agg.lines.items())},
        )
        if os.environ.get("DWV_LINES"):
            with open(os.path.join(os.environ["DWV_LINES"], f"{pid}.json"), "w") as f:
                json.dump({k: sorted(v) for k, v in agg.lines.items()}, f)
        if agg.inconclusive:
            cov["inconclusive"] = [x[-300:] for x in agg.inconclusive[:4]]
        ev = dict(
            property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
            assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(new),
        )
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in known.values():
        if k["key"] in seen_known or k.get("always"):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if new:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (k, v) in enumerate(sorted(new.items())):
            path = os.path.join(rd, f"{pid}-{n}.json")
            if not replay:
                with open(path, "w") as f:
                    json.dump(dict(property=pid, seed=seed, tier=tier, key=k, msg=v["msg"], case=v["case"], flavour=v.get("flavour")), f, indent=1, default=str)
            if n < 8:
                print(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}")
                print(f"  {k}: {v['msg'][:700]}")
        return 1
    if agg.inconclusive:
        for x in agg.inconclusive[:3]:
            print("INCONCLUSIVE:", x)
        return 2
    if replay:
        print("held")
        return 0
    need = getattr(mod, "NEED", {})
    for k, n in need.items():
        got = agg.counters.get(k, 0)
        # (an ordinary run sees 2-4 times NEED; a slow machine may see less before the cap)
        if got < max(1, n // 4):
            print(f"INCONCLUSIVE: only {got} of '{k}' observed, need {n} / 4")
            return 2
    if not agg.sigs:
        print("INCONCLUSIVE: nothing non-trivial was observed")
        return 2
    print(f"{pid} held: {agg.evaluations} evaluations, {len(agg.sigs)} distinct non-trivial, {agg.counters}, {wall:.1f}s")
    return 0
