"""Writes MANIFEST.json for the checks that exist (run by hand)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFNOTE = ("Held on the executions the evidence file counts, nothing more. Trusts the float64 reference implementation in dwv/ref.py "
           "(written from the documentation), PyTorch autograd and the CPU; the CUDA kernels are not compiled here.")
RELNOTE = "Held on the executions the evidence file counts, nothing more. Each case relates several executions of the code under test. CPU kernels only."
T = {
    "C01": ("AddressSanitizer+UBSan build under random and stress workloads, NaN-filled fresh memory, results monitored against a reference", RELNOTE),
    "C02": ("ThreadSanitizer with a pthread OpenMP runtime and injected delays; differential monitor over thread counts", RELNOTE),
    "C03": ("online monitor of every output against an independent reference model over random problems", REFNOTE),
    "C04": ("monitor of gradients against autograd through an independent reference model", REFNOTE),
    "C05": ("monitor of Hessian-vector products against an independent reference model; refusal monitor", REFNOTE),
    "C06": ("offline comparison of segmented and whole histories", RELNOTE),
    "C07": ("differential monitor over storage modes; quantisation error bound from a reference", RELNOTE),
    "C08": ("metamorphic monitor: shots alone, permuted, grouped, with ignored entries removed", RELNOTE),
    "C09": ("metamorphic monitor: documented area cropped by hand", RELNOTE),
    "C10": ("recorded callback histories compared with the trajectory of an independent reference model", REFNOTE),
    "C11": ("monitor of CFL arithmetic and resampling against exact trigonometric sums", REFNOTE),
    "C12": ("history monitor: fingerprints of inputs, state and results over random call histories and threads", RELNOTE),
    "C13": ("metamorphic monitor: linearity, reflection, transposition, reduction, reciprocity, scaling", RELNOTE),
    "C14": ("monitor against an independent Hicks reference over random call histories", REFNOTE),
    "C15": ("corruption fuzzing with an oracle that demands an exception (or acceptance of valid requests)", RELNOTE),
    "C16": ("invariant monitor over long runs: boundedness, absorption, time reversal", RELNOTE),
    "C17": ("differential monitor of Born runs against derivatives of scalar runs", RELNOTE),
    "C18": ("differential monitor over propagators", RELNOTE),
    "C19": ("differential monitor over interfaces and backends", RELNOTE),
    "C20": ("history monitor of files, directories and descriptors over random graph lifetimes, threads and processes", RELNOTE),
    "C21": ("fault injection into storage files; monitor demands an exception or exact gradients", RELNOTE),
    "C22": ("differential monitor over compositions, layouts and autograd modes", RELNOTE),
    "C23": ("monitor of helpers against their documented formulas", REFNOTE),
    "C26": ("monitor of recorded warnings against their documented conditions", RELNOTE),
    "C25": ("heap monitor (preloaded allocator counters) and file sizes over pairs of runs of different length", RELNOTE),
    "C24": ("monitor of errors against analytic solutions over grid refinements", REFNOTE),
}
LEVEL = {"C21": "fault_enumeration"}
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "dwv", "checks", i.lower() + ".py")):
        cmd = f"/opt/venv/bin/python run.py {i}"
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd="env VERIF_TIER=thorough " + cmd, evidence_file=f"evidence/{i}.json",
                           technique=T[i][0], level=LEVEL.get(i, "exploration"), level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check rebuilds the compiled library from /repo's CMakeLists.txt in a scratch directory (no hooks in /repo) and runs the Python sources beside it. Known findings and repairs: known_findings.json.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
