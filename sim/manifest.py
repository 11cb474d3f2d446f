"""Writes /verif/MANIFEST.json from the table below (run by hand after adding a property)."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python sim/run.py"
SIM = "deterministic simulation of the real CLI at the libc seam, seeded search over "
T = {
    "C01": ("exploration", SIM + "environments (hash seed, clock, entropy, locale, paths, directory order); byte comparison between environments"),
    "C02": ("fault_enumeration", SIM + "I/O, disk-full, signal and allocation faults; output of acknowledged runs compared with the fault-free run"),
    "C03": ("fault_enumeration", SIM + "invalid models and input faults; disk state before and after a rejected run compared"),
    "C04": ("fault_enumeration", SIM + "faults and crashes; whole simulated disk and every file operation checked against the declared outputs"),
    "C05": ("fault_enumeration", SIM + "histories of successful, failing, killed and torn earlier runs; compared with a fresh location"),
    "C06": ("fault_enumeration", SIM + "call histories inside one process with failing and interrupted calls; compared with a fresh process per call"),
    "C07": ("fault_enumeration", SIM + "interleavings of concurrent processes with crashes; each compared with running alone"),
    "C08": ("fault_enumeration", SIM + "atomic input replacements during a run; linearizability against all versions that existed"),
    "C09": ("fault_enumeration", SIM + "release histories with crashes and retries; independent reference model of node identity and FNV-1"),
    "C10": ("fault_enumeration", SIM + "release histories with crashes and retries; independent reference model of the change report"),
    "C11": ("fault_enumeration", SIM + "export/re-import cycles with crashed and retried runs; fixed point and cross-exporter comparison"),
    "C12": ("fault_enumeration", SIM + "diagnostic configurations and faults on the log file and standard streams; result compared with the plain run"),
    "C13": ("fault_enumeration", SIM + "persistent and repeated faults and cyclic models; bounded number of operations, CPU, no waiting"),
    "C14": ("fault_enumeration", "deterministic simulation of the real C parser over wrapped stdio and malloc, seeded search over short reads, truncation, allocation and I/O faults; reference model from the exported model"),
    "C15": ("fault_enumeration", "deterministic simulation of the real Go parser behind a simulated file (chunked reads, truncation, errors), seeded search over call histories; reference model from the exported model"),
    "C16": ("fault_enumeration", SIM + "histories of completed, failing, killed and torn earlier runs plus transient conditions; bounded recovery: next run must succeed with the fresh output"),
    "C17": ("fault_enumeration", SIM + "in-process call histories with failing, interrupted and fault-hit calls; process-wide state recorded before and after every call"),
    "C18": ("fault_enumeration", SIM + "invalid models and lasting I/O faults; exit status compared with what the run reported"),
    "C19": ("fault_enumeration", SIM + "kills, interruptions, transient faults, locales and call histories; log file compared with the console of the same run"),
}
NOTE = {
    "C01": "Sampled environments and models; trusts the seam to cover every libc source of nondeterminism CPython uses here (escapes are recorded).",
}
DEFAULT_NOTE = ("Seeded sampling of models, schedules and fault positions, not exhaustive; real vss-tools code on CPython, the libc seam (sim/shim.c) and the simulated disk are trusted.")
NA = {
    "C20": "overlay precedence is a pure function of the file contents: no schedule, clock, I/O outcome, fault or history can change it, so simulation has nothing to decide",
    "C21": "include resolution is a pure function of the file contents and options (torn or replaced include files are covered by C03 and C08)",
    "C22": "instance expansion is a pure function of the model with no time, I/O, concurrency or history",
    "C23": "value validation is a pure function of the model (that its verdict does not depend on history is covered by C06)",
    "C24": "unit validation is a pure function of model and unit files (leakage between runs is covered by C06)",
    "C25": "strict and abort options are a pure function of model and options",
    "C26": "struct resolution is a pure function of the model (hash order and history are covered by C01 and C06)",
    "C27": "deletion is a pure function of the model",
    "C28": "format fidelity is a pure function of the model; needs parsers of ten formats, not schedules or faults",
}


def main(claimed):
    claimed = claimed or [k for k in T]
    ps = [json.loads(x)["id"] for x in open(os.path.join(HERE, "..", "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python sim/run.py --setup", "checks": [], "not_applicable": []}
    for p in ps:
        if p in T and p in claimed:
            lv, te = T[p]
            m["checks"].append({"property": p, "quick_cmd": f"{PY} {p} --tier quick", "thorough_cmd": f"{PY} {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                                "technique": te, "level": lv, "level_note": NOTE.get(p, DEFAULT_NOTE)})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
    m["notes"] = "No hooks in /repo: the seam is LD_PRELOADed below libc, so the shipped code runs unchanged."
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import sys
    main(sys.argv[1:])
