"""Writes /verif/MANIFEST.json."""
import json
import os

TECH = "deterministic simulation with fault injection: seeded schedule and fault search, %s oracle"
ORACLE = {
    "C01": "cross-schedule differential", "C02": "reference-model refinement", "C03": "reference-model refinement",
    "C04": "reference-model refinement", "C05": "reference-model refinement", "C06": "per-step invariant",
    "C07": "lifecycle model and reference refinement", "C08": "crash-recovery reference refinement",
    "C09": "cross-environment differential", "C10": "noise recovery by inverting the reference model",
    "C11": "schedule-history and reference", "C12": "batch-history and reference", "C13": "history (window, pairing, no-mutation)",
    "C14": "cross-environment differential", "C15": "collection-history", "C16": "numpy twin of the network",
    "C17": "failed-training invariant", "C18": "cross-environment differential", "C19": "twin-chain history",
    "C20": "snapshot invariant", "C21": "interleaved-versus-alone differential", "C22": "restart reference refinement",
    "C24": "by-name-versus-direct differential", "C26": "hand-built posterior chain differential",
    "C28": "isolation invariant and beside-others-versus-alone differential",
    "C29": "graph-size invariant", "C30": "process-state invariant over call histories",
}
NOTE = ("Sampling, not proof: seeded search over operation orders, faults and inputs on the real pysgmcmc code with "
        "a simulated session executor, clock and entropy; trusts TensorFlow's stateless CPU kernels and that the "
        "simulated executor's orders are those TensorFlow permits (dst/selftest.py compares it with a real session). ")
EXTRA = {
    "C04": "Parameters of one element only: the code supports no others. ",
    "C07": "burn_in_steps >= 1. ",
    "C10": "Statistical bounds at 8 sigma or wider, on fixed seeds. ",
    "C19": "pymc3 is absent: its MultiTrace and diagnostics are stand-ins. ",
    "C15": "Settings under which at least one net is collected. ",
    "C16": "tensorflow.contrib is absent: the default network's initialiser is a stand-in. ",
}
NA = {
    "C23": "Pure functions of their inputs: no schedule, clock, I/O, fault or history for a simulator to vary. "
           "Their use inside the samplers is covered through C02-C05.",
    "C25": "Pure closed-form functions of one input; nothing a simulated schedule or fault could influence.",
    "C27": "Pure array functions; nothing a simulated schedule or fault could influence. Their use by the BNN is "
           "covered through C16 and C26.",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
doc = {
    "version": 1, "setup_cmd": "./setup.sh",
    "checks": [{"property": p, "quick_cmd": "./check %s --tier quick" % p,
                "thorough_cmd": "./check %s --tier thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": TECH % ORACLE[p], "level": "exploration",
                "level_note": (NOTE + EXTRA.get(p, "")).strip()} for p in sorted(ORACLE)],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "No hooks in /repo: tf.Session, the samplers' schedule/batch arguments, time.time and numpy's entropy "
             "are the seams. All source commits in /repo are 'fix:' commits, see known/findings.json.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
