#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HOW = {
    "C01": "TLC checks MC_Life*/MC_Arith; recorded runs of the real model, step by step, are checked against spec/Physics.tla TLUpper/TLLower in 40-digit arithmetic",
    "C02": "TLC checks MC_LifeIR; recorded runs are checked against spec/Physics.tla IRBox with the exponential computed in the specification",
    "C03": "TLC checks the budget on MC_Theory/MC_Life*; recorded heat uptake is checked against TLUptake/IRUptake and the stored heat",
    "C04": "TLC checks invariant Causal; recorded pairs of runs are compared by Consistent (same outputs up to the first different forcing)",
    "C05": "TLC checks MC_Units; recorded runs of the same physical values in different units are compared, values being converted by spec/units.json",
    "C06": "TLC checks ErrorFrame and prints the state graph, whose every transition is replayed; random histories with unusable values are recorded and checked",
    "C07": "TLC checks OutputsUpToK, HistoryIndependent, WriteOnce and prints the state graph, whose every transition is replayed; random histories are checked",
    "C08": "TLC checks AssignFrame and prints the state graph, whose every transition is replayed; random histories with assignments between steps are checked",
    "C09": "TLC checks Isolated on pairs of objects (spec/Lifecycle.tla, spec/System.tla) and prints the state graphs; interleavings from it and random ones are replayed and checked",
    "C10": "TLC checks spec/Scenarios.tla; calls from it and random scenario tables are run and the results checked row by row against spec/Trace.tla EvScen",
    "C11": "TLC checks spec/Scenarios.tla; recorded scenario runs are compared with runs by hand, subsets, permutations and repetitions",
    "C12": "TLC checks spec/Scenarios.tla and spec/System.tla; behaviours of both are replayed; digests of inputs, earlier results and parameters are recorded around every call and checked",
    "C13": "TLC checks spec/Calendar.tla and Scenarios.tla; recorded runs over generated time axes are checked for timestep, refusal and results",
    "C14": "TLC checks spec/Scenarios.tla; recorded runs with every pattern of missing values are checked for points, refusal and results",
    "C15": "TLC checks spec/Scenarios.tla, whose failing and succeeding calls are all replayed; random faults are recorded and checked",
    "C16": "TLC checks spec/Theory.tla and spec/System.tla; behaviours of the latter are replayed; recorded conversions are checked against the defining relations and their inverses",
    "C17": "TLC checks that exact solution and impulse response agree (spec/Theory.tla); recorded pairs of runs are checked against the exact solution",
    "C18": "TLC checks linearity, monotonicity and equilibrium on spec/Theory.tla; recorded groups of runs are checked for the same",
    "C19": "TLC checks the equilibrium on spec/Theory.tla; recorded conversions and runs to equilibrium are checked",
    "C20": "TLC checks spec/Versions.tla and prints the state graph, whose every transition is replayed in scratch git repositories; random histories are checked",
}
NOTE = ("TLA+ specification explored exhaustively by TLC within the bounds of its configurations; the real code is bound to it by behaviours generated "
        "from the specification's state graph and at random, run on /repo's working tree and validated event by event by TLC. Sound for what was run: "
        "no proof that the Python code refines the specification. Trusts TLC, its Java big-integer overrides (checked by MC_Arith), CPython, numpy%s.")
M = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p, "quick_cmd": "./check.py %s --tier quick" % p, "thorough_cmd": "./check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "TLA+/TLC model checking with trace validation: " + h, "level": "model_checking",
        "level_note": NOTE % (", git" if p == "C20" else ", pandas and pint"),
    } for p, h in sorted(HOW.items())],
    "not_applicable": [],
    "notes": "No hooks: the code under test is observed through its public calls, attributes and output arrays. Fixed defects are in known-findings.txt.",
}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(M, fh, indent=1)
    fh.write("\n")
