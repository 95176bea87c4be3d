#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: "
CHECKS = {
    "C01": "generated expression programs against a reference evaluator with error bounds",
    "C02": "generated expression programs against forward-mode differentiation",
    "C03": "generated expression programs against second-order forward differentiation and pair uniqueness",
    "C04": "generated (mostly linear) expression programs against reference values and gradients",
    "C05": "round trip of printed expressions, constraints and models through an independent parser",
    "C06": "generated populations and histories of nodes and constraints against a model of identity",
    "C07": "generated comparisons in every operand form against the written sides and a reference violation",
    "C08": "generated models: metamorphic equivalence of feasibility and objective at generated points, forwards and backwards",
    "C09": "generated nonlinear models against second-order forward differentiation of the reference",
    "C10": "generated models against the classification of what they were written from",
    "C11": "generated models with many bounds against the bounds and rows each constraint imposes",
    "C12": "generated models solved with a stand-in solver returning made-up vectors, positions recognized independently",
    "C13": "stateful testing: generated histories of model operations against a fresh model",
    "C14": "stateful testing: generated histories of evaluations against exact values",
    "C15": "generated sparse matrices against dense ones",
    "C16": "round trip of written LP files through an independent parser",
    "C17": "generated solution files against the values they were written from",
    "C18": "mutation fuzzing of solution files against an independent reader",
    "C19": "generated linear problems solved with the real cbc against an exact rational simplex and optimality certificates",
    "C20": "generated integer problems solved with the real cbc against exact enumeration",
    "C21": "generated linear problems solved with the real clp against an exact rational simplex and optimality certificates",
    "C22": "stateful testing: generated callback histories from a stand-in libipopt against exact values, with guarded buffers and malformed requests",
    "C23": "generated solves with a stand-in libipopt that records its use and injects faults",
    "C24": "generated models and problems solved with the real Ipopt against optimality conditions computed separately",
    "C25": "stateful testing: generated parameter histories against a map, with the arguments recorded by a stand-in command",
    "C26": "fault injection: generated histories of solves with a stand-in command that misbehaves",
    "C27": "generated problems of every type with every solver, with recording stand-in commands",
    "C28": "generated schedules of simultaneous solves in threads and processes with stand-in commands",
    "C29": "generated problems and matrices with the size of one part changed, against what fits",
    "C30": "generated expression programs against a recursive enumeration of paths and forward differentiation",
    "C31": "metamorphic testing: generated models written in several ways and solved with the real cbc, clp and Ipopt, against an exact optimum and optimality conditions",
}
NOTE = "Random structured search with shrinking: no violation in the generated cases, not a proof; fixed number of cases, seeded by VERIF_SEED. "
EXTRA = {
    "C19": "Answers of cbc itself that are wrong on a correct file are recognized by running it again by hand, and counted, not reported. ",
    "C20": "Answers of cbc itself that are wrong on a correct file are recognized by running it again by hand, and counted, not reported. ",
    "C21": "Answers of clp itself that are wrong on a correct file are recognized by running it again by hand, and counted, not reported. ",
    "C31": "Answers of cbc and clp themselves that are wrong on a correct file are recognized by running them again by hand, and counted, not reported. ",
    "C28": "Schedules are generated as start offsets and running times of the commands; the interleaving within the library is left to the operating system. ",
}
m = {
    "version": 1,
    "setup_cmd": "bash check.sh --build",
    "checks": [
        {
            "property": k,
            "quick_cmd": f"bash check.sh {k}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {k}",
            "technique": PBT + t,
            "level": "exploration",
            "level_note": NOTE + EXTRA.get(k, ""),
        } for k, t in CHECKS.items()
    ],
    "not_applicable": [],
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
