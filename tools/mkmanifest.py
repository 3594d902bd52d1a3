#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "model-based property testing: random operation histories against a reference model, shrunk to a minimal replay"
TECH = {
    "C02": MODEL + "; families of copies, allocation of Copy measured",
    "C04": "property testing over a pool of sets: algebra results compared with the definition on model sets (operands and results re-checked after every step)",
    "C05": "property testing: relations and views compared with their definition on model sets",
    "C07": "property testing of an invariant: height limits and comparator-call counts over generated histories",
    "C15": MODEL + "; every callback invocation recorded and compared, callbacks observe the cache",
    "C26": "property testing of a resource bound: bytes allocated by generated small edits of generated large ropes",
    "C30": "property testing: generated out-of-range coordinates must panic and leave every cell as the model has it",
    "C31": "property testing against the definitions over boundary-biased values of all ordered kinds",
    "C32": "exhaustive enumeration of the 8/16-bit domains plus property testing (metamorphic: determinism, one-bit and one-byte variations, spread of progressions)",
    "C33": "property testing of an invariant: comparison counts over generated histories",
    "C34": "property testing of an invariant: equality-call counts over generated bulk histories",
    "C35": "property testing of schedules: generated reads (and changes to own copies) in unsynchronised goroutines under the Go race detector, differential against a run in one goroutine",
    "C36": "property testing of a cost bound: CPU time of generated calls on generated large structures relative to map accesses measured at the same moment",
    "C37": "property testing of a resource bound: values (by weak pointers) and bytes that stay reachable through a structure after generated histories",
    "C38": "metamorphic property testing: the same generated history under different key and value types must show the same results; arguments of supplied functions are checked",
    "C39": "metamorphic property testing: the same generated history with a caller that overwrites every slice it passed or got, and one that keeps them and compares",
}
NOTE = ("Bounded random search: evidence that no violation was found on the generated cases, not a proof. "
        "Trusts the Go toolchain and the reference model in /verif/harness; a reported violation has been shrunk and repeated in a fresh process.")
EXTRA = {
    "C07": " The limits leave constant-factor slack over the current code.",
    "C26": " Allocation is the least of three measurements; the limit leaves constant-factor slack.",
    "C33": " The limits leave constant-factor slack over the current code.",
    "C34": " The limit leaves constant-factor slack over the current code.",
    "C32": " The 8- and 16-bit functions are decided completely for injectivity and determinism.",
    "C35": " The race detector reports unordered conflicting accesses whether or not the schedule made them harmful.",
    "C36": " Times are CPU times, the best of four attempts, against a limit that scales with the speed of the machine at that moment and leaves several times of slack.",
    "C37": " The limits leave constant-factor slack over the current code.",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, MODEL) + "; thorough adds coverage-guided fuzzing of the generator's bit stream",
        "level": "exploration",
        "level_note": NOTE + EXTRA.get(i, ""),
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the checks are black-box and link /repo's working tree through a replace directive in harness/go.mod. See DESIGN.md and KNOWN_FINDINGS.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
