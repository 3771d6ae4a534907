"""Write MANIFEST.json: every property with a rule module is claimed, the others are not applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "rules"))
sys.path.insert(0, os.path.join(V, "vlib"))
import importlib
NA = {
    "N01": "the functions are not in this repository, and their results are run-time numbers and texts no static rule in reach bounds; that the filters call the right ones on the whole value is R04-R07 and R09",
    "N02": "panic-freedom and stack depth of the generator for every tree need bounds on run-time recursion and on every index and arithmetic operation of it; the abstract domain here has no numeric invariants strong enough",
    "N03": "whether generated code type-checks depends on the user's types, which are not in the repository; only the structure of the generated code is decided (G01-G14, E03)",
    "N04": "the size hint is a heuristic about output lengths that depend on run-time values; there is no static criterion for close",
}
PENDING = "no static rule has been completed for this property"
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "rules", pid.lower() + ".py")):
        m = importlib.import_module(pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
            "technique": getattr(m, "TECHNIQUE", "static analysis: path-partitioned dataflow over rustc MIR; " + " ".join(m.__doc__.split())),
            "level": "other",
            "level_note": getattr(m, "NOTE", "decides the rule on all abstract paths of the analysed functions; library functions outside the crates are trusted models; no code is executed"),
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, PENDING)})
json.dump({"version": 1, "setup_cmd": "python3 vlib/facts.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
