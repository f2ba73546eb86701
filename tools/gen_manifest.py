#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]

T = {
    "C01": ("model-based random testing of Check", "every generated policy, relationship set and request is answered by an independent least-fixpoint reference and compared; bounded sizes, random search"),
    "C02": ("metamorphic random testing of histories", "pairs of histories with the same content, renamings and added relationships; random search"),
    "C03": ("stateful model-based testing against a map", "random histories with adversarial names, the whole state compared after every write"),
    "C04": ("stateful model-based testing over several policies", "random interleaved histories with similar policy ids, everything of every policy compared after every write"),
    "C05": ("random selectors against a reference filter", "random relationship sets and selectors, embedded and through the wire encoding"),
    "C06": ("random relationships against a reference admission rule", "random restrictions and relationships, with every field missing or undefined in turn"),
    "C07": ("random policies and single mutations against a reference validity rule", "random well-formed policies and mutations of them"),
    "C08": ("stateful model-based testing of policy operations", "random histories against a map by id"),
    "C09": ("grammar-based random texts against a reference parser and evaluator", "random derivations, layouts and token-level mutations; meaning compared by Check over membership assignments"),
    "C10": ("differential random testing of YAML and structured policies", "random policies written in random YAML styles, and malformed documents"),
    "C11": ("random testing of explanations against a reference evaluator", "documents are parsed independently and every node is judged"),
    "C12": ("random testing of dumps against the set of relationships", "the DOT text is parsed independently and compared edge by edge"),
    "C13": ("structure-aware fuzzing of every request message", "random messages built by reflection, no panic, no hang, errors change nothing"),
    "C14": ("stateful testing of the on-disk store with restarts", "random histories with clean and abrupt restarts against a model"),
    "C15": ("controlled random schedules with linearizability checking", "random concurrent programs with forced pauses at store accesses, race detector on, compared with all sequential orders"),
    "C16": ("enumeration of crash points in random histories", "for every generated operation, every prefix of its store writes"),
    "C17": ("enumeration of store faults in random histories", "for every generated operation, every store access fails in turn, once and from then on"),
    "C18": ("differential random testing of gRPC, HTTP gateway and embedded calls", "the same random requests go to a server over loopback, in part through the gateway, and to an embedded instance"),
    "C20": ("stateful model-based testing of the programs", "random histories sent to real daemons by real clients, with restarts, against a model"),
    "C21": ("model-based random testing of the exported data types", "random sequences of additions against a map and a set, drawings parsed independently, helpers against the data they were built from"),
    "C19": ("stateful random testing over a recording store", "reads must not write, must repeat, and messages are scrambled after every call"),
}
src = "".join(open(os.path.join(HERE, "..", "harness", f)).read() for f in os.listdir(os.path.join(HERE, "..", "harness")) if f.endswith(".go"))
checks, na = [], []
for p in props:
    i = p["id"]
    if 'register("%s"' % i not in src:
        na.append({"property": i, "reason": "its check is not built yet"})
        continue
    t, n = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "property-based testing: " + t,
        "level": "fault_enumeration" if i in ("C16", "C17") else "exploration",
        "level_note": n,
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
