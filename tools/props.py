#!/usr/bin/env python3
"""The properties; writes properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H26 = "include/pystd2026.hpp"
H25 = "include/pystd2025.hpp"
S26 = "src/pystd2026.cpp"
S25 = "src/pystd2025.cpp"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Vector is a faithful growable sequence",
     "After any sequence of Vector operations (push, emplace, pop, append, assign, reserve, default "
     "append, clear, copy, move, self-assignment) the vector holds exactly the elements a plain list "
     "would, in order, through every growth, also when an argument is an element of the vector itself. "
     "Reported size, emptiness, equality, front/back, iteration and spans agree with those elements, and "
     "access outside the vector or to the ends of an empty one is reported by an exception that leaves it "
     "unchanged. Holds for both library epochs (2025 and 2026) and for element types of any size and "
     "alignment.",
     ["histories", "inputs"],
     "every sequence of vector operations, start sizes on both sides of each growth threshold, element types",
     "The tests push, pop and compare in three short fixed scripts; the interaction of growth, aliasing "
     "arguments, moves and reuse of moved-from vectors is unsampled.",
     [H26, H25],
     [("Vector::push_back / emplace_back / reserve / resize_capacity_to", H26),
      ("Vector (2025)", H25)],
     [("buffer/buf_capacity/num_entries", "owned raw storage, its capacity and the live element count", H26)],
     ["Vector public API"])
prop("C02", "FixedVector is a faithful bounded sequence",
     "After any sequence of FixedVector operations (push, emplace, insert at any position, pop at either "
     "end, delete at any position, move-append, moves) it holds exactly the elements a plain list limited "
     "to its capacity would. Exceeding the capacity or naming a position outside the contents is reported "
     "(false from the try_ functions, an exception otherwise) and changes nothing, including the rejected "
     "argument. Holds for both epochs.",
     ["histories", "inputs"],
     "every sequence of operations on vectors of small capacities, every position and fill level",
     "The tests run one script per operation at one fill level.",
     [H26, H25], [("FixedVector::insert / delete_at / swipe_from", H26)],
     [("backing/num_entries", "inline storage and live element count", H26)], ["FixedVector public API"])
prop("C03", "Every element's lifetime is exact",
     "Every object placed in a library owner (Vector, FixedVector, Stack, Optional, Expected, Variant, "
     "unique_ptr, unique_arr, HashMap, HashSet, B-tree set and map) is destroyed exactly once, never used "
     "before its construction or after its destruction, and relocated only through its own constructor. "
     "After any sequence of operations has ended and the owners are gone, no element and no allocation "
     "made by them remains.",
     ["histories"],
     "every sequence of insertions, removals, replacements, moves, copies and clears up to a depth",
     "Tests mostly store ints, for which a missed destructor or a double destruction is invisible, and do "
     "not count live objects.",
     [H26, H25, "include/pystd2026_hashtable.hpp", "include/pystd2026_btree.hpp",
      "include/pystd2026_variant.hpp", "include/pystd2025_btree.hpp"],
     [("placement construction and destruction in the owners", H26),
      ("MapSlot reset in the hash table", "include/pystd2026_hashtable.hpp"),
      ("node entries moved between FixedVectors", "include/pystd2026_btree.hpp")],
     [], ["element constructors/destructors", "allocator"])

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")
if os.path.exists(EXTRA):
    with open(EXTRA) as f:
        exec(f.read())

NOT_APPLICABLE = []
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids)), "duplicate id"
NA = {n["property"] for n in NOT_APPLICABLE}
checks = []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    pid = p["id"]
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3 tools/run_check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 tools/run_check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": c.get("technique", "bounded exhaustive exploration (stateless model checking) "
                                            "of the real code against a reference model"),
            "level": c.get("level", "model_checking"),
            "level_note": c.get("note", "Exhaustive within the bounds recorded per scenario in the evidence "
                                "file; trusts the reference model in the harness, clang 20 with "
                                "AddressSanitizer/UBSan, and libstdc++ for the model.")})
    elif pid not in NA:
        NOT_APPLICABLE.append({"property": pid, "reason": "machinery not built yet"})
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1,
               "setup_cmd": "python3 tools/setup.py",
               "hooks": {"guard": "none", "enable": "no hooks: the harnesses use the public API and link-time interposition only",
                         "source_commits": []},
               "checks": checks, "not_applicable": NOT_APPLICABLE,
               "notes": "All checks rebuild /repo/src and /repo/include into /verif/build (ignored by git)."},
              f, indent=1)
    f.write("\n")
