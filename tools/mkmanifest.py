#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.py and the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
T = {
 "C01": ("coverage-guided and structured fuzzing of every reader under ASan/UBSan with an allocation meter",
         "Every accepted or rejected document is exercised under AddressSanitizer and UBSan with a counting, bounding allocator; inputs live in exact-size heap blocks."),
 "C02": ("property-based testing against an independent WKB encoder and model of the geometry",
         "Bit-exact comparison of every accessor and byte with a model built independently of the library."),
 "C03": ("property-based testing: grammar generator, independent strict WKT reader, round trip", "Texts are generated from a model and outputs are judged by a separate strict reader; numbers by the C library's strtod."),
 "C04": ("property-based testing: JSON spelling generator, independent strict JSON reader, round trip", "Texts are generated from a model and outputs are judged by a separate strict JSON reader; numbers by the C library's strtod."),
 "C05": ("property-based testing: GeoJSON document model, exact member text comparison and fixpoint of read-write", "The expected extra members are computed from the generated document by an independent JSON parser."),
 "C06": ("property-based testing against an independent GeoBIN encoder written from docs/GEOBIN.md", "Byte-exact comparison with an independent encoder, round trip, and the byte-level helpers against the geometry."),
 "C07": ("differential property-based testing against strtod and shortest-digits search", "The oracle is glibc strtod/snprintf, taken as correctly rounded."),
 "C08": ("structural mutation testing of documents judged by independent validators of each format", "Acceptance is compared with validators written from the format definitions; the domain notes are in DESIGN.md."),
 "C09": ("differential property-based testing between the readers, constructors and auto-detection", "All routes into a geometry are compared with each other on structure, rectangles, WKB and predicate answers."),
 "C10": ("property-based testing over all buffer sizes with guard bytes", "Every size of short outputs and the critical sizes of long ones, in exact-size heap blocks under ASan, with patterned guards."),
 "C11": ("metamorphic property-based testing: unindexed against every index kind and spread", "The unindexed answers are the reference; index levels are checked against the points."),
 "C12": ("property-based testing against exact rational point location", "Oracle: exact integer or 128-bit arithmetic on coordinates that are exactly representable."),
 "C13": ("property-based testing against exact integer geometry", "Oracle: exact arithmetic on small and on wide exactly representable coordinates."),
 "C14": ("property-based testing against an exact planar-arrangement oracle", "Oracle: exact rational arrangement of both shapes (geo.hpp); grid coordinates make every predicate exact."),
 "C15": ("property-based testing against an exact planar-arrangement oracle", "Oracle: exact rational arrangement of both shapes (geo.hpp); one known finding is excluded and probed."),
 "C16": ("property-based testing against an exact planar-arrangement oracle", "Oracle: exact rational arrangement of both shapes (geo.hpp)."),
 "C17": ("property-based testing of algebraic laws, and equality against redrawn shapes and an exact oracle", "Laws are checked on grid and floating-point geometries; equality against the exact oracle."),
 "C18": ("metamorphic property-based testing: collection against its members", "The library's own answers on single members, checked by C14 to C16, are the reference."),
 "C19": ("metamorphic property-based testing: transformed and redrawn geometries", "Exact transformations only (power-of-two scale, integer shifts); the library is compared with itself."),
 "C20": ("property-based testing against brute-force enumeration of segment pairs", "Oracle: exact pairwise segment intersection."),
 "C21": ("property-based testing against brute-force rectangle filtering", "Oracle: linear scan over member rectangles."),
 "C22": ("property-based testing against sorted brute-force distances", "Oracle: sorted linear scan; callbacks return consistent distances."),
 "C23": ("property-based testing against exact definitions", "Oracle: exact integer area, reference sums within stated rounding bounds, exact turn tests."),
 "C24": ("property-based testing against a fold over the model's coordinates", "Oracle: minimum and maximum over the model's coordinates."),
 "C25": ("model-based property testing of constructors and accessors", "Every accessor is compared with the model the geometry was built from; out-of-range and wrong-type calls included."),
 "C26": ("stateful model-based testing of handle histories under ASan with an allocation ledger", "Histories of create/clone/copy/compose/free, every live handle compared with its model, in atomic and non-atomic builds."),
 "C27": ("fault injection: every allocation of generated operations refused in turn", "Each allocation request of an operation is refused once and stickily; leaks, crashes, wrong results and recovery are judged."),
 "C28": ("generated concurrent histories under ThreadSanitizer, answers compared with a single thread", "ThreadSanitizer observes the interleavings that happen; the histories, not the schedules, are enumerated."),
 "C29": ("differential property-based testing between shared objects of all build configurations", "Outputs, errors, predicates and measurements of several builds of /repo are compared on the same inputs."),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t,
                       "level": "exploration", "level_note": note + " Absence of a violation covers the generated cases only."})
    else:
        na.append({"property": i, "reason": "the check is not finished yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its harness with the library sources of /repo (or $VERIF_REPO) into a temporary directory, "
              "draws all choices from VERIF_SEED, runs a fixed number of cases and shrinks failures into replays/. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
