#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed checks below."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "Generated values are written and read back under a content observer that is independent of the library's own equality.",
    "C02": "An independent encoder produces canonical saves; read-then-write is compared byte by byte, bundled saves included.",
    "C03": "An independent encoder and decoder written from the format description are compared with the library in both directions.",
    "C04": "Worker processes run hostile inputs in checked, release and debug builds; panics, aborts, signals, stack exhaustion and non-termination are monitored.",
    "C05": "Structured damage of valid saves is judged by an independent strict decoder.",
    "C06": "Every prefix of generated saves, headers, properties, texts and containers is read.",
    "C07": "Header gates are swept and combined; header fields, reader position and rewritten bytes are observed.",
    "C08": "Containers are written to and read from monitored positions and compared with an independent zlib container implementation; damaged containers must be refused.",
    "C09": "Hints are withheld one by one and every report is compared with the path and offset recorded by the independent encoder.",
    "C10": "Each structural field is given an invalid content and variant, value and offset of the error are compared with the field map.",
    "C11": "Instrumented sources deliver short, interrupted and failing reads; outcome and reads after failure are monitored.",
    "C12": "Instrumented sinks accept short writes and fail at every call; success with missing bytes or a lost failure is reported.",
    "C13": "Reported sizes are compared with the bytes an instrumented sink received, for every size-reporting operation.",
    "C14": "Values go through JSON text and back under the content observer, and the saves written before and after are compared.",
    "C15": "GUID conversions, formatting and parsing are compared with an independent implementation.",
    "C16": "Pairs of values with known content relation are compared and hashed with several hashers.",
    "C17": "Version tables are swept around every threshold; observed layout and errors are compared with the model.",
    "C18": "The library runs under Miri (stacked and tree borrows), AddressSanitizer with LeakSanitizer, and a string validity observer.",
    "C19": "Results after arbitrary call histories and under concurrency are compared with those of fresh processes; the caller's path stack is monitored.",
    "C20": "Constructed containers are compared with model content, written bytes and what reading produces; accessors with a truth table.",
    "C21": "A counting allocator observes peak and residual heap use while hostile counts and lengths are read.",
    "C22": "Accepted hostile inputs are written, reread and rewritten under the content observer.",
    "C23": "Typed readers and stream helpers run at monitored stream positions on intact, damaged and cut encodings; value, error and position are compared with the model and with the general reader.",
    "C24": "Values made by constructors and conversions are compared field by field with their arguments, and their bytes with an independent encoder.",
    "C25": "Engine version, stream and step tables are compared with independent tables; version queries with the stored entries.",
    "C26": "Printed values and error messages are parsed and compared with the stored values; sources and recorded positions are observed.",
    "C27": "Processor time and memory requests of each operation are measured for a save and for one 16 times as large.",
    "C28": "JSON trees are compared with independently built ones; reordered, completed and damaged trees are read.",
}
LEVEL = {"C18": "other"}
NOTE = {
    "C27": "Measured growth between two sizes of each part; a factor of 6 beyond proportion is allowed, and excess must show in five measurements.",
    "C04": "All monitored executions of this run; termination is judged by CPU time of a repeated single case.",
    "C18": "Dynamic detection on the executions of this run; Miri runs a fixed, smaller set of cases than ASan.",
}
CLAIMED = os.environ.get("CLAIMED", "").split() or sorted(TECH)
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks rebuild the monitor against /repo's working tree (tools/build.sh) and run from /verif.",
}
for p in props:
    i = p["id"]
    if i not in CLAIMED:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH[i],
        "level": LEVEL.get(i, "exploration"),
        "level_note": NOTE.get(i, "Holds for the executions of the run; inputs come from directed enumeration plus seeded random generation."),
    })
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
