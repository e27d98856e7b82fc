#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "online reference-model monitor over random edit histories (a list of characters with their sources)",
 "C02": "invariant monitor on the alignment read byte by byte, plus an inverse recomputed from it, after every edit",
 "C03": "reference-model monitor over all ranges of reachable texts, in both referentials, valid and hostile",
 "C04": "reference-model monitor over families of pieces cut from each other and edited independently",
 "C05": "reference-model monitor over splits: five delimiter behaviours on built-in and user-defined patterns",
 "C06": "reference-model monitor over pattern captures (tiling, flags, inversion, aliasing of results)",
 "C07": "history monitor over stages of a pre-tokenized text, with injected stage failures",
 "C08": "reference-model monitor over encodings, with injected tokenizer failures",
 "C09": "end-to-end reference-model monitor over whole pipelines",
 "C10": "reference-model monitor: every code point under every switch setting, and random histories",
 "C11": "reference-model monitor: every code point, and normalizer trees with injected failures",
 "C12": "reference-model monitor: every code point, and random pre-split texts",
 "C13": "reference-model monitor: every code point, and random pre-split texts",
 "C14": "reference-model monitor and independent decoder: every code point, and random pre-split texts",
 "C15": "reference-model monitor and independent decoder over random markers and pre-split texts",
 "C16": "definition-level reference model: all short words under fixed models, random models and words",
 "C17": "definition-level reference model: all short words under fixed models, random models and words",
 "C18": "derivability monitor over every outcome, exact oracles at the limits, frequency monitor of one or several merges",
 "C19": "definition-level reference model: all short words under fixed vocabularies, random ones and words",
 "C20": "history monitor: every lookup after every step against a plain map",
 "C21": "fault injection into generated files, monitored against the generator's own record of the content",
 "C22": "Go race detector with scheduling points injected in front of every statement, concurrent results compared with solo runs",
 "C23": "history monitor: shared instances against fresh ones and reference models, returned values altered and re-read",
 "C24": "crash, termination and bounds monitor over arbitrary bytes in every operation and pipeline",
 "C25": "reference-model monitor over all pairs of byte positions of small and random texts",
 "C27": "heap monitor: live memory after full garbage collections over successive batches of thousands of calls with ever new inputs, and the number of goroutines",
 "C28": "history monitor: every symbol and link of every word after every step against a list model",
 "C26": "snapshot monitor: every list handed over, spare capacity included, compared with a copy after every call; open files, goroutines and output watched",
}
NOTE = ("Judges only the executions of this run: small inputs exhaustively, larger ones by seeded sampling. "
        "Trusts the Go toolchain, its unicode tables, the regexp and regexp2 engines, and the reference model in harness/. ")
EXTRA = {
 "C27": "Less than 32 KB per batch (500 to 6,000 repetitions) is not judged, nor is a store that is full after 16 times as many different inputs.",
 "C26": "Compiled expressions are judged by what they match and by their settings that can be read, files by content, mode and time.",
 "C02": "The inverse is recomputed from the forward alignment, so a wrong but well-formed forward alignment is C01's to find.",
 "C06": "Right-to-left regexp2 expressions are restricted to ones that never match the empty string.",
 "C10": "U+2B820 to U+2B91F (CJK extension E in Unicode, not in the library's table) are left unjudged.",
 "C18": "The frequency oracle leaves more than 8 standard deviations, so it only sees gross deviations.",
 "C22": "The race detector sees races between accesses that occurred, whatever their order in time; interleavings that never occurred are not judged.",
 "C24": "Termination is judged by CPU time of a case run alone (60 s for inputs that take microseconds).",
}
checks = []
for p in sorted(TECH):
    checks.append({
        "property": p,
        "quick_cmd": f"bash bin/check.sh {p} quick",
        "thorough_cmd": f"bash bin/check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": TECH[p],
        "level": "exploration",
        "level_note": NOTE + EXTRA.get(p, ""),
    })
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hook in /repo: everything is observed at the exported API; scheduling points for C22 are put in by a build overlay made from /repo's sources at check time. bin/replay.sh FILE runs a recorded violation again."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
