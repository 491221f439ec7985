#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = {
    "C01": ("record/replay round trip over generated tests and values", "Random and corpus-driven search: values are recorded through the real API and replayed in another interleaving; any signal or any write is a violation. Samples the input space, does not exhaust it."),
    "C02": ("metamorphic pair testing (recorded value vs near value)", "Searches pairs at small edit distance, colours on and off; formatted-text equality (kr/pretty, the YAML text, the standalone JSON file) decides."),
    "C03": ("stateful model-based testing of slot addressing", "Histories of interleaved executions against a slot model, files parsed and compared after every operation."),
    "C04": ("model-based update testing (fresh recording as reference)", "The store after an update run must equal a fresh recording of the new values, byte for byte; mtime and inode show needless writes."),
    "C05": ("exhaustive table plus stateful model-based testing of the write permissions", "The mode table is enumerated over environments, options, entry points, slot states and obsolete items; random histories add the combinations; the whole tree (bytes, mtimes, inodes, directories) is compared around every call and every Clean."),
    "C06": ("schedule exploration (bounded preemptions and random walks at every file system and lock operation) against a serial model, plus free runs under the race detector", "The package is rebuilt with os and sync instrumented by an overlay; a scheduler runs one goroutine at a time, visits every schedule with one preemption and many with more, and compares outcomes, signals and files with a serial execution."),
    "C07": ("stateful model-based testing of whole test binaries followed by Clean", "Generated test programs run by the real testing package in a process of their own; every slot a call addressed must survive Clean with its value and not be listed."),
    "C08": ("stateful model-based testing of whole test binaries followed by Clean, with the real -run matcher as oracle", "Generated programs with skips and -run patterns; the testing package itself is asked which names the pattern selects, and what belongs to skipped or unselected tests must survive unlisted, while prefix siblings of a skip must still be reported."),
    "C09": ("stateful model-based testing of whole test binaries followed by Clean", "A model of the directory contents decides which items are obsolete; report, removal and everything left alone are compared exactly, over two consecutive Cleans."),
    "C10": ("model-based and metamorphic testing of Clean rewrites", "Generated files and test programs; survivors are compared as a multiset with order, against an independent natural order, over repeated Cleans, repeated processes and permuted initial orders."),
    "C11": ("model-based testing of generated modules and call stacks", "Modules with test and helper files are generated and compiled with and without -trimpath; calls are made through random chains of frames; the files that exist afterwards must be the ones computed from the nearest test file, the test name and the options."),
    "C12": ("metamorphic and model-based testing of call histories through shared Configs", "A Config whose location and behaviour are probed before and after random call sequences, in order permutations and concurrently (plus -race)."),
    "C13": ("differential testing of the failure report and the diff engine", "Generated text pairs; the report is parsed back and checked against the two texts, and the opcode engine against its tiling invariants."),
    "C14": ("metamorphic testing (re-spaced, reordered and re-typed documents)", "Documents generated from a JSON grammar with unusual literals; parsed back with encoding/json (UseNumber) for losslessness."),
    "C15": ("model-based testing against a reference JSON/YAML tree replacement", "Structural paths are replaced in the model's tree; what the matchers wrote is parsed and compared in value and position; byte inputs carry sentinel-filled spare capacity."),
    "C16": ("metamorphic testing (pairs of documents that differ at masked and/or unmasked paths)", "Pairs generated from one document tree; a reference model of path replacement decides whether a pair differs only at covered paths; both orders are recorded and replayed."),
    "C17": ("model-based testing of call histories with failing matchers", "A reference model of the matchers decides which paths fail; every call's outcome, report and the files are compared with a model of the store, in default, update and CI processes."),
    "C18": ("round-trip and model-based testing of documents", "Documents from a YAML grammar, special streams and near-valid or hostile text; the stored body must be the input byte for byte through record, replay, update and replay; the decoder of goccy/go-yaml plus a fixed list of texts that no YAML 1.2 reader accepts is the reference for validity."),
    "C19": ("model-based testing of standalone files over call histories", "Histories of executions with hostile bytes against a model of one file per call ordinal; after every call the whole directory is compared byte for byte, in default, update and CI processes and concurrently."),
    "C20": ("model-based testing of call histories and of the printed summary", "Every signal of every call is tallied and compared with the parsed summary and with what was written; sequential, parallel and under the race detector."),
}
def main():
    checks = []
    for p, (tech, note) in sorted(T.items()):
        checks.append({
            "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": "property-based testing: " + tech, "level": "exploration", "level_note": note,
        })
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []}
    m["not_applicable"] = [{"property": "C%02d" % i, "reason": "check under construction"} for i in range(1, 21) if "C%02d" % i not in T]
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
