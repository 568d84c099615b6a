"""Writes MANIFEST.json from the table below (only the checks whose script exists)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+/TLC: "
CHECKS = {
 "C01": ("model_checking", "exhaustive model of the content pipeline + real packs judged by the specification",
         "Every recorded session (add, finalize, read) of the real creator and reader is accepted or rejected by the ContentPack specification; the pipeline design is checked exhaustively for small constants. Exploration of inputs is bounded: seeded boundary lengths, sources, hints, algorithms and levels."),
 "C02": ("model_checking", "codec model checked exhaustively in a scaled world + real directories judged by the Directory specification",
         "Readback, windows and refusals of the real code are judged by TLC against the Directory specification; the values are exact (8-byte tuples, byte strings). Inputs are boundary sweeps plus seeded random schemas; debug and optimised builds."),
 "C03": ("model_checking", "sort and search design checked exhaustively + real sorted stores and lookups judged by the specification",
         "Order and answers of both search modes are judged against the order defined in TLA+ on the values read back; small stores enumerated, larger ones seeded."),
 "C04": ("fault_enumeration", "damage model (blocks, digests, forged CRC) checked exhaustively + every byte of real files altered, verdicts checked by TLC",
         "Every byte of small real containers is altered with several masks, ranges are zeroed and overwritten, and covered bytes are altered with their CRC recomputed; which bytes are protected is derived by the specification from the pristine bytes. Larger containers are sampled."),
 "C05": ("fault_enumeration", "damage model checked exhaustively + altered real files read back, allowed outcomes decided by TLC",
         "Every byte of small real containers is altered with 9 masks (255 in thorough), plus ranges and several files at once; each structural observation must be the written one or an error, contents may only differ where their own bytes changed."),
 "C06": ("fault_enumeration", "SyncVec model (a decoder which fails: liveness) + damage enumeration on real files in isolated processes, outcomes judged by the Damage specification",
         "Bytes altered, ranges zeroed, truncation at every length, extension, files which are not Jubako files; debug and optimised builds; panics (any thread), aborts, signals and hangs are violations. The waiting of the readers on a decoder which fails is checked exhaustively (SyncVec, liveness)."),
 "C07": ("model_checking", "SyncVec specification checked exhaustively + traces of the real decoder/readers/cache validated by TLC",
         "All interleavings of the small model; recorded concurrent executions of the real code are validated step by step."),
 "C08": ("model_checking", "pipeline specification checked exhaustively (all schedules) + perturbed schedules of the real creator judged by TLC",
         "All schedules of the small model; the real workers are perturbed through the Progress callbacks and CPU affinity."),
 "C09": ("fault_enumeration", "atomic creation specification + crash or error injected at every system call of the real creator",
         "A child process is killed (or the call fails) at every file system call in turn; the state of the destination is judged by TLC."),
 "C10": ("model_checking", "packaging specification (worlds of files and packs) enumerated by TLC and realised on disk",
         "TLC enumerates packagings; each is realised with the real tools and must be read to the same logical container."),
 "C11": ("model_checking", "packaging specification (availability) enumerated by TLC and realised on disk",
         "TLC enumerates which packs are available and how; the real reader's answers are compared with the resolution function of the specification."),
 "C12": ("model_checking", "manifest specification: histories of rewrites generated by TLC and replayed on real manifests",
         "Histories of set_location are replayed on real files; every byte of the file and every reading is judged after each step."),
 "C13": ("model_checking", "view algebra specification: operation sequences generated by TLC and replayed on real regions",
         "Sequences of cut/slice/stream/conversion are replayed on uncompressed, compressed and file backed sources and every observation is judged."),
 "C14": ("translation_validation", "on-disk layout decoder written in TLA+ run by TLC on the bytes the creator wrote",
         "The specification decodes the raw bytes (layout, checksums, offsets, tables) and must recover the logical content; reference containers of the pinned version are read with the current reader."),
 "C15": ("model_checking", "sort-with-references design checked exhaustively; every terminal state replayed on the real creator",
         "All reference patterns of the small model are replayed; larger patterns are seeded. A pattern the design gives up on (no stable arrangement found) may fail to be created."),
 "C16": ("translation_validation", "placement rule of the ContentPack specification applied to the clusters decoded by the TLA+ layout decoder",
         "The cluster of each content is found by decoding the real file in TLA+ and its compression and bytes compared with the rule."),
}
COMMITS = ["3c10412"]


def main():
    checks, na = [], []
    for pid, (level, tech, note) in CHECKS.items():
        script = "checks/%s.py" % pid.lower()
        if os.path.exists(os.path.join(V, script)):
            checks.append({"property": pid, "quick_cmd": "python3 " + script, "thorough_cmd": "VERIF_TIER=thorough python3 " + script,
                           "evidence_file": "evidence/%s.json" % pid, "technique": T + tech, "level": level, "level_note": note})
        else:
            na.append({"property": pid, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
         "hooks": {"guard": "cfg(jubako_verif)", "enable": "RUSTFLAGS=--cfg jubako_verif", "source_commits": COMMITS},
         "checks": checks, "not_applicable": na,
         "notes": "Specifications in spec/ (TLA+, TLC). See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
