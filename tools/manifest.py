#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Executions of the real crates, built from /repo's working tree with overflow checks, under generated workloads; "
          "what was not executed is not covered. Trusted: the harness's own model of the specification, rustc.")
T = {
 "C01": ("runtime monitoring: panic, progress and cursor monitors over hostile decodes", "Every wire type decodes random, mutated, truncated and hostile bytes."),
 "C02": ("runtime monitoring: round-trip monitor against an independent codec model", "Values and byte strings of every wire type, boundary sizes included."),
 "C03": ("runtime monitoring: canary-guarded destinations of every length", "Every destination length up to the encoding plus a margin for generated values of every type."),
 "C04": ("runtime monitoring: differential monitor against an independent encoder of the TPM 2.0 layout", "Both directions, for every wire type."),
 "C05": ("runtime monitoring: error-kind monitor over truncated and corrupted encodings", "Every truncation point and every count and selector field of generated encodings."),
 "C06": ("runtime monitoring: online model (bounded sequence) checked after each operation of random histories", "Operation histories on buffers and lists of all capacities."),
 "C07": ("runtime monitoring: monitor of wrap/unwrap with stale bytes and truncations", "Generated public, creation and sensitive structures up to maximum sizes."),
 "C08": ("runtime monitoring: recording connection, trace compared with an independent framing", "All commands of the library and user-defined ones, sizes around the buffer limit, failing connections."),
 "C09": ("runtime monitoring: hostile connection, result compared with an independent response parser", "Mutated, truncated, extended and random responses; each repeated with different undelivered bytes."),
 "C10": ("runtime monitoring: recorded session calls checked against an ordering specification", "Zero to three sessions with scripted acceptance; all attribute bytes of the password session."),
 "C11": ("runtime monitoring: scripted TCP peer with fragmentation, delays and faults; trace specification", "Real sockets on loopback."),
 "C12": ("runtime monitoring: scripted TCP peer, every step failed in turn; trace specification", "Every operation with a fault at every step of its protocol."),
 "C13": ("runtime monitoring: stand-in simulator processes with injected faults; process and socket observations", "Real processes and sockets in a scratch directory."),
 "C14": ("runtime monitoring: response monitor against an independent model of the server", "Valid, mutated, truncated and random requests and all response buffer sizes around the limits."),
 "C15": ("runtime monitoring: differential monitor of the two execution modes with canaries and bounds-recording buffers", "Same requests in both modes and with two buffer implementations."),
 "C16": ("runtime monitoring: recording entropy source and DRBG with faults at chosen calls; online trace checker", "Histories with failing instantiate, reseed and generate calls."),
 "C17": ("runtime monitoring: recording generators with injected errors; trace comparison", "All block sizes and lengths around block boundaries."),
 "C18": ("runtime monitoring: all 2^32 codes observed against the specification's layout", "The conversions of every code value are executed."),
 "C19": ("runtime monitoring: all 2^32 values observed against the specified ranges", "Every 32-bit value is executed."),
 "C20": ("runtime monitoring: round-trip and size monitor over several limit configurations", "Generated values, truncations and every 16-bit algorithm id."),
 "C21": ("runtime monitoring: observed values and encodings compared with a table of the specification", "Every published constant is read and encoded at run time."),
 "C22": ("sanitizers: Miri and AddressSanitizer on the monitored workloads", "The workloads of the other properties, smaller under Miri; TCP code only under AddressSanitizer."),
 "C23": ("runtime monitoring: derived codecs of fixed and randomly generated user types against a model", "A fixed family of user types and randomly generated definitions."),
 "C26": ("runtime monitoring: the macros run on generated definitions, outcome (code, diagnostic, panic) observed per definition", "Generated definitions of each unsupported form next to supported ones, and random attributes; the macros run inside the compiler."),
 "C27": ("runtime monitoring: transcripts of the same workload on other hosts (interpreted), in another build profile and without optional features, compared observation by observation; the other monitors on the optimised build", "Every public operation without sockets on an interpreted big-endian and 32-bit host; everything in an optimised build without assertions; everything but TCP in a build without optional features."),
 "C28": ("runtime monitoring: recording allocator, painted stacks, and a freestanding program confined to read, write and exit whose transcript is compared with the hosted one", "Every public operation without sockets, driven by generated, damaged and random byte strings; one machine architecture."),
 "C29": ("runtime monitoring: pairs of values compared by ==, hash and encoding", "Every wire type; values built, decoded, copied and made by every constructor, near each other and far apart."),
 "C24": ("runtime monitoring: recorded wire of client-server histories, offline check of both ends", "Direct and over TCP."),
 "C25": ("runtime monitoring: concurrent and interleaved histories compared with each history alone", "Schedules vary with injected yields; data races are the business of C22."),
}
FAULT = {"C12", "C13", "C16"}
checks, na = [], []
for p in sorted(T):
    if p == "C22" and not os.path.exists(os.path.join(ROOT, "sanitize.py")):
        na.append({"property": p, "reason": "the sanitizer runs are being built"})
        continue
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
                   "technique": t, "level": "fault_enumeration" if p in FAULT else "exploration", "level_note": n + " " + COMMON})
json.dump({"version": 1, "setup_cmd": "python3 run.py build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the monitors observe the public interfaces."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
