#!/usr/bin/env python3
"""Writes MANIFEST.json (the texts live here)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hooks = ["e255dd2", "bff1a05"]
hooks = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() for h in hooks]
T = {
 "C01": ("online monitor: plain-array model beside every access and the whole stored database", "random histories of single accesses; every response and, on sampled steps, every stored cell is decrypted with the monitor's own arithmetic and compared with a model array"),
 "C02": ("online monitor: sequential model of multi-query calls", "random histories of multi-query calls with repeated items; answers are compared with the state before the call, the database with the writes applied in order"),
 "C03": ("online monitor: model of batched access over all replicas", "random histories of batched calls over several hash counts; every requested item and all replicas of all items are compared with the model"),
 "C04": ("monitor over the stored database after setup", "every cell of every generated database is decrypted through the owner's own hash and compared with the reported plaintexts"),
 "C05": ("monitor over query ciphertexts: decryption, shape, freshness and mask statistics", "statistical claims are limited to mask uniformity, repetition and noise size; computational security is assumed of the scheme"),
 "C06": ("trace checker over hook events and allocations; snapshot comparison", "operation traces of single-threaded runs of paired queries must be equal; every stored ciphertext must change"),
 "C07": ("differential monitor over pool sizes with injected delays", "responses and databases of runs of the same queries on 1..16 threads, with delays at the parallel steps, are compared bit by bit (the transform plan is fixed per process)"),
 "C08": ("bounded-progress monitor: completion, CPU budget and sleep-state watchdog under injected delays", "a call is declared stuck only if every thread sleeps for 25 s or it burns far more CPU than its reference run"),
 "C09": ("counting allocator: live and peak bytes per call", "bounds are a fixed multiple of database, queries and threads"),
 "C10": ("AddressSanitizer, MemorySanitizer, ThreadSanitizer and overflow/debug-assertion builds of all workloads", "clean on the executions observed; Miri is discussed in DESIGN.md"),
 "C11": ("round-trip monitor with an independent decryption", "random plaintexts, moduli, ring sizes, noise levels, dirty outputs"),
 "C12": ("exhaustive and boundary-driven oracle over encoders", "all moduli up to 2^12 exhaustively over residues, boundary errors around each half step"),
 "C13": ("differential monitor against schoolbook ring arithmetic", "bit-exact comparison for integer operations; floating-point products within a bound"),
 "C14": ("monitor of phases against exact products, 13-sigma bound", "every gadget row, product and selection is measured with the monitor's own arithmetic"),
 "C15": ("monitor of phases before and after key switching and substitution", "all decompositions drawn at random, all k of the generated set"),
 "C16": ("monitor of phases of traces and of all expanded rows", "as C14; expansions by three routes"),
 "C17": ("monitor of extracted and converted coefficients", "every coefficient of small rings, boundary coefficients of large ones"),
 "C18": ("monitor of comparison results over all pairs of small rings", "N=32 and 64 exhaustively, boundary and random pairs above"),
 "C19": ("one-hot oracle on demultiplexed outputs", "all indices of small depths, random beyond"),
 "C20": ("differential monitor: encrypted evaluation against an independent tree interpreter", "random trees and features, every sibling result checked"),
 "C21": ("model-based monitor of tree bookkeeping", "random trees through build, JSON, flatten, counting against an independent implementation"),
 "C22": ("invariant monitor of placements", "random permutations and request sets; a refusal must be justified by the greedy rule's failure"),
 "C23": ("process monitor: parses every output line of the built binary", "runs of the real binary over option and file combinations; values are compared with the request"),
 "C24": ("cross-process monitor of randomness", "fresh processes and contexts must never share masks or keys when secure, and reproduce all when not"),
 "C25": ("oracle with planted noise", "noise polynomials of known size are planted in ciphertexts built by the monitor"),
 "C26": ("statistical monitor of noise variance against a prediction", "measured over thousands of errors per operation; 7-sigma statistical tolerance and 0.5 bit systematic"),
 "C27": ("fault-injection monitor: refused requests followed by a full state comparison", "invalid requests of each documented kind; the database must be unchanged and the server usable"),
 "C28": ("online monitor: sequential array model over reordered, replayed and mixed calls", "queries made ahead by several clients are processed later in random orders by all three kinds of calls; each response and the whole stored database are compared with the model after each call"),
 "C29": ("property-based monitor with independent reimplementations", "random tables, bit polynomials, CSV files and parameter lists; every returned element is compared"),
 "C30": ("timing monitor under injected delays at hook events", "a delay is injected at a drawn product of the answering phase and at the first database write; the reported time must contain the first and exclude the second, whatever the machine's speed"),
}
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup",
     "hooks": {"guard": "--cfg panacea_verif", "enable": "RUSTFLAGS='--cfg panacea_verif' (set by tools/check.py for the harness builds)", "source_commits": hooks},
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t[0], "level": "exploration", "level_note": "Held on the executions observed, not proved: " + t[1]} for p, t in T.items()],
     "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
