#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 "C01": ("deterministic simulation: seeded operation histories over a simulated allocator with failing allocations, exact reference model",
         "Seeded search: every k-th allocation inside sampled operations fails in turn (first 24 points each, then growing strides), plus single, onward, size-limited, budgeted and random failures; results, operands, heap and leaks are checked after every failure and a repeat must be exact. A clean run is evidence, not proof; trusts the reference arithmetic and the simulated allocator."),
 "C02": ("deterministic simulation: the same seeded history under several simulated allocators (placement, contents, reuse, movement), outcomes compared",
         "Each history runs under three seeded allocator plans plus guard bytes, poisoned and scrambled memory, layout checks and read-after-free detection by contents; equality of all outcomes. Reads of foreign memory that never influence an outcome are not seen."),
 "C03": ("deterministic simulation: real threads under a seeded scheduler with preemption at every edge and memory access of the code under test, oracle per thread",
         "Seeded schedules (geometric, priority with change points, hot points, stalls) of 2 to 5 threads sharing values; sequentially consistent interleavings only, weak-memory effects are not simulated. Moving and sharing (Send, Sync) is decided by compiling a probe."),
 "C04": ("deterministic simulation: formatting into simulated writers that fail or panic at any call or byte, exact text from the reference model",
         "Every write call (or byte capacity) of sampled formatting operations fails in turn or at random; delivered text compared with an independent formatter."),
 "C05": ("deterministic simulation: reading from simulated byte sources with torn, flipped, truncated and lying data, memory accounted",
         "Seeded damage to stored forms in four simulated formats, wrong length announcements, wrong element types, failing sources; outcome, memory in proportion to bytes present, and the value afterwards are checked."),
 "C06": ("deterministic simulation: simulated disk with crash, torn and lost writes; same history in builds with 16-, 32- and 64-bit words compared",
         "Append, sync, crash, restart histories; bytes compared with an independent encoder and between builds of different word sizes; durable records must read back exactly."),
 "C07": ("deterministic simulation: sampling from simulated random sources (biased, stuck, failing, fair), range, determinism, step bound and chi-square checks",
         "Range, repeatability and boundedness are exact checks per scenario; uniformity is a chi-square test with a bound far above chance on fair seeded streams, so gross bias only (about 3000 samples per range)."),
 "C08": ("deterministic simulation: long seeded histories of operations with failures in between, refinement against a reference model after every step",
         "Every value is compared with the model and its canonical form, representation and observers after every operation; in-place, by-value and by-reference forms drawn at random."),
 "C09": ("deterministic simulation: seeded histories of modular operations over several rings with failed allocations, inverses and mixes, reference model",
         "Residues, rings, equality and refusals compared with the model after every operation, with allocation failures inside operations."),
 "C10": ("deterministic simulation: simulated allocator accounts live and peak memory of every operation of a seeded history",
         "Blocks held by each value, leaks and the peak of each operation are checked exactly against the stated bounds; budget faults show that the bound suffices."),
 "C11": ("deterministic simulation: caller-supplied code (random source, writer, serializer, deserializer, hasher) panics at every call in turn",
         "Seeded histories; every call of the caller's object panics in turn; survival of all values, heap and exact repeat are checked."),
 "C12": ("deterministic simulation: seeded histories of operations that must be refused, limits approached from both sides in a build whose limit is 65536 bits",
         "Each refusal must happen exactly when the model says so, be of the documented kind, and leave everything intact. Three recorded findings near the size limit are tolerated by signature (known-findings.txt)."),
 "C13": ("deterministic simulation: caller-supplied code and the panic hook use the library at seeded calls in the middle of operations, every result compared with the model",
         "Seeded histories; at every call, or at every few, the writer, serializer, source, hasher, random source or panic hook runs complete computations with known results, on fresh numbers and on those being read. Both sides must be exact; a panic, a deadlock (step limit) or a wrong result is a violation."),
 "C14": ("deterministic simulation: steps (instrumented control-flow edges) of every operation of a seeded history with faults counted, bounded progress checked against a cost model",
         "Bound is three times a model of the algorithms the code names; the largest ratio seen on the unchanged tree is about one and a half. Slowdowns below three times pass, and so do worse exponents that do not show at the sizes used (thousands of words)."),
 "C15": ("deterministic simulation: stack below each operation of a seeded history with faults painted and measured",
         "High-water mark of the stack measured exactly for every operation run, up to 512 KiB; the bound is 32 KiB and the largest use seen about 7 KiB. An operation that overruns the stack altogether kills the simulator, which is reported as well."),
}
NA = "a pure function of its input: no schedule, clock, fault, crash or caller object takes part, so simulation would be input generation under another name"
m = {
 "version": 1,
 "setup_cmd": "python3 check.py build n64 b16 i686 n64t n64r",
 "checks": [
  {"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough", "evidence_file": f"evidence/{p}.json",
   "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in T.items() if p not in SKIP] if (SKIP := set(__import__("sys").argv[1:])) or True else [],
 "not_applicable": [
  {"property": "C20", "reason": NA + " (the histories of C08 and C01 still check results of arithmetic along the way)"},
  {"property": "C21", "reason": NA},
  {"property": "C22", "reason": NA},
  {"property": "C23", "reason": NA},
  {"property": "C24", "reason": NA},
 ] + [{"property": p, "reason": "check under construction"} for p in sorted(SKIP)],
 "notes": "No hooks in /repo: the seams are the global allocator, the rand/serde/fmt/hash traits, futex calls and compiler instrumentation of the library, all outside /repo. See DESIGN.md. Replay a failure with: python3 check.py replay FILE",
}
json.dump(m, open(__import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../MANIFEST.json", "w"), indent=1)
