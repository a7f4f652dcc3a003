#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A failed memory allocation never corrupts anything",
 "When any memory allocation made inside an operation fails, the operation either stops with an out-of-memory panic or still returns the exact result; it never returns a wrong result, hangs, or damages memory. Afterwards every borrowed operand and every other live value still holds its value, an operand being updated in place holds its old value, the complete new value or zero, and no memory of the failed operation stays allocated. Repeating the operation once memory is available gives the exact result.",
 ["fault_sequences", "histories", "inputs", "configurations"],
 "every operation, every operand size class (one word up to thousands of words, all algorithm thresholds), every allocation the operation makes failing (once, from then on, by size, by budget, at random), every word size, any preceding history",
 "No test ever makes an allocation fail; the number of (operation, operand size, failing allocation) points is unbounded.",
 ["src/memory.rs", "src/buffer.rs", "src/ubig.rs", "src/ibig.rs", "src/mul/mod.rs", "src/div/mod.rs", "src/gcd.rs", "src/pow.rs", "src/modular/modulo.rs", "src/modular/pow.rs", "src/fmt/non_power_two.rs", "src/parse/non_power_two.rs"],
 [("allocation failure becomes a panic", "src/memory.rs MemoryAllocation::new"), ("in-place operators take the value out, compute, and put the result back", "src/add_ops.rs, src/mul_ops.rs, src/div_ops.rs"), ("scratch memory freed by Drop on unwind", "src/memory.rs")],
 ["public operators and methods of UBig, IBig, ModuloRing, Modulo", "the global allocator"],
 [("Repr/Buffer", "value representation: one inline word or a normalised word buffer", "src/ubig.rs")])

prop("C02", "Results never depend on what the memory allocator does",
 "The result of every operation is the same whatever the allocator hands out: whatever the old contents of the memory, wherever the blocks are placed, however little they are aligned beyond the requested alignment, and whether blocks move or are reused immediately. No operation reads or writes outside the blocks it was given or uses a block after releasing it, and every block is released exactly once with the layout it was requested with.",
 ["schedules", "histories", "inputs", "configurations"],
 "every operation and operand size across all algorithm thresholds, every allocator behaviour the allocator contract permits (dirty, poisoned or zeroed memory, minimal alignment, immediate reuse, quarantine, blocks against unmapped pages, growing in place or moving), every word size",
 "The tests run on one allocator that mostly returns 16-byte aligned, often zeroed memory, with slack after blocks and nothing checking accesses.",
 ["src/memory.rs", "src/buffer.rs", "src/mul/karatsuba.rs", "src/mul/toom_3.rs", "src/div/divide_conquer.rs", "src/gcd.rs", "src/modular/pow.rs", "src/modular/mul.rs", "src/rand.rs"],
 [("scratch blocks sized in advance by memory_requirement functions and carved into typed slices that are initialised before use", "src/memory.rs Memory::allocate_slice_*"), ("raw alloc/dealloc with a stored layout", "src/memory.rs MemoryAllocation")],
 ["public API results", "the global allocator"])

prop("C03", "Sharing values across threads never changes results",
 "Numbers, modular rings and modular values can be moved to and shared by reference between threads, and every operation then returns exactly what it returns when it runs alone, under every interleaving of the threads; shared operands never change. No interleaving deadlocks or makes an operation take unboundedly many steps.",
 ["schedules", "histories", "inputs"],
 "every interleaving of any number of threads running any operations over shared and private values, including threads that stall, fail an allocation or panic in the middle of an operation",
 "The tests are single-threaded per value; the number of interleavings is unbounded and a real scheduler reaches almost none of them.",
 ["src/ubig.rs", "src/ibig.rs", "src/buffer.rs", "src/memory.rs", "src/radix.rs", "src/modular/modulo_ring.rs", "src/modular/modulo.rs", "src/fmt/non_power_two.rs", "src/parse/non_power_two.rs"],
 [("no shared mutable state: values own their buffers, scratch memory is per call, tables are const", "src/memory.rs, src/radix.rs"), ("auto Send and Sync", "src/ubig.rs, src/modular/modulo_ring.rs")],
 ["public API results from concurrent threads"])

prop("C04", "Formatting into a failing writer stops cleanly",
 "Formatting any number in any supported radix and style into a writer delivers exactly the documented text: sign, prefix, padding, fill, alignment and digits. If the writer reports an error or panics after accepting some output, formatting passes that failure on, everything delivered before it is a prefix of the exact text, nothing is written after the failure, and the number and later formatting are unaffected.",
 ["fault_sequences", "inputs", "histories", "configurations"],
 "every number, radix 2 to 36, formatting trait and flag combination; every point at which a writer can fail or panic; every way the writer accepts text; every word size",
 "The tests format into Strings, which never fail, for a handful of numbers.",
 ["src/fmt/mod.rs", "src/fmt/digit_writer.rs", "src/fmt/non_power_two.rs", "src/fmt/power_two.rs", "src/modular/fmt.rs"],
 [("errors propagated with ? through every chunk", "src/fmt/non_power_two.rs, src/fmt/power_two.rs"), ("digits collected in a small buffer and flushed", "src/fmt/digit_writer.rs")],
 ["core::fmt::Write implementations passed by callers"])

prop("C05", "Damaged stored numbers are rejected, not fatal",
 "Reading a number back from stored or transmitted bytes that are truncated, torn, bit-flipped, extended, or carry any wrong length announcement or element type returns an error or a valid number; it never panics, hangs, or allocates memory out of proportion to the bytes actually present. Whatever is returned is a well-formed number that behaves like the same number built any other way, and errors of the byte source are passed on.",
 ["fault_sequences", "inputs", "configurations"],
 "every stream of serialized elements: every damage to a valid stream and every arbitrary stream, with exact, missing, understated and overstated length announcements, and a source error at every position; every word size",
 "The tests only deserialize well-formed token sequences they have just produced.",
 ["src/serde.rs"],
 [("sequence visitor for the magnitude", "src/serde.rs UBigVisitor::visit_seq"), ("(sign, magnitude) pair", "src/serde.rs Deserialize for IBig")],
 ["serde Deserializer / SeqAccess implementations passed by callers"])

prop("C06", "Stored numbers survive crash, restart and other word sizes",
 "A number written through any serialization format and read back later, by another process or by a build with a different word size, is the same number; its stored form is always the same sequence of 64-bit words, least significant first without leading zero words, preceded by the sign for signed numbers. If the serializer fails at any point the error is passed on, nothing more is written, the number is unchanged, and a store that was only partly written before a crash is never read back as a complete wrong number unless the bytes themselves spell one.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "every number, every format style (length-prefixed, self-delimiting, with and without size hints), every failing write, every crash point in a log of stored numbers with only durable bytes surviving, every pair of word sizes of writer and reader",
 "The tests round-trip a few small numbers in one process with one word size and a serializer that never fails.",
 ["src/serde.rs", "src/sign.rs"],
 [("words packed into u64 chunks, little-endian", "src/serde.rs Serialize for UBig"), ("sign and magnitude pair", "src/serde.rs Serialize for IBig")],
 ["serde Serializer and Deserializer implementations passed by callers"])

prop("C07", "Random numbers stay in range for every random source",
 "Sampling from a range returns a number inside the range for every stream of random words, however biased, and the same stream always gives the same number; an inverted or empty range is refused with a panic. Once the source delivers fair random words, sampling finishes within a bounded number of draws and every number of the range is equally likely, whatever came before. If the source fails or panics, the failure surfaces as a panic, nothing is leaked or damaged, and sampling works again afterwards.",
 ["fault_sequences", "inputs", "configurations"],
 "every range (unsigned and signed, half-open and inclusive, one word to hundreds of words, all-ones and power-of-two bounds), every random word stream including constant, adversarial, failing and panicking ones, every word size",
 "The tests use one good generator and a few ranges; rejection paths, stuck sources and failures are not reached.",
 ["src/rand.rs"],
 [("rejection sampling from the most significant word down", "src/rand.rs try_fill_uniform"), ("offset added to a uniform sample", "src/rand.rs UniformUBig::sample, UniformIBig::sample")],
 ["rand::RngCore implementations passed by callers", "Uniform, gen_range"])

prop("C08", "Values behave the same whatever their history",
 "After any sequence of operations - in place or not, by value or by reference, with clones, moves, buffer reuse, and operations that failed in between - every number is exactly the mathematical result, and every operation on it, including comparison, hashing, bit queries, conversion and formatting, depends only on that mathematical value and not on how the number was produced. By-value, by-reference and in-place forms of an operation agree.",
 ["histories", "inputs", "configurations"],
 "every sequence of public operations over any number of live values, with growth and shrinking across the inline/heap boundary and across algorithm thresholds, interleaved with failed operations, every word size",
 "The tests check single operations on freshly built values; histories are unbounded.",
 ["src/ubig.rs", "src/ibig.rs", "src/buffer.rs", "src/add_ops.rs", "src/mul_ops.rs", "src/div_ops.rs", "src/bits.rs", "src/shift_ops.rs", "src/cmp.rs", "src/convert.rs", "src/sign.rs"],
 [("single canonical form: inline word, or buffer without leading zero words", "src/ubig.rs From<Buffer> for UBig"), ("buffers reused by in-place and by-value forms", "src/add_ops.rs, src/shift_ops.rs, src/bits.rs"), ("no negative zero", "src/ibig.rs")],
 ["public API of UBig and IBig"],
 [("Repr", "inline word or heap buffer", "src/ubig.rs"), ("sign", "sign of an IBig, positive for zero", "src/ibig.rs")])

prop("C09", "Modular values stay bound to their ring through any history",
 "After any sequence of modular operations - in place or not, clones assigned over values of other rings, failed inverses and divisions, failed allocations and rejected mixes of rings - every modular value belongs to the ring it was last assigned from and represents the exact residue in the range from zero up to the modulus. Mixing values of different rings always panics and dividing by a non-invertible value always panics, leaving all values and rings intact and usable; equality of two values of one ring holds exactly when their residues are equal.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "every sequence of modular operations over any number of rings (one-word, multi-word, equal moduli in distinct rings) with failing operations and allocations at any point, every word size",
 "The tests use a few moduli, one or two rings and no failures.",
 ["src/modular/modulo.rs", "src/modular/modulo_ring.rs", "src/modular/convert.rs", "src/modular/add.rs", "src/modular/mul.rs", "src/modular/div.rs", "src/modular/pow.rs", "src/modular/cmp.rs", "src/modular/fmt.rs"],
 [("each value holds a reference to its ring, compared by address", "src/modular/modulo.rs check_same_ring_*"), ("values kept normalised (shifted) and reduced", "src/modular/modulo.rs")],
 ["public API of ModuloRing and Modulo"],
 [("normalized_value", "residue shifted left by the ring's shift, always below the normalised modulus", "src/modular/modulo.rs")])

prop("C10", "Memory held and used stays proportional to the numbers",
 "Whatever the history, a number that fits in one machine word holds no heap memory and a longer number of n words holds one block of at most n + n/4 + 4 words (never more than the largest number allows); nothing else stays allocated once an operation ends, and everything is released when values are dropped. While an operation runs, the memory it has allocated never exceeds a fixed multiple (16 times, plus 64 KiB) of the sizes of its operands and results (a modular power may in addition hold a table of fewer powers of its base than its exponent has bits), so it succeeds whenever that much memory is available.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every sequence of operations that grow and shrink values, every operand size up to thousands of words, memory budgets just large enough, every word size",
 "Only a few capacity unit tests on single buffers exist; nothing measures memory over histories or during operations.",
 ["src/buffer.rs", "src/ubig.rs", "src/memory.rs", "src/mul/mod.rs", "src/div/mod.rs", "src/shift_ops.rs", "src/bits.rs"],
 [("shrink when the capacity is not compact", "src/buffer.rs Buffer::shrink, resizing_clone_from"), ("scratch memory freed at the end of the operation", "src/memory.rs")],
 ["the global allocator", "public API"])

prop("C11", "A panic in caller-supplied code leaves everything intact",
 "If code supplied by the caller and called in the middle of an operation - a random source, a writer, a serializer or deserializer, a hasher - panics at any call, the panic reaches the caller, all numbers involved keep their values and stay usable, and no memory is leaked, freed twice or damaged. Repeating the operation with well-behaved code then gives the exact result.",
 ["fault_sequences", "histories", "inputs", "configurations"],
 "every operation that calls caller-supplied code, every call number at which that code panics, any preceding history, every word size",
 "The tests never pass code that panics.",
 ["src/rand.rs", "src/serde.rs", "src/fmt/mod.rs", "src/fmt/digit_writer.rs", "src/fmt/non_power_two.rs", "src/fmt/power_two.rs", "src/ubig.rs", "src/ibig.rs"],
 [("buffers and scratch memory owned by values with Drop", "src/buffer.rs, src/memory.rs"), ("no unsafe state held across callbacks", "src/rand.rs, src/fmt/digit_writer.rs")],
 ["traits RngCore, fmt::Write, Serializer, Deserializer, Hasher implemented by callers"])

prop("C12", "Refused operations are reported as documented and change nothing",
 "An operation that cannot be carried out - division by zero, subtraction below zero in an unsigned number, a result larger than the maximum size, a conversion out of range, malformed text, an invalid radix or modulus - is reported by the documented panic or error, and an operation that can be carried out is never refused, right up to the maximum size (malformed text longer than any number may be refused for its length). After a refusal every borrowed operand keeps its value, an operand updated in place holds its old value or zero, nothing is leaked, and all values remain usable in any later operation.",
 ["fault_sequences", "histories", "inputs", "configurations"],
 "every operation that can be refused, operands on both sides of every limit (including results of exactly the maximum size in the build whose maximum is 65536 bits), by value, by reference and in place, at any point of a history, every word size",
 "The tests have should_panic cases that end at the panic and never look at the state left behind, and no test goes near the size limit.",
 ["src/ubig.rs", "src/buffer.rs", "src/add_ops.rs", "src/div_ops.rs", "src/shift_ops.rs", "src/pow.rs", "src/mul_ops.rs", "src/bits.rs", "src/convert.rs", "src/parse/mod.rs", "src/parse/power_two.rs", "src/parse/non_power_two.rs", "src/radix.rs", "src/error.rs"],
 [("size limit checked when buffers are allocated and when results are normalised", "src/buffer.rs Buffer::allocate, src/ubig.rs From<Buffer>"), ("explicit panics for zero divisors and negative results", "src/div_ops.rs, src/add_ops.rs")],
 ["public API of UBig, IBig and the error types"])

prop("C13", "The library may be used by code it calls",
 "Code that the library calls in the middle of an operation - a writer, serializer, deserializer, hasher, random source or panic hook - may itself use the library in any way, including on the numbers and modular values being read at that moment. Both the interrupted operation and the operations inside it give exactly what they give alone, and nothing panics, deadlocks or is shared between them by accident.",
 ["histories", "schedules", "inputs", "configurations"],
 "every operation that calls caller-supplied code, every call at which that code uses the library, every operation it may run there, any preceding history, every word size",
 "The tests never use the library from inside a callback; scratch space, caches or locks kept across operations would go unnoticed.",
 ["src/rand.rs", "src/serde.rs", "src/fmt/mod.rs", "src/fmt/digit_writer.rs", "src/fmt/non_power_two.rs", "src/fmt/power_two.rs", "src/modular/fmt.rs", "src/memory.rs", "src/radix.rs"],
 [("no state outside the values and the running call", "src/memory.rs, src/fmt, src/radix.rs"), ("callbacks run with all operands borrowed in the ordinary way", "src/fmt/digit_writer.rs, src/rand.rs, src/serde.rs")],
 ["traits RngCore, fmt::Write, Serializer, Deserializer, Hasher implemented by callers", "the panic hook"])

prop("C14", "Every operation finishes within the work its algorithm needs",
 "Every operation takes a number of steps bounded by a small multiple of what the algorithm it is built on needs for operands of that size, whatever their values, however they came about, and whether or not the operation is stopped half way by a fault: linear in the operands for additions, comparisons, shifts, bit operations, byte and hash conversions, power-of-two radixes and reading or storing; sub-quadratic (Karatsuba and Toom-Cook multiplication, divide and conquer for division, parsing and printing) for multiplication, division, other radixes and powers; one multiplication and reduction per exponent bit, and a third more, for modular powers; a small multiple of the bits of the smaller operand times the size of the larger for greatest common divisors and modular inverses.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "every operation, operand sizes up to thousands of words, balanced and unbalanced, every value pattern and history, every word size",
 "Tests check results, not how long they take, and on short operands a quadratic algorithm is as good as any.",
 ["src/mul/mod.rs", "src/mul/karatsuba.rs", "src/mul/toom_3.rs", "src/div/mod.rs", "src/div/divide_conquer.rs", "src/parse/non_power_two.rs", "src/fmt/non_power_two.rs", "src/pow.rs", "src/modular/pow.rs", "src/gcd.rs", "src/shift.rs", "src/buffer.rs"],
 [("algorithm chosen by operand length", "src/mul/mod.rs, src/div/mod.rs"), ("chunked conversions", "src/parse/non_power_two.rs, src/fmt/non_power_two.rs")],
 ["public API of UBig, IBig, ModuloRing, Modulo"])

prop("C15", "Operations fit in a small stack",
 "No operation uses more than 32 KiB of stack, however long its numbers, whatever their values and history, and also when it is refused or stopped by a failing allocation or by the caller's code: recursion is at most logarithmic in the size, and temporary numbers live on the heap.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "every operation, numbers from zero to tens of thousands of words, any history and fault, every word size",
 "Tests run short numbers on threads with megabytes of stack.",
 ["src/mul/karatsuba.rs", "src/mul/toom_3.rs", "src/div/divide_conquer.rs", "src/parse/non_power_two.rs", "src/fmt/non_power_two.rs", "src/memory.rs", "src/pow.rs", "src/modular/pow.rs", "src/serde.rs"],
 [("scratch memory on the heap", "src/memory.rs"), ("recursion halves (or thirds) the length", "src/mul, src/div/divide_conquer.rs, src/parse/non_power_two.rs, src/fmt/non_power_two.rs")],
 ["public API of UBig, IBig, ModuloRing, Modulo"])

def na(id, title, statement, over, text, why, files):
    prop(id, title, statement, over, text, why, files, [("algorithm", files[0])], ["public API"])
na("C20", "Arithmetic is exact for every pair of operands",
 "Addition, subtraction, multiplication, division with remainder (truncated and Euclidean), powers and roots of the ring axioms hold exactly for all pairs of integers of any size and sign, with primitives on either side.",
 ["inputs"], "every pair of operands", "Tests sample operands; carries and quotient-digit corrections at rare operand patterns are not reached.",
 ["src/add.rs", "src/mul/mod.rs", "src/div/mod.rs", "src/pow.rs"])
na("C21", "Text round-trips in every radix",
 "Parsing the text of a number in any radix from 2 to 36 gives back the number, and text is accepted exactly when it is a well-formed numeral.",
 ["inputs"], "every number, radix and text", "Tests sample numbers and texts.", ["src/parse/mod.rs", "src/fmt/mod.rs", "src/radix.rs"])
na("C22", "Conversions to and from primitives and floats are exact",
 "Conversions to and from primitive integers succeed exactly when the value fits and preserve it; conversions to floats round to nearest, ties to even; byte strings round-trip in both byte orders.",
 ["inputs"], "every value and type", "Tests sample values.", ["src/convert.rs", "src/primitive.rs"])
na("C23", "Signed bit operations follow two's complement",
 "Bitwise operations and shifts on signed numbers give the result of infinite two's complement arithmetic.",
 ["inputs"], "every operand pair", "Tests sample operands.", ["src/bits.rs", "src/shift_ops.rs"])
na("C24", "gcd and extended gcd are exact",
 "The greatest common divisor divides both operands, every common divisor divides it, and the extended form returns coefficients satisfying Bezout's identity.",
 ["inputs"], "every operand pair", "Tests sample operands.", ["src/gcd.rs"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
