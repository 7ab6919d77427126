#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import CFG  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=observe or ["public API"], hook_needed=None)), technique, note))


HIST = "explicit-state model checking: every history of stream operations within the bounds is run on the real code in lockstep with a reference model"
LANE = "explicit-state model checking: exhaustive enumeration of lane states against a scalar reference model, every state replayed on the real code"
NOTE_H = "Exhaustive within the stated bounds on lengths, positions and operation words, on three instruction sets; trusts the reference model, the guard pages and rustc."
NOTE_L = "Exhaustive over 8-bit lanes, over boundary alphabets for wider lanes, at every lane position, on three instruction sets; trusts the scalar reference and rustc."

prop("C01", "Mapping a stream applies the function to each element once, in order",
     "Collecting a mapped SIMD stream, as scalars or as vectors, yields exactly the results of applying the function to every remaining element, in order and once each, for every input length, every starting position and every mix of whole and partial vectors. Padding lanes that complete the last partial vector carry the stream's declared default and never appear among the collected elements. The input is left as it was.",
     ["inputs", "histories"], "every element type, stream kind (slices, vectors, mutable slices, lazy maps, strides), length, position and sequence of earlier movements",
     "The tests map a few lengths (mostly 3 and 128) from position 0; remainders, positions in mid vector and interleavings of next/end/advance are not reached.",
     ["src/into_iters.rs", "src/iters.rs"], [("SIMDIterator::simd_map / SIMDMap", "src/iters.rs"), ("scalar_collect, collect", "src/iters.rs"), ("next/end/default", "src/into_iters.rs")], HIST, NOTE_H)
prop("C02", "Reducing a stream visits every element once, padded only with the default",
     "A reduction or a do_each over a SIMD stream hands the closure every remaining element exactly once and in order, in full vectors followed by at most one padded vector. The lanes that pad the last vector hold exactly the default the stream was given (mapped through any lazy maps), in the places after the last element. The accumulator is threaded through in order and returned, and an empty stream returns the start value without calling the closure.",
     ["inputs", "histories"], "every element type, stream kind, length, position and sequence of earlier movements",
     "The tests reduce one or two lengths with one default; which lanes are padded, and after what history, is never observed.",
     ["src/iters.rs", "src/into_iters.rs"], [("simd_reduce / simd_do_each", "src/iters.rs"), ("end", "src/into_iters.rs")], HIST, NOTE_H)
prop("C03", "In-place mapping changes each remaining element once and nothing else",
     "Running simd_for_each over a mutable stream replaces every remaining element by the function's result for it, in order, for every length and position. Elements before the position, memory on either side of the slice and the padding lanes of the last partial vector are never written back. The closure sees the original elements, and the stream's default in the padding lanes.",
     ["inputs", "histories"], "every element type, mutable stream kind, length, position and sequence of earlier movements",
     "The tests mutate one buffer of one or two lengths and do not look beside it.",
     ["src/iters.rs", "src/into_iters.rs"], [("simd_for_each", "src/iters.rs"), ("SIMDIterMut", "src/iters.rs")], HIST, NOTE_H)
prop("C04", "Filling a buffer writes exactly the stream's elements and never outside it",
     "Filling a slice from a SIMD stream writes the stream's remaining elements, in order, to the front of the slice and leaves the elements after them alone; it never writes outside the slice, and a slice that is too short makes it panic. The _all variants write every lane of every vector, padding included, under the same rule. The slice or vector returned covers what was written.",
     ["inputs", "histories"], "every element type, stream kind, source length, destination length, position and sequence of earlier movements",
     "The tests fill destinations that fit; short destinations and the bytes next to them are not looked at.",
     ["src/iters.rs", "src/into_iters.rs"], [("scalar_fill, fill, collect_all", "src/iters.rs"), ("SIMDArray::store", "src/vecs.rs")], HIST, NOTE_H)
prop("C05", "A stream's position, length and end agree with what it delivers",
     "After any sequence of taking vectors, taking the end, taking scalars and advancing, a stream delivers exactly the elements from its position on: whole vectors while they last, then one padded remainder with the number of real elements in it, then nothing, for good. Its reported positions and lengths, in scalars and in vectors, and its size hint always agree with what it goes on to deliver. Advancing past the end leaves an empty stream.",
     ["inputs", "histories"], "every stream kind (including scalar streams adapted to SIMD), length and word of operations up to the bound",
     "The tests drain each stream one way, from the start; they do not mix operations nor query between them.",
     ["src/iters.rs", "src/into_iters.rs"], [("SIMDIterator::next/end/advance", "src/iters.rs"), ("ExactSizeIterator", "src/iters.rs"), ("scalar_pos, vector_pos, scalar_len, vector_len", "src/iters.rs"), ("SIMDAdapter", "src/iters.rs")], HIST, NOTE_H)
prop("C06", "Zipped streams advance in lockstep and deliver matching elements",
     "Zipping two or more streams yields, at every step, one vector from each, and lane i of every component always belongs to the same element index. This holds for every arity, element type, length, position, mixture of stream kinds and sequence of next, end and advance, including the padded remainder, where each component carries its own default. Positions and lengths of the zip are those of its components.",
     ["inputs", "histories"], "arity 2 to 13, every element type, mixed stream kinds, every length, position and operation word up to the bound",
     "The tests zip a few fixed lengths with arities 2 to 4 from the start.",
     ["src/zip.rs"], [("SIMDZip, SIMDZipMap, simd_map, simd_reduce, do_each", "src/zip.rs")], HIST, NOTE_H)
prop("C07", "Zipping refuses streams whose lengths or widths differ",
     "Zipping streams with different numbers of elements, or with different vector widths, panics before anything is delivered, whichever component is the odd one and at every arity. Streams of equal length and width are always accepted.",
     ["inputs", "configurations"], "all tuples of lengths and element types up to the bound at every arity",
     "The tests check two or three mismatching pairs.",
     ["src/zip.rs"], [("IntoSIMDZip::zip", "src/zip.rs")], HIST, NOTE_H)
prop("C08", "Strided streams partition the sequence without reading outside it",
     "Splitting a sequence into n strided streams makes stream k deliver exactly elements k, k+n, k+2n, ... of every complete group of n, in order, with its own default in the padding, for every length, position and operation sequence. No memory outside the sequence is touched. The streams together cover every complete group once.",
     ["inputs", "histories"], "stride counts 1 to 16, every element type, length and operation word up to the bound",
     "The tests use strides 2 to 5 on lengths that divide evenly, and cannot see a read past the end.",
     ["src/stride.rs", "src/vec_patterns.rs", "src/vecs.rs"], [("PackedStride, stride, stride_two...", "src/stride.rs"), ("gather_unchecked", "src/vecs.rs")], HIST, NOTE_H)
prop("C09", "Pairing up a stream's neighbours keeps every pair once and in order",
     "A stream taken in adjacent pairs delivers two components, the first and the second elements of every complete pair counted from where the stream stood, with lane i of both from the same pair, for every length, starting position and sequence of next, end and advance. The remainder is padded with the stream's default, and reported positions and lengths count pairs from the start. Nothing outside the underlying sequence is read.",
     ["inputs", "histories"], "element types that can be paired, starting positions, lengths, underlying stream kinds and operation words up to the bound",
     "The tests pair one length from position 0.",
     ["src/stride_zip.rs", "src/intrin/destride.rs"], [("StrideZip", "src/stride_zip.rs"), ("destride_two", "src/intrin/destride.rs")], HIST, NOTE_H)
prop("C10", "Maps that change the lane width keep every element once and in order",
     "Mapping a stream, or a zip of streams, to vectors with more or fewer lanes, of the same or of another total size, and collecting or filling yields exactly the lanes the function produced for the elements, in order, as long as they make whole result elements, with no padding and nothing dropped. Reinterpreting vectors keeps the bytes of the elements, and mapping back restores the original sequence. The destination is never overrun.",
     ["inputs"], "pairs of element types and vector sizes, every length that makes whole result elements, collected and filled",
     "The tests reinterpret one or two lengths.",
     ["src/iters.rs", "src/zip.rs", "src/intrin/transmute.rs"], [("SIMDMap with a different result width", "src/iters.rs"), ("SIMDZipMap with a different result width", "src/zip.rs"), ("be_*", "src/intrin/transmute.rs")], HIST, NOTE_H)
prop("C11", "Unrolling and packing hand over every vector once and in order",
     "Iterating a stream in unrolled batches, or unpacking it, delivers each of its vectors exactly once and in order, in full batches and then the rest, with the padded remainder last. Packing into and unpacking out of a sequence are inverse. No vector is skipped, repeated or invented, for every length, position and batch size, and a batch keeps its vectors for as long as it is held.",
     ["inputs", "histories"], "element types, stream kinds, lengths, positions, batch sizes",
     "The tests unroll one length by one factor.",
     ["src/iters.rs"], [("Unpacked/unpack, Pack, Unrolled", "src/iters.rs")], HIST, NOTE_H)
prop("C12", "The safe interface never touches memory outside what it was given",
     "No sequence of safe calls on arrays, vectors and streams reads or writes outside the memory of their operands: every load, store, lane access, stride, fill and partial vector at any offset or length, up to the largest representable, either works within bounds or panics. This holds in debug and in release builds. A call that panics leaves the memory around its operands untouched.",
     ["inputs", "histories", "configurations"], "every offset and length near each boundary (0, the length, the width, the largest integers), every element type, both profiles",
     "An access outside the buffer is invisible to a unit test unless it happens to crash, and debug assertions hide what release builds do.",
     ["src/vecs.rs", "src/into_iters.rs", "src/iters.rs", "src/stride.rs"], [("SIMDArray::load/store", "src/vecs.rs"), ("Packed::load/store/extract/replace", "src/vecs.rs"), ("next/end bounds", "src/into_iters.rs")], "explicit-state model checking: every offset/length state near the boundaries, run on the real code between guard pages", NOTE_H)
prop("C13", "Loading, storing and editing lanes acts on exactly the lanes named",
     "Loading a vector takes the consecutive elements at the offset into lanes in order, storing writes them back to the same places, and splat, extract, replace, default and the scalar reduction and product read or write exactly the lanes they name. Every element type and every vector size behaves the same way. All other lanes and all other memory keep their values, bit for bit.",
     ["inputs"], "every vector type and size, offset, lane and value colouring",
     "The tests touch a few types with symmetric values.",
     ["src/vecs.rs", "src/vec_patterns.rs"], [("Packed", "src/vecs.rs"), ("SIMDArray", "src/vecs.rs")], LANE, NOTE_L)
prop("C14", "Patterned vectors and masks have the documented lane in every place",
     "Every constructor of a vector from a pattern (halves, interleaving, partitions, a masked or partial fill) puts the documented value in every lane, and every mask constructor yields all bits clear or all bits set in each lane as documented, for every offset and size. An offset beyond the width is refused, not misread.",
     ["inputs"], "every vector type and size, every offset, every colouring",
     "The tests check one offset of a few types.",
     ["src/vec_patterns.rs"], [("Pattern", "src/vec_patterns.rs")], LANE, NOTE_L)
prop("C15", "Merging two vectors picks each lane from the documented side",
     "Merging halves, interleaved lanes or partitions of two vectors yields in every lane the bits of the same lane of the documented operand, for every vector type and size and every partition offset; an offset beyond the width is refused. No lane is mixed, moved or altered.",
     ["inputs"], "every vector type and size, every offset, distinct lane tags and complementary colourings",
     "The tests merge a few types at one offset.",
     ["src/intrin/merge.rs"], [("Merge", "src/intrin/merge.rs")], LANE, NOTE_L)
prop("C16", "Lane-wise comparison, min, max and abs agree with scalar arithmetic",
     "Minimum, maximum and absolute value of vectors equal in every lane what the scalar operation gives for that lane alone, and the equality masks have all bits of a lane set exactly where the lanes compare equal (or unequal) and clear elsewhere. Lanes do not influence each other. Signedness, extreme values, infinities and, for equality, NaN and signed zero are treated as scalars treat them.",
     ["inputs", "configurations"], "all 8-bit lane pairs, boundary alphabets for wider and float lanes, at every lane, every size",
     "The tests compare a few values per type, and the same value in all lanes.",
     ["src/intrin/abs.rs", "src/intrin/cmp.rs", "src/intrin/eq.rs"], [("Abs", "src/intrin/abs.rs"), ("Cmp", "src/intrin/cmp.rs"), ("Eq", "src/intrin/eq.rs")], LANE, NOTE_L)
prop("C17", "Saturating operations clamp exactly at the limits of the type",
     "Saturating addition and subtraction, lane-wise and between neighbouring lanes, give in every lane the exact result clamped to the range of the element type, signed or unsigned. They never wrap, never clamp early and never let one lane affect another.",
     ["inputs"], "all 8-bit lane pairs, boundary alphabets for wider lanes, at every lane, every size",
     "The tests check a handful of sums, few of which saturate.",
     ["src/intrin/saturating_add.rs", "src/intrin/saturating_sub.rs", "src/intrin/saturating_hadd.rs", "src/intrin/saturating_hsub.rs"], [("SaturatingAdd", "src/intrin/saturating_add.rs"), ("SaturatingSub", "src/intrin/saturating_sub.rs"), ("SaturatingHAdd", "src/intrin/saturating_hadd.rs"), ("SaturatingHSub", "src/intrin/saturating_hsub.rs")], LANE, NOTE_L)
prop("C18", "Horizontal add and subtract combine the documented neighbours",
     "Horizontal addition and subtraction put into each result lane the exact wrapped sum or difference of the two neighbouring lanes the documentation assigns to it, alternating between the two operands, for every element type and vector size (a build with overflow checks may panic instead of wrapping). No other lane contributes.",
     ["inputs"], "every type and size, one-hot lanes, distinct tags, boundary alphabets",
     "The tests check one vector per type.",
     ["src/intrin/hadd.rs", "src/intrin/hsub.rs"], [("HAdd", "src/intrin/hadd.rs"), ("HSub", "src/intrin/hsub.rs")], LANE, NOTE_L)
prop("C19", "Widening keeps every value and narrowing saturates, lanes in order",
     "Widening a vector yields its lanes, in order and with their exact values, in two vectors of twice the lane width, the first half first. Narrowing two vectors yields all lanes of the first and then of the second, each clamped to the range of the smaller type, or rounded for floats. Both keep signedness and order at every vector size.",
     ["inputs"], "all 8- and 16-bit lanes, boundary alphabets for wider and float lanes, at every lane",
     "The tests convert one vector per type with small values.",
     ["src/intrin/upcast.rs", "src/intrin/downcast.rs"], [("Upcast", "src/intrin/upcast.rs"), ("Downcast", "src/intrin/downcast.rs")], LANE, NOTE_L)
prop("C20", "Summing or multiplying a vector combines every lane exactly once",
     "The sum and product over a vector combine every lane exactly once, modulo the range of the element type for integers (a build with overflow checks may panic instead of wrapping), and the widening sum returns the exact sum in its wider result type without losing sign or carry. The result depends on no lane's position and on nothing outside the vector.",
     ["inputs"], "one-hot and extreme lanes at every position, every type and size",
     "The tests sum one vector per type.",
     ["src/intrin/sum.rs", "src/vecs.rs"], [("Sum, UpcastSum", "src/intrin/sum.rs"), ("Packed::sum/product", "src/vecs.rs")], LANE, NOTE_L)
prop("C21", "Population count counts every set bit of every lane",
     "The population count of a vector equals the number of set bits over all of its lanes, for every value and element type and at every vector size, on hardware with and without a population count instruction.",
     ["inputs", "configurations"], "every single bit and pair of bits of the vector, all byte values in every byte",
     "The tests count one or two vectors per type.",
     ["src/intrin/popcnt.rs"], [("Popcnt", "src/intrin/popcnt.rs")], LANE, NOTE_L)
prop("C22", "Byte-order conversion and reinterpretation preserve every byte",
     "Swapping bytes reverses the bytes of each lane and leaves lane order alone, and converting to or from big or little endian swaps exactly when the target's order differs and is its own inverse. Reinterpreting a vector as another element type of the same size keeps every byte in place, and going back restores it.",
     ["inputs"], "every byte position and value, every type pair and size",
     "The swap tests do not reach the library (inherent methods shadow it); the transmute tests use one vector.",
     ["src/intrin/endian.rs", "src/intrin/transmute.rs"], [("Endian", "src/intrin/endian.rs"), ("Transmute", "src/intrin/transmute.rs")], LANE, NOTE_L)
prop("C23", "Rounding, roots and reciprocals match scalar arithmetic in every lane",
     "Floor, ceiling, truncation, rounding and square root of a float vector give in each lane the IEEE result for that lane alone, including for negative, huge, infinite and NaN lanes (ties of rounding may go either way). The reciprocal and reciprocal-root estimates stay within their relative error in every lane for ordinary inputs. Lanes do not influence each other.",
     ["inputs", "configurations"], "boundary alphabets (ties, halves, powers of two and their neighbours, subnormals, limits, infinities, NaN) at every lane",
     "The tests round one or two vectors, mostly with equal lanes.",
     ["src/intrin/round.rs", "src/intrin/sqrt.rs", "src/intrin/recip.rs", "src/intrin/rsqrt.rs"], [("Round", "src/intrin/round.rs"), ("Sqrt", "src/intrin/sqrt.rs"), ("Recip", "src/intrin/recip.rs"), ("Rsqrt", "src/intrin/rsqrt.rs")], LANE, NOTE_L)
prop("C24", "Destriding deals lanes out by index without loss or reordering",
     "Destriding two vectors yields the lanes with even index and the lanes with odd index of their concatenation, in order, for every element type and size that supports it, and destriding four deals the lanes out modulo four likewise. Every lane appears exactly once, bit for bit.",
     ["inputs", "configurations"], "every type and size, distinct lane tags in two colourings, one-hot lanes",
     "The tests destride one vector of some types.",
     ["src/intrin/destride.rs"], [("Destride", "src/intrin/destride.rs")], LANE, NOTE_L)
prop("C25", "A program computes the same elements on every instruction set",
     "The same program over the same data yields the same elements, sums, masks and collected results on every supported instruction set level, however many lanes a vector has there. Only the vector width, and with it the grouping into vectors, may differ.",
     ["programs", "configurations"], "pipelines of map, reduce, zip, stride, fill and lane operations over all lengths up to the bound, on every target CPU",
     "The tests run on one target at a time and compare with constants.",
     ["src/arch", "src/intrin", "src/iters.rs"], [("cfg-selected implementations", "src/arch, src/intrin")], "explicit-state model checking: every program state within the bounds is run on each target and the results compared", NOTE_H)
prop("C26", "A panicking closure leaves every buffer in a prefix state",
     "If a closure panics in the middle of a map, reduction, fill or in-place mapping, everything already written is a prefix of the result the undisturbed run would have produced, whole vector by whole vector, and everything else is as it was. Nothing outside the buffers is touched, and sources are unchanged. The same holds whichever call panics.",
     ["fault_sequences", "inputs"], "every call of the closure as the one that panics, over stream kinds, lengths and positions",
     "The tests never panic in a closure.",
     ["src/iters.rs", "src/into_iters.rs"], [("simd_for_each, fill, scalar_fill", "src/iters.rs")], "explicit-state model checking with fault enumeration: every closure call made to panic, resulting memory compared with the model", NOTE_H)

prop("C27", "Code built for a processor uses only that processor's instructions",
     "A program built for a given processor executes, in every operation of the library on every vector type and stream, only instructions which that processor has. An operation that needs an extension the target lacks is computed another way, with the same result; it never raises an illegal-instruction fault on the hardware it was built for.",
     ["configurations", "inputs"], "every operation on every vector type, every source and sink, on every target level from SSE2 to AVX2",
     "The tests run on one machine, which has every extension, so an instruction too new for the target goes unnoticed.",
     ["src/arch/x86/intrin", "src/intrin/macros.rs"], [("target_feature gates", "src/arch/x86/intrin"), ("rust_fallback_impl", "src/intrin/macros.rs")], "explicit-state model checking with an execution monitor: every operation run one instruction at a time on the real code, each instruction checked against the target", NOTE_L)

prop("C28", "Tracing reports each implementation once per thread and changes no result",
     "With the trace feature, an operation that goes through a marked implementation prints one line on its first use in each thread, naming the place and whether hardware or software does the work, and appends the same line to the log file; it is silent on later uses in that thread, whatever other threads do. Lines of threads that report at the same time stay whole. What the log file held before stays, and a log file that cannot be written is ignored. All results are the same as without the feature.",
     ["schedules", "fault_sequences", "histories", "configurations"], "two threads taking turns in every order over every word of operations up to the bound; every interleaving of the system calls of threads that report at the same time; every system call failing or doing part of its work; three states of the log file, every target level",
     "The tests are built without the feature; what is printed, when, and by which thread is never observed.",
     ["src/debug.rs", "src/intrin/macros.rs", "src/arch/x86/intrin"], [("debug_output_once, debug_append_log, OUTPUT_GUARD", "src/debug.rs"), ("fallback!, optimized!", "src/debug.rs")], "explicit-state model checking: every schedule of two threads over words of operations, every interleaving of the system calls of concurrent reports under a controlled scheduler and every fault of one, run on the real code, output and log compared with a model; results compared with a build without the feature",
     "Exhaustive over schedules of whole operations and of system calls of two (three) threads, and over faults of one or two system calls, within the bounds; code between system calls is not interrupted (the record is thread-local).", ["standard output, the log file and the results of operations"])


def main():
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, t, n in P:
        i = p["id"]
        if i in CFG:
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                               technique=t, level="model_checking", level_note=n))
        else:
            na.append(dict(property=i, reason="its explorer is not built yet"))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
             notes="No hooks: the checks drive the public interface. /repo carries fix: commits only, listed in KNOWN_FINDINGS.")
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
