_stream = dict(
    quick="lengths 0..=3W+3 (W>=16) or 4W+3; every start position 0..=n+1; movement words over {next,end,scalar next} of depth 2 from every position, depth 3 from positions 0 and 1; two value colourings and a third of few values, on both placements against a guard page; most lengths up to 34 vectors and those around 256, 1000, 4096 (wide vectors: 65536) from five positions",
    thorough="lengths 0..=6W+3; the words one level deeper; every length up to 100 vectors and those around 65536; both profiles, five targets",
)
_shallow = dict(quick=_stream["quick"].replace("depth 2 from every position, depth 3", "depth 1 from every position, depth 2"), thorough=_stream["thorough"])
_stream_assume = [
    "element values beyond the three colourings do not influence which elements a stream delivers",
    "lengths above the bound behave like those of the same residue below it",
]
CFG = {
    "C01": dict(bins=["c01"], bounds=_stream, assumptions=_stream_assume),
    "C02": dict(bins=["c02"], bounds=_stream, assumptions=_stream_assume),
    "C03": dict(bins=["c03"], bounds=dict(
        quick=_stream["quick"].replace("{next,end,scalar next} of depth 2 from every position, depth 3", "{next,end,scalar next,drain} of depth 2 from every position, depth 4"),
        thorough=_stream["thorough"]), assumptions=_stream_assume),
    "C04": dict(bins=["c04"], bounds=_shallow, assumptions=_stream_assume),
    "C05": dict(bins=["c05"], bounds=dict(
        quick="lengths, positions and placements of C01; words over {next,nth,end,advance 1,advance W+1,two huge advances,scalar next,drain,finalize} of depth 2 from every position, 3 from positions 0 and 1; every query checked after every step",
        thorough="the same words, depth 3 from every position and 4 from positions 0 and 1"), assumptions=_stream_assume),
    "C06": dict(bins=["c06"], bounds=dict(
        quick="arity 2 over slices of all ten element types, 3 over four of them, 4 to 13 over f64, mixed element types of one width, and slices with vectors, mutable slices and strided streams in one zip; lengths and positions of C01, words over {next,nth,end,advance 1,advance W+1,two huge advances,drain,finalize} of depth 1 from every position, 3 (2 for mixed kinds) from positions 0 and 1",
        thorough="the same, one level deeper"), assumptions=_stream_assume),
    "C07": dict(bins=["c07"], bounds=dict(
        quick="every pair of lengths 0..=2W+3 of the wider vector for every pair of element types, all triples of lengths 0..=11 for six triples of types, every single odd one out at every place with lengths 0..=13 at arity 2 to 13, odd widths at arity 4, 6, 8, 12, 13, strided streams against vectors",
        thorough="the same, lengths up to 4W+3 of the wider type, 0..=24 and 0..=40"), assumptions=_stream_assume),
    "C08": dict(bins=["c08"], bounds=dict(
        quick="stride counts 1,2,3,4,5,7,8,9,16; lengths up to count*(2W+1)+count-1 with logical lengths next to multiples of W; words over {next,end,advance 1,advance W+1,two huge advances,scalar next,drain,finalize} of depth 1, 2 from positions 0 and 1",
        thorough="the same, all lengths for counts below 5, words one level deeper"), assumptions=_stream_assume),
    "C09": dict(bins=["c09"], bounds=dict(
        quick="streams over slices of six element types, taken in pairs from positions 0, 1, 2, W-1, W and W+1, and for two types over vectors, maps, adapters and strides; lengths 0..=5W+3 (next to multiples of W where W>=16), words over {next,nth,end,advance,advance W+1,two huge advances,drain,finalize} of depth 1 from every position, 2 from positions 0 and 1",
        thorough="every position up to 2W+1, lengths 0..=7W+3, words one level deeper"), assumptions=_stream_assume),
    "C10": dict(bins=["c10"], bounds=dict(
        quick="19 pairs of element types, there and there and back, every length 0..=3W+3 that is a whole number of result elements, three ways to drain; 61 pairs of a native vector and a vector of any other size, every length 0..=2W+3 from two positions, three ways to drain and two zipped",
        thorough="the same up to 6W+5 and 5W+3"), assumptions=_stream_assume),
    "C11": dict(bins=["c11"], bounds=dict(
        quick=_stream["quick"] + "; batches of 1 to 8 vectors, stopped early at every batch; lengths to 9W+1 for scalars taken before and between vectors",
        thorough=_stream["thorough"] + "; 17W+1"), assumptions=_stream_assume),
    "C12": dict(bins=["c12"], profiles=["debug", "release"], bounds=dict(
        quick="loads, stores, strides, positions, advances and lane offsets at 0..=n+W+2 and at every place where their sum or product with a width, stride or element size is within a few of a multiple of 2^64; two movements on top of each other; eleven ways to go on; lengths claimed by an untrusted iterator changing under way; maps to six other vector sizes; buffers flush against a guard page on either side",
        thorough="the same, without thinning for wide vectors"), assumptions=["accesses that stay within the guarded pages but leave the slice show in the values or in the bytes around it"]),
    "C25": dict(bins=["c25"], profiles=["release"], profiles_thorough=["release"], cpus=["haswell", "sandybridge", "nehalem", "core2", "x86-64"], portable=True, bounds=dict(
        quick="ten element types; all words of depth 2 over 13 to 26 operations at every length 0..=131, half of the words of depth 3 at every length 0..=40, through eleven combinations of source and sink; pairs of neighbours from six starting positions at every length 0..=150; two colourings of boundary values; five instruction set levels compared",
        thorough="the same, all words of depth 3, lengths 0..=200"), assumptions=["two digests of 64 bits that agree stand for equal results", "NaN payloads, signs of zeros, ties of round(), reciprocal estimates and floating-point sums are outside the property"]),
    "C26": dict(bins=["c26"], bounds=dict(quick=_shallow["quick"] + "; a panic at the 1st to 10th or 17th call", thorough=_shallow["thorough"]), assumptions=_stream_assume),
}
_lane = dict(
    quick="lane states: every 8-bit value (16-bit for one operand, every upper half of 32-bit ones), boundary alphabets of 40 to 500 values for wider and float lanes; every value in every lane, every pair of values in every lane (or every pair of neighbouring lanes), one-hot lanes over four backgrounds, any two lanes any two of five values, blocks of 1, 2, 4, ... alternating lanes, distinct lane tags in two colourings; all vector sizes",
    thorough="the same; every 32-bit value of unary operations, every pair of 16-bit values of binary ones, wider alphabets everywhere",
)
_lane_assume = ["values of 16, 32 and 64 bits and floats outside the alphabets behave like their neighbours in it", "the scalar reference in mc/src/bin is right"]
for _p, _x in dict(C13=dict(profiles=["debug", "release"]), C14=dict(profiles=["debug", "release"]), C15=dict(profiles=["debug", "release"]), C16={}, C17={}, C18=dict(profiles=["debug", "release"]), C19={}, C20=dict(profiles=["debug", "release"]), C21={}, C22={}, C23={}, C24={}).items():
    CFG[_p] = dict(bins=[_p.lower()], bounds=_lane, assumptions=_lane_assume, **_x)
CFG["C27"] = dict(bins=["c01", "c10", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24"], args=["--step"], shards=2,
    # what a stream or a conversion does differs between targets only where vectors do
    bin_cpus=dict(c01=["nehalem", "core2", "x86-64"], c10=["sandybridge", "core2", "x86-64"]),
    cpus=["sandybridge", "nehalem", "core2", "nocona", "x86-64"], cpus_thorough=["haswell", "sandybridge", "nehalem", "penryn", "core2", "nocona", "amdfam10", "x86-64"], min_sites=700,
    bounds=dict(
        quick="every lane operation of every vector type, every source with every way to collect it (lengths 0, 1, W, 2W+1), every conversion between element types; each call stepped one instruction at a time until 20 000 instructions of its operation have been seen; five targets",
        thorough="the same on eight targets, 400 000 instructions, debug and release"),
    assumptions=["which instructions an operation executes does not depend on lane values beyond the few that are stepped", "the table of instructions in mc/src/rt.rs is right", "code of the C library, which selects its own instructions at run time, is not judged"])
CFG["C28"] = dict(bins=["c28", "c25"], args=["--light"], shards=4, portable=True, profiles=["release", "release+trace"], profiles_thorough=["release", "release+trace"], bounds=dict(
        quick="90 operations, each on a thread of its own, twice; every word of two turns (and of two turns repeated) over 12 operations and two threads, every word of four turns over five; a log file that is absent, has something in it, or cannot be written; every interleaving of the system calls of two threads (25 pairs of operations) and of three; every single and double fault of a system call of a report; the programs of C25 of depth 2 at 24 lengths with the feature and without",
        thorough="the same, words over all operations and of five turns, interleavings of every pair of operations and of three threads; five targets"),
    assumptions=["threads influence each other through system calls only (the record is thread-local)", "which operations the targets have an instruction for is right in mc/src/bin/c28.rs"])
