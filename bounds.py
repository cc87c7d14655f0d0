"""Bounds and assumptions of each check, for MANIFEST.json and the evidence files."""
NTL = "NTL's integers and modular types are a model over 256-bit integers (stubs/ntl_model) in the encoding; replays and validation traces run with the real library"
OT = "oblivious transfer, channel and boost serialisation are ideal stand-ins (stubs/common): OT hands the receiver the chosen message only, the channel is reliable and ordered"
AES = "AES under an arbitrary key is an uninterpreted function of key and block; under a concrete key it is AES"
GF = "the product of gf128 elements is the field product (decided by C01)"
SCHED = "the two parties run on a round-robin schedule of channel operations: their results are functions of the messages"
CUCKOO = "executions in which cuckoo hashing gives up (INTERNAL, tiny bucket tables) are not looked at"
PAR = "OpenMP teams are threads of the executor; races are found by happens-before (vector clocks) on the accesses of every path, for one schedule per path and, for dynamic loops, every assignment of the iterations"
MODS = "23 ZZ_p moduli from 2 to 2^128 and 20 zz_p moduli up to 60 bits"
BOUNDS = {
    "C04": "all 2^128 inputs; all eight scalar types, with " + MODS,
    "C05": "all values of the scalar, every bit position k < 8*SizeOf; all eight scalar types, with " + MODS,
    "C06": "every modulus (symbolic, 2 to 2^128, zz_p 2 to 2^60); histories of 3 operations (install a modulus, ask, save and restore a context) and 2 threads",
    "C07": "security level 1..128 symbolic; 20 hash lengths between 1 and 128; all types, with " + MODS + "",
    "C08": "all seeds; buffer sizes 0..11 with 30 draws, default buffer across one refill, reseeding after 0..7 draws for buffer sizes 2..8, two instances in turn",
    "C09": "seed lengths 0..41, all bytes; every value of the usage counter with 2, 3, 4, 7 and 8 blocks per refill",
    "C10": "all seeds and keys; arity 2..7 with 1..18 leaves, 12 shapes around powers of the arity and 12 large ones (up to 4100 leaves, arity 1000)",
    "C11": "all trees' contents; arity 2..6 with 1..12 leaves and every missing index, 7 shapes around powers, 7 large shapes (up to 4915 leaves) with the missing index at four places",
    "C12": "every 64-bit number of leaves and missing index and every int arity (symbolic); rebuild shapes of arity 2..4 with 1..5 levels and any level sizes 0..5",
    "C13": "all randomness and every index of batches with sizes 0..8; sequences of calls; types and roles mixed on one channel; sizes up to 4100 and batches of 20 and 40 with chosen indices; all eight scalar types",
    "C14": "two executions that differ in the secrets only: all randomness, all pairs of indices for sizes up to 5; SPFSS up to 4, MPFSS 1..2 indices in 3..4 elements, Gilboa up to 5 scalars, a Vector-OLE history of three steps with different noise and delta",
    "C15": "all values and randomness, every index for sizes 1..8; batches with empty outputs; sequences; types mixed on one channel; sizes up to 4100 and batches of 20 and 40; all eight scalar types",
    "C16": "all values and randomness; 1..3 scalars with 20 and 12 moduli, sizes around one and two OT blocks, empty vectors, both kinds of transfer, statistical security from 0 to 128, 70 scalars, interleaved types and roles",
    "C17": "all scalars and multipliers; every number of used lanes up to 16/SizeOf; all types with 20 and 12 moduli",
    "C18": "hash values arbitrary (AES uninterpreted): up to 3 symbolic inputs, 1..4 functions, up to 3 buckets; single inputs for up to 2^63-1 buckets; hundreds of inputs of which one is symbolic (in two buckets); teams of 1..8",
    "C19": "hash values arbitrary: up to 3 symbolic inputs in up to 4 buckets with 2..4 functions; up to 500 inputs in 700 buckets with one symbolic input (in two buckets); every 64-bit number of buckets for the argument checks",
    "C20": "all values, correlations and randomness; 1..3 indices at every place of up to 7 elements; sequences of calls with other sizes and after UpdateBuckets; up to 25 indices in 130 and 200 elements; 2 or 3 hash seeds; all eight scalar types",
    "C21": "every invalid value of each argument (symbolic integers and lengths) at small sizes, for each entry point of every class, before, between and after valid calls; all eight scalar types",
    "C22": "all deltas and randomness of the protocol; parameter tables {16,40}/{2,3}/{1,3}, three levels {16,18,36}/{2,3,4}/{1,3,4} and, for 40 bits of security, {64,80}/{2,3}/{3,5} (output/seed/noise); the listed histories and every pair of operations before a run; both roles on one object; several objects in turn; all eight scalar types",
    "C23": "as C22, for the types in which accidental equality is excluded (u64, u128, gf128, ZZ_p, zz_p)",
    "C24": "every 64-bit batch size (symbolic) with the shipped parameter table at statistical security 0, 20, 40, 64 and 80; one or two precomputations, each followed by a run; uint64_t",
    "C25": "all data; teams of 2 to 4 (hashing: 8) threads, kept or new ones per region; every assignment of iterations for each of the first dynamic loops",
    "C27": "all deltas and randomness; tables {16,30,60}/{2,3,5}/{1,3,4} and {100,300}/{20,40}/{7,11}; positions: every value of the noise seed of two consecutive expansions of 16 elements (at most 8 decisions of the sampler)",
    "C28": "spans of 0..4 elements, all randomness, all eight types with " + MODS + "; protocols for u64, u128, gf128, ZZ_p and zz_p: batches of up to 4 with sizes up to 4, two or three calls with repeated inputs; two executions that send the same in clear; Vector-OLE histories of six steps over the table {16,40}/{2,3}/{1,3}",
}
THOROUGH = {
    "C06": "histories of 5 operations", "C07": "all 128 hash lengths", "C08": "buffer sizes 0..69 with 200 draws, reseeding after 0..19 draws", "C10": "arity 2..21 with 1..70 leaves",
    "C11": "arity 2..10 with 1..30 leaves", "C12": "wider rebuild shapes", "C14": "all entries for all types, sizes up to 11", "C15": "sizes up to 18, sequences",
    "C16": "nine security levels, two OT blocks and more", "C18": "two inputs with three functions in five buckets, three inputs in three", "C19": "four symbolic inputs in four buckets",
    "C20": "three indices in up to 7 elements", "C22": "every pair of operations for all types, every triple for three types", "C23": "every pair of operations for all types, every triple for two types",
    "C24": "three precomputations", "C25": "every type for every entry", "C27": "positions for every type", "C28": "spans of up to 17 elements, trees of 9 and 17 leaves",
}
PROTO = [OT, AES, NTL, GF, SCHED]
ASSUME = {
    "C03": [GF], "C04": [NTL], "C05": [NTL], "C06": [NTL], "C07": [NTL], "C08": [AES], "C09": [AES], "C10": [AES], "C11": [AES],
    "C13": PROTO, "C14": PROTO, "C15": PROTO, "C16": PROTO, "C17": [NTL, GF], "C18": [AES, NTL], "C19": [AES], "C20": PROTO + [CUCKOO], "C21": PROTO,
    "C22": PROTO + [CUCKOO, "the parameter table is replaced by small ones"], "C23": PROTO + [CUCKOO, "the parameter table is replaced by small ones"],
    "C24": ["the expansions, table set-up and first Gilboa product are cut off at their interfaces (C22 decides them)"], "C25": PROTO + [PAR],
    "C28": PROTO + [CUCKOO, "RAND_bytes and NTL's random residues give independent arbitrary values; other ways to draw residues are checked for the amount and for reduction of 128-bit integers only"],
    "C27": PROTO + ["MPFSS is ideal (C20 decides it) and looks at its arguments", "the parameter table is replaced by small ones"],
}
