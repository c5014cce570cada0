"""Writes properties.jsonl and MANIFEST.json (one source for titles, statements, levels)."""
import json

R = "randomgen/"
S = "randomgen/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, level=None, note="", technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, technique=technique, na=na))


TESTS = "The suite compares a few hundred outputs from a handful of seeds with stored vectors"
DED = "deductive verification of the C functions: contracts, verification conditions from the clang IR of the real source, z3 / GF(2) algebra / cut-point sweeping"
NATC = "executable contracts of the Python-visible API evaluated on the built module over generated histories (bounded stand-in), C callees proved separately"
PNOTE = "Every obligation is generated from the current source on every run and discharged for all inputs. Trusted: clang front end and IR pipeline, the obligation generator, z3. gcc and clang are assumed to agree."

prop("C01", "Xorshift-family generators follow their published recurrences for every state",
     "For every internal state, one draw from Xoshiro256, Xoshiro512, Xoroshiro128 (both output scramblers) and Xorshift1024 returns the published output function of that state and leaves exactly the published successor state. No other state is touched.",
     ["inputs", "histories"], "all states (every 128 to 1024-bit word vector and every ring position)", TESTS + ", which reach a vanishing fraction of the state space and never the corner states (carries, zero words, ring wrap).",
     [S + "xoshiro256/xoshiro256.h", S + "xoshiro512/xoshiro512.h", S + "xoroshiro128/xoroshiro128.h", S + "xorshift1024/xorshift1024.h"], [("xoshiro256_next64 and siblings", S + "xoshiro256/xoshiro256.h")], "proof", PNOTE, DED)
prop("C02", "PCG, LCG128Mix, LXM and SplitMix64 follow their definitions for every state",
     "For every state and increment, one draw from PCG32, PCG64 (all variants), LCG128Mix (all built-in output functions), LXM and SplitMix64 returns the documented mixing of the 64/128-bit linear congruential state and advances that state by the documented multiplier and increment.",
     ["inputs", "histories"], "all states, increments, multipliers and output-function selections", TESTS + "; 128-bit carries and rotations by extreme amounts are met by chance only.",
     [S + "pcg64/pcg64-v2.h", S + "pcg64/lcg128mix.h", S + "pcg32/pcg32.h", S + "lxm/lxm.h", S + "splitmix64/splitmix64.h"], [("pcg_setseq_128_*", S + "pcg64/pcg64-v2.h"), ("lxm_next64", S + "lxm/lxm.h")], "proof", PNOTE, DED)
prop("C03", "Chaotic and counter-perturbed generators follow their definitions for every state",
     "For every state, one draw from SFC64, JSF32, JSF64, Romu (both variants), Tyche (both variants) and EFIIX64 returns the published output and leaves the published successor state, including table and counter updates.",
     ["inputs", "histories"], "all states, rotation constants and table contents", TESTS + "; these generators have no algebraic structure that would make samples representative.",
     [S + "sfc/sfc.h", S + "jsf/jsf.h", S + "romu/romu.h", S + "efiix64/efiix64.h"], [("sfc_next64", S + "sfc/sfc.h"), ("efiix64_next64", S + "efiix64/efiix64.h")], "proof", PNOTE, DED)
prop("C04", "Counter-based generators return the published block function of key and counter",
     "For every key, counter and buffer position, Philox (2x32, 4x32, 2x64, 4x64), ThreeFry (the same widths) and Squares (32 and 64-bit) return successive words of the published keyed bijection applied to consecutive counters, each word exactly once, with the counter carrying across all of its words.",
     ["inputs", "histories"], "all keys, counters (including every carry), buffer positions", TESTS + "; counter carries past 64 bits occur once in 2**64 draws.",
     [S + "philox/philox.h", S + "threefry/threefry.h", S + "squares/squares.h"], [("philox next functions", S + "philox/philox.h"), ("threefry next functions", S + "threefry/threefry.h"), ("squares_next64", S + "squares/squares.h")], "proof", PNOTE, DED)
prop("C05", "Cipher-based generators emit the real cipher's keystream on every code path",
     "AESCounter, SPECK128, ChaCha and HC128 return exactly the bytes of AES-128-CTR, SPECK-128/256-CTR, ChaCha with the chosen rounds, and HC-128 for every key, counter and position. The hardware-accelerated and the portable paths give identical streams and identical successor states.",
     ["inputs", "histories", "configurations"], "all keys, counters, buffer positions, permitted round counts, both SIMD settings", TESTS + " on whichever path the test machine selects.",
     [S + "aesctr/aesctr.h", S + "speck-128/speck-128.h", S + "chacha/chacha.h", S + "hc-128/hc-128.h"], [("aes_next64", S + "aesctr/aesctr.h"), ("generate_block", S + "chacha/chacha.h")], "proof", PNOTE + " The HC-128 key setup (2304 table-driven steps) is a bounded stand-in.", DED)
prop("C06", "Mersenne Twister family follows its recurrences, seeding included, for every state",
     "For every state array and position, MT19937, MT64, SFMT and DSFMT regenerate the state by the published recurrence, return the tempered (or raw) words in order, and initialise from an integer or an array exactly as the reference implementations do.",
     ["inputs", "histories"], "all state arrays, positions, seeds and seed-array lengths", TESTS + "; each state has 19937 bits.",
     [S + "mt19937/mt19937.c", S + "mt64/mt64.c", S + "sfmt/sfmt.c", S + "dsfmt/dsfmt.c"], [("mt19937_gen", S + "mt19937/mt19937.c"), ("mt19937_init_by_array", S + "mt19937/mt19937.c")], "proof", PNOTE, DED)
prop("C07", "32-bit draws and doubles consume each 64-bit word in halves, in [0, 1)",
     "For every state of every generator, two consecutive 32-bit draws of a 64-bit generator return the two halves of one 64-bit output in the documented order with nothing skipped or repeated, and every double draw is the documented scaling of the documented bits, at least 0 and strictly below 1.",
     ["inputs", "histories"], "all states and both values of the half-word buffer flag", "Tests sample seeds; the largest mantissa, the flag/word pairing after mixed calls, and every generator variant are not enumerated.",
     [S + "philox/philox.h", S + "pcg64/pcg64-v2.h", S + "xoshiro256/xoshiro256.h", S + "common/randomgen_config.h"], [("*_next32 / *_next_double", S)], "proof", PNOTE, DED)
prop("C08", "advance(delta) equals drawing delta outputs, for every delta",
     "For every generator with an advance operation, advancing by delta leaves the generator exactly where delta individual 64-bit (or native-width) draws would leave it, for every delta up to the period, including negative or wrapping ones, and from every buffer position.",
     ["inputs", "histories"], "all deltas (128 to 256 bits), counters and buffer positions", "Tests advance by a few small or power-of-two steps; nobody can draw 2**100 values to compare.",
     [S + "pcg64/pcg64-common.c", S + "philox/philox.c", S + "threefry/threefry.c", S + "aesctr/aesctr.c", S + "speck-128/speck-128.c", S + "pcg64/lcg128mix.c"], [("pcg_advance_lcg_128", S + "pcg64/pcg64-common.c"), ("philox4x64_advance", S + "philox/philox.c")], "proof", PNOTE, DED)
prop("C09", "Jumps move the stream by the documented number of steps",
     "For every state, one jump of a generator moves it by exactly the documented number of draws (2**64, 2**128, 2**192, ... as documented), so jumped streams are the documented segments of one sequence; jumping k times equals jumped(k). For SFMT and DSFMT a step is one 128-bit recursion, counted from the next buffer boundary.",
     ["inputs", "histories"], "all states; the exact jump distance", "The distance is far beyond what can be stepped; tests compare two stored numbers.",
     [S + "xoshiro256/xoshiro256.c", S + "xoshiro512/xoshiro512.c", S + "xoroshiro128/xoroshiro128.c", S + "xorshift1024/xorshift1024.c", S + "mt19937/mt19937-jump.c", S + "sfmt/sfmt-jump.c", S + "dsfmt/dSFMT-jump.c"], [("xoshiro256_jump", S + "xoshiro256/xoshiro256.c")], "proof", PNOTE + " The Mersenne Twister, SFMT and DSFMT jumps are covered only as far as the evidence file lists their contracts.", DED)
prop("C10", "Creating a jumped copy never changes the original generator",
     "jumped() returns a new, independent bit generator and leaves the state and future output of the original unchanged, for every generator, history and number of jumps; drawing from either one never affects the other.",
     ["histories", "inputs"], "all generators, prior histories and jump counts", "Tests check a single jump from a fresh state for some generators.",
     [R + "pcg64.pyx", R + "philox.pyx", R + "xoshiro256.pyx", R + "mt19937.pyx"], [("jumped", R + "*.pyx")], "exploration", "Bounded: executable contracts on the built modules over generated inputs and histories; not a proof.", NATC)
prop("C11", "Saving and restoring state reproduces the exact continuation",
     "Reading a generator's state, and later assigning it to any instance of the same class (whatever that instance did before), or pickling and unpickling, makes every following draw of any kind identical to the original's continuation. Assigning a state that belongs to another generator is refused and leaves the target unchanged.",
     ["histories", "inputs"], "all generators, all prior histories of source and target (buffered halves included)", "Tests restore into the same or a fresh instance after a few whole draws; partially consumed buffers and dirty targets are not explored.",
     [R + "philox.pyx", R + "squares.pyx", R + "aes.pyx", R + "mt19937.pyx", R + "pcg64.pyx", R + "common.pyx"], [("state property", R + "*.pyx")], "exploration", "C seeding, state and stream functions are proved for all inputs; the Python-level part is bounded (executable contracts over generated histories).", NATC)
prop("C12", "Seeding is deterministic and reseeding is the same as a fresh instance",
     "Two instances built from equal seed material give identical streams, and calling seed again on a used instance leaves it in the same state as a new instance with that seed, with no leftover of the earlier history. Different constructors for the same key or seed agree with each other.",
     ["histories", "inputs"], "all generators, seeds, keys, counters and earlier histories", "Tests reseed a fresh instance; leftovers of a partially used buffer need a particular history.",
     [R + "common.pyx", R + "philox.pyx", R + "sfc.pyx", R + "xorshift1024.pyx", R + "squares.pyx"], [("seed / _seed_from_seq", R + "*.pyx")], "exploration", "C seeding, state and stream functions are proved for all inputs; the Python-level part is bounded (executable contracts over generated histories).", NATC)
prop("C13", "Integer keys, counters and seeds convert exactly or are rejected",
     "Every user integer or integer array accepted as key, counter, seed or increment is converted to words whose value is exactly the given one, least significant word first; values that are negative, too large, non-integral or of the wrong shape are rejected instead of being truncated; advance takes any integer modulo the period. random_raw converts every raw word to the documented array shape and type.",
     ["inputs"], "all integers around every word boundary, arrays of every length and dtype", "Tests try a few values.",
     [R + "common.pyx"], [("int_to_array, object_to_int, wrap_int", R + "common.pyx")], "exploration", "Bounded: executable contracts on the built modules over generated inputs and histories; not a proof.", NATC)
prop("C14", "No draw, fill or state update touches memory outside its buffers",
     "For every valid state and every request size, bulk fills write exactly the requested elements, in stream order, and every generator indexes its tables and buffers within bounds.",
     ["inputs", "histories"], "all states, positions and request sizes", "An out-of-bounds read of a neighbouring field returns plausible bits; tests cannot see it.",
     [S + "distributions/rg-distributions.c", S + "efiix64/efiix64.h", S + "mt19937/mt19937.c", S + "rdrand/rdrand.h", R + "squares.pyx"], [("*_fill", S + "distributions/distributions.c")], "proof", PNOTE + " Every load and store of the listed C functions is proved in bounds; the Python-level state setters and fills are bounded stand-ins.", DED)
prop("C15", "Generated Squares keys obey the documented digit rules",
     "Every key produced by the Squares key generator satisfies the documented hexadecimal-digit rules and is odd; keys requested as unique are pairwise distinct; keys are deterministic in the seed, and independent of how many are requested at once.",
     ["inputs", "histories"], "all seeds and counts", "Tests look at a few hundred keys from a few seeds.",
     [R + "squares.pyx"], [("generate_keys / _get_keys", R + "squares.pyx")], "exploration", "Bounded: executable contracts on the built modules over generated inputs and histories; not a proof.", NATC)
prop("C16", "RDRAND reports hardware failure instead of returning invented numbers silently",
     "Whenever the hardware instruction keeps failing past the configured number of retries, the caller of a bulk raw draw gets an error, never a silently fabricated value; while it succeeds, each delivered word is one hardware output, delivered once.",
     ["fault_sequences", "inputs"], "all success/failure sequences of the instruction, all retry settings, buffer positions", "The instruction practically never fails on the test machine.",
     [S + "rdrand/rdrand.h", R + "rdrand.pyx"], [("rdrand_fill_buffer", S + "rdrand/rdrand.h")], "proof", "rdrand_next64 and rdrand_fill_buffer are proved for every outcome sequence of the instruction (stubbed) at fixed retry counts; the Python-visible reporting is a bounded stand-in.", DED)
prop("C17", "A user-supplied bit generator is driven exactly by the user's functions",
     "A generator wrapped around user callbacks returns exactly what the callbacks return, word for word, routes 64-bit, 32-bit and double draws as documented, and passes the user's state pointer and state object unchanged, for as long as the generator lives.",
     ["inputs", "histories"], "all callback outputs, combinations of supplied callbacks", "Tests wrap two callbacks.",
     [R + "wrapper.pyx"], [("UserBitGenerator", R + "wrapper.pyx")], "exploration", "Bounded: executable contracts on the built modules over generated inputs and histories; not a proof.", NATC)
prop("C18", "ExtendedGenerator draws and raw access use the bit stream exactly as documented",
     "Integer fills, uniform draws and raw access of the extended generator return the documented function of the underlying bit stream, in order, and array-parameter complex normals equal the scalar draws taken element by element, for every size, shape, dtype and output array; an output array is filled completely and only with the right type.",
     ["inputs", "histories"], "all sizes, shapes, dtypes, output arrays and generator states", "Tests check a few shapes.",
     [R + "generator.pyx", R + "common.pyx", S + "distributions/rg-distributions.c"], [("uintegers / random", R + "generator.pyx")], "exploration", "Bounded: executable contracts on the built modules over generated inputs and histories; not a proof.", NATC)
prop("C19", "Seed material expansion and entropy requests are exact and fail loudly",
     "Expanding seed material into generator state gives the same words regardless of how many words are requested per call, and operating-system entropy is either delivered in full or reported as an error, never partially filled.",
     ["inputs", "fault_sequences"], "all seed inputs and sizes; all short-read and failure sequences of the entropy source", "The entropy source does not fail in tests.",
     [R + "entropy.pyx", S + "entropy/entropy.c"], [("entropy_getbytes", S + "entropy/entropy.c")], "proof", "entropy_getbytes is proved for every result of open, read and close at fixed sizes; seed expansion and the Python-visible behaviour are bounded stand-ins.", DED)
prop("C20", "Statistical quality and distribution accuracy of floating-point variates",
     "Normal, complex-normal, Wishart and other floating-point variates follow the documented distributions to the documented accuracy.",
     ["inputs"], "all parameters", "Finite samples only bound deviations.",
     [R + "generator.pyx"], [("multivariate_normal etc.", R + "generator.pyx")], None, "", None,
     na="a statement about distributions and rounding of libm results: no contract over machine words within reach of a deductive verifier here expresses it")

CLAIMED = {}
exec(open(__file__.replace("mkmeta.py", "claims.py")).read())

with open(__file__.replace("mkmeta.py", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in P:
    c = CLAIMED.get(p["id"])
    if c is not None:
        d = dict(level=p["level"], note=p["note"], technique=p["technique"])
        d.update(c)
        checks.append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']}", "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
                       "technique": d["technique"], "level": d["level"], "level_note": d["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "machinery under construction: no check registered yet"})
json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "no hooks are added to the source", "source_commits": []}, "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Findings and repairs: known_findings.json."}, open(__file__.replace("mkmeta.py", "MANIFEST.json"), "w"), indent=1)
