"""Registry of harness binaries and checks."""
ASSUMPTIONS = [
    "gcc 13, x86-64 Linux, libraries as installed; libcrypto's AES is the reference block cipher",
    "logging/Tink/farmhash headers replaced by functional shims (/verif/compat); CHECK and DCHECK abort",
]
TYPES = ["types_int.cc", "types_mod.cc", "types_tuple.cc", "types_mixed.cc"]
BINARIES = {
    "h_point": dict(srcs=["h_point.cc"], groups=["dpf"], fl="opt"),
    "h_incr": dict(srcs=["h_incr.cc"], groups=["dpf"], fl="opt"),
    "h_apply": dict(srcs=["h_apply.cc"], groups=["dpf"], fl="opt"),
    "h_types": dict(srcs=["h_types.cc"] + TYPES, groups=["dpf"], fl="opt"),
}
BINARIES["h_codec"] = dict(srcs=["h_codec.cc"] + TYPES, groups=["dpf"], fl="opt")
BINARIES["h_group"] = dict(srcs=["h_group.cc"], groups=["dpf"], fl="opt", cflags="-O1")
BINARIES["h_sample"] = dict(srcs=["h_sample.cc"], groups=["dpf"], fl="opt", cflags="-O1")
MC = "model_checking"
STATELESS = "stateless model checking of the real code: exhaustive bounded enumeration against a reference model"
CHECKS = {
    "P01": dict(parts=[("h_point", "point")], level=MC, tech=STATELESS,
        bound="domains 2^0..2^10 (thorough 2^14): every alpha x every point for boundary betas; to 2^18 (2^23) and up to 2^22 (2^25) for one type: boundary alphas x every point; every domain size to 2^128: "
              "boundary alphas x boundary points; every output width; three evaluation paths",
        note="Every (alpha, x) pair of every small domain is executed on the real code, for both parties and every way to "
             "evaluate; large domains at boundary points only. Keys come from an owned random source; seeds include all-zero and all-one."),
    "P02": dict(parts=[("h_incr", "incr")], level=MC, tech=STATELESS + " (call histories)",
        bound="up to 100000 prefixes at once; all hierarchies over levels 0..4 with up to 4 levels (plus chosen ones up to 8), several type patterns; all "
              "sequences of EvaluateUntil/EvaluateNext calls with all level choices and all prefix sets/orders up to size 2-4; "
              "chosen hierarchies to 128 levels; 1..1024 prefixes at once in five orders at levels to 2^12",
        note="Depth-first exploration of all bounded call histories of both parties on the real EvaluationContext, each step "
             "compared with the point-function model and with evaluation from scratch."),
    "P03": dict(parts=[("h_incr", "mixed")], level=MC, tech=STATELESS + " (call histories)",
        bound="as P02 with EvaluateAt (with and without context) interleaved at every step of every history, for all point lists up to the bound; 8 (16) hierarchies with gaps to 128 bits crossed by every pair of point evaluations, with neighbours differing in every single bit",
        note="Differential between the direct point evaluation and the expansion history on the real code, plus share sums."),
    "P04": dict(parts=[("h_apply", "apply")], level=MC, tech=STATELESS,
        bound="batches of 0..5 keys (thorough 9) and of sizes to 70001 (1000003), all hierarchies over levels 0..4, all point tuples of small domains, early stop at each call, "
              "all right shifts, batches crossing the library's batch size to 2048 keys",
        note="Every callback invocation of EvaluateAndApply is compared with per-key EvaluateAt; key batches as objects and pointers."),
    "P05": dict(parts=[("h_types", "share")], level=MC, tech=STATELESS,
        bound="54 value types x domains 2^0..2^7 (thorough 2^10) x all alphas for small domains; every value of one-byte types; mixed-type hierarchies; up to 128 levels",
        note="Share sums under each type's own group law recomputed on plain integers, for every type family and nesting."),
    "P10": dict(parts=[("h_types", "ref")], level=MC, tech="explicit enumeration with step-by-step conformance of the implementation to an independent reference model",
        bound="same space as P05", note="An independent implementation of the construction (AES through libcrypto's single-block API) "
             "predicts every field of both keys and every share bit for bit."),
    "P06": dict(parts=[("h_codec", "codec")], level=MC, tech="exhaustive enumeration of encoded values against a reference decoder",
        bound="all leaf encodings (kind x unset/64/128-bit x type limits), all tuples up to 3 elements over a small leaf set, every single-place damage of values of 54 types; all type pairs",
        note="Compile-time (FromValue/ToValue) and run-time typed (key generation) paths are both driven on the real code."),
    "P07": dict(parts=[("h_group", "group")], level=MC, tech="exhaustive enumeration of operand pairs against exact arithmetic",
        bound="all pairs for all 255 8-bit moduli and 8-bit XOR; boundary sets for wider types; 15 tuple types",
        note="Complete for 8-bit types; boundary pairs for wider ones."),
    "P08": dict(parts=[("h_sample", "sample")], level=MC, tech="bounded enumeration of byte strings against an exact reference procedure",
        bound="21 moduli x 1..17, 130 and 300 draws x all walking-one/zero strings, constants, streams, multiples of N; parameter grid",
        note="Every input bit is exercised on its own for every modulus and draw count."),
}

BINARIES["h_prg"] = dict(srcs=["h_prg.cc"], groups=["dpf"], fl="opt")
BINARIES["h_prg_san"] = dict(srcs=["h_prg.cc"], groups=["dpf"], fl="san")
BINARIES["h_prg_scalar"] = dict(srcs=["h_prg.cc"], groups=["dpf"], fl="scalar")
CHECKS["P11"] = dict(parts=[("h_prg", "seeds"), ("h_prg_scalar", "seeds")], thorough_parts=[("h_prg_san", "seeds")], level=MC,
    tech=STATELESS,
    bound="every SIMD target of this CPU, the portable path and a scalar-only build; all path/control/correction bits for up to 3 seeds x 2 levels; "
          "batches of 0..140 seeds (thorough 300) and around powers of two to 4097; walks to 128 levels with walking-one paths and all right shifts of a list; "
          "all combinations of 5 placements of 4 arrays",
    note="Each batch is compared seed by seed with the non-vectorised walk over libcrypto's AES block function; arrays end at inaccessible pages.")
CHECKS["P12"] = dict(parts=[("h_prg", "hash")], thorough_parts=[("h_prg_san", "hash")], level=MC, tech=STATELESS,
    bound="132 keys x 5 block patterns; every length 0..539; every overlap offset to +-135 blocks (thorough +-300); every size mismatch to 70; 21 lengths to 2100000 blocks; all call/move sequences to depth 5 (thorough 7)",
    note="Compared with AES through libcrypto's single-block API, canaries and inaccessible pages around the output.")

BINARIES["h_dcf"] = dict(srcs=["h_dcf.cc"], groups=["dcf"], fl="opt")
BINARIES["h_bad"] = dict(srcs=["h_bad.cc"], groups=["dpf"], fl="san")
CHECKS["P09"] = dict(parts=[("h_bad", "keys"), ("h_bad", "contexts"), ("h_bad", "params")], level=MC,
    tech="exhaustive enumeration of single and paired message mutations and call sequences on the real code, under sanitizers, against a reference classification",
    bound="9 functions: every single-place change of a key and of a context after each of up to 9 histories, pairs of changes for three of them (thorough: all); "
          "every wrong type, level, point and prefix request; ~350 value types x 12 domain sizes x 13 security parameters, alone and in hierarchies; contexts with every pair of 17 security parameters",
    note="Every change is classified by an independent definition of well-formedness; what remains well-formed must give the reference construction's share bit for bit.")

NOT_APPLICABLE = {
    "P31": "A computational indistinguishability claim over all efficient adversaries: no bounded enumeration of executions or states of this code decides it "
           "(it rests on the pseudorandomness of AES). The parts of it that are about the code are decided by P10 (bit-for-bit conformance to the published construction, "
           "key shape independent of alpha and beta) and P22 (which party's message carries what).",
    "P32": "A statistical distance of 2^-40 and below over all 128-bit blocks; enumerating executions cannot measure it, and the bound is a short arithmetic "
           "argument about the sampling procedure. The procedure itself is decided by P08, and the acceptance of parameters by P09.",
}
CHECKS["P13"] = dict(parts=[("h_dcf", "dcf")], level=MC, tech=STATELESS,
    bound="17 value types x domains 2^1..2^8 (thorough 2^10): every threshold x every point; batches to 70003 keys; all values of one-byte types; domains to 2^128 (thorough: every size): "
          "boundary thresholds x points sharing every prefix; batches of 0..140 keys (thorough to 1100) in four forms",
    note="Every (alpha, x) pair of every small domain runs on the real code for both parties, alone and in batches.")
BINARIES["h_mic"] = dict(srcs=["h_mic.cc"], groups=["dcf"], fl="opt")
CHECKS["P14"] = dict(parts=[("h_mic", "mic")], level=MC, tech=STATELESS,
    bound="up to 2100 intervals and 66000 keys at once (thorough 66000 intervals); groups 2^1..2^4: all intervals x all input masks x all output masks x all inputs (2^5: three output masks, thorough all; thorough 2^6); all interval lists "
          "up to length 4/3/2; groups to 2^127 (thorough: every size) at 9-11 boundary positions each for bounds, masks and inputs; batches of 0..140 keys (thorough to 520)",
    note="Every (interval, mask, input) triple of the small groups runs on the real code for both parties; both encodings of the bounds.")
BINARIES["h_dcfbad"] = dict(srcs=["h_dcfbad.cc"], groups=["dcf"], fl="san")
CHECKS["P15"] = dict(parts=[("h_dcfbad", "dcf"), ("h_dcfbad", "mic")], level=MC,
    tech="exhaustive enumeration of single and paired message mutations and arguments on the real code, under sanitizers, against a reference classification",
    bound="7 value types x 4 domain sizes: every single-place change of a key (pairs of changes for small ones), every count up to 5 of keys, points and outputs, every power of two "
          "as threshold or point; 24 value types x 16 domain sizes x 10 security parameters; interval gates: 14 group sizes x 13^2 bounds x 16 encodings, all pairs of changes "
          "of 24 parameter sets, every single change of keys of 30 gates",
    note="What remains well-formed must give the reference construction's share bit for bit; everything else an error.")
BINARIES["h_prng"] = dict(srcs=["h_prng.cc"], groups=["prng"], fl="opt")
CHECKS["P16"] = dict(parts=[("h_prng", "ctr")], level=MC, tech=STATELESS + " (call histories)",
    bound="3 seeds x counters next to every carry: all sequences of up to 5 draws (thorough 6) of 10 lengths; all compositions of totals to 13 (thorough 17); every length to 671; "
          "draws to 16 MB; every bit of seed and nonce; all seed and nonce sizes to 40",
    note="Compared with a keystream computed block by block with libcrypto's AES block function.")
CHECKS["P17"] = dict(parts=[("h_prng", "rng")], level=MC, tech=STATELESS + " (call histories and source faults)",
    bound="all sequences of up to 5 draws (thorough 6) of 8, 64 and 128 bits on two instances, and runs of 200 bytes (thorough 1100) repeating every pattern of up to three widths, x every flipped bit of the source x a failure at every source call",
    note="Bit dependence is decided by flipping each bit of the owned random source, whatever way the generator arranges the bytes.")

BINARIES["h_hash"] = dict(srcs=["h_hash.cc"], groups=["hash"], fl="opt")
BINARIES["h_cuckoo"] = dict(srcs=["h_cuckoo.cc"], groups=["hash"], fl="choice")
CHECKS["P25"] = dict(parts=[("h_hash", "tables")], level=MC, tech=STATELESS + " (insertion histories)",
    bound="1..4 buckets x 1..4 hash functions x 2..4 elements: every assignment of candidate buckets x every insertion sequence to length 6 x limits none/1..4; buckets filled to and past 12 limits to 65540; "
          "every occupancy of 2..4 buckets by 0..3 elements x every candidate list of 2..6 (thorough 7) functions; 60-element histories with SHA-256 families; grid of configurations and defaults",
    note="Hash functions are chosen by the harness, so that every collision pattern occurs, including an element's own candidates colliding.")
CHECKS["P26"] = dict(parts=[("h_cuckoo", "cuckoo")], level=MC, tech="explicit-state exploration of the real table: all outcomes of every random choice, with visited-state pruning",
    bound="stashes filled to and past 12 limits to 65540; evictions of 19 lengths to 65537 in 2..300 buckets; 1..5 buckets x 2..4 functions x 2..5 elements in 12 sizes (thorough 16): every candidate assignment (large sizes: up to renaming of buckets) x 3 insertion sequences x relocation limits 0..3 (small sizes to 6, thorough 8) x 3-4 stash limits "
          "x every sequence of eviction choices; chains of up to 10 (thorough 14) relocations",
    note="The random engine is replaced at compile time by one whose values the explorer chooses; the oracle only looks at table and stash after each insertion.")
CHECKS["P27"] = dict(parts=[("h_hash", "family")], level=MC, tech="exhaustive enumeration of inputs against a reference definition",
    bound="all bounds 1..2000 (thorough 40000) and 2^k, 2^k+-1; all input lengths 0..200 x 10 seed lengths; every input of up to two bytes; all seed lengths to 130 with up to 101 functions; "
          "inputs and seeds of 1 GB (thorough 4 GB); all family numbers",
    note="Reference: one-shot SHA-256 (libcrypto) or 128-bit FarmHash read as little-endian integer, reduced byte by byte.")

BINARIES["h_inner"] = dict(srcs=["h_inner.cc"], groups=["pir"], fl="opt")
BINARIES["h_inner_scalar"] = dict(srcs=["h_inner.cc"], groups=["pir"], fl="scalar")
BINARIES["h_inner_san"] = dict(srcs=["h_inner.cc"], groups=["pir"], fl="san")
CHECKS["P24"] = dict(parts=[("h_inner", "inner"), ("h_inner_scalar", "inner")], thorough_parts=[("h_inner_san", "inner")], level=MC, tech=STATELESS,
    bound="every SIMD target of this CPU, the portable path and a scalar-only build; rows of every length 0..404 (thorough 904) at ten placements, all subsets of up to three rows by up to three vectors; "
          "0..400 rows (thorough all of 0..900): every row alone, everything but one, dense patterns, bits and blocks beyond the last row, 1..17 vectors; rows to 1 MB and up to 65537 rows; the same through a built database; all size mismatches to 300 rows",
    note="Compared with a byte-wise XOR; rows end at inaccessible pages.")

BINARIES["h_pir"] = dict(srcs=["h_pir.cc"], groups=["pir"], fl="opt")
BINARIES["h_pir_choice"] = dict(srcs=["h_pir.cc"], groups=["pir"], fl="choice")
BINARIES["h_pir_san"] = dict(srcs=["h_pir.cc"], groups=["pir"], fl="san")
CHECKS["P18"] = dict(parts=[("h_pir", "dense")], thorough_parts=[("h_pir_san", "dense")], level=MC, tech=STATELESS,
    bound="databases of 1..300 rows (thorough 900) and around block boundaries to 1025 (10000) in five length patterns: every row alone, all rows forward and backward, repeated rows, grids of pairs; "
          "all index lists to length 4 over databases to 4 rows; rows to 1 MB, 70000 rows, 66000 queries at once; server and client sizes that differ; clients for 2^11..2^62 rows",
    note="Both the two-server form and the leader/helper protocol run on the real code with stand-in encryption; each server's share is compared with the rows its key selects.")
CHECKS["P19"] = dict(parts=[("h_pir", "simple")], thorough_parts=[("h_pir_san", "simple")], level=MC, tech=STATELESS,
    bound="all key sets of up to 4 (thorough 6) of 11 near-equal keys x 1, 2, 3, 5, 129 buckets x 3 (8) seeds x 22 queries alone, together, reversed and repeated; sets of 20..300 keys in 1..1000 buckets, 20 keys in 70000",
    note="The client is built from the published parameters after serialization; the alphabet has prefixes, extensions, zero bytes and the empty query.")
CHECKS["P20"] = dict(parts=[("h_pir_choice", "cuckoo"), ("h_pir", "cuckoo")], level=MC, tech=STATELESS + " (all outcomes of the random eviction choices)",
    bound="all key sets of up to 4 (thorough 6) of 8 near-equal keys x 1..6 and 129 buckets (40 keys in up to 131073) x 2..4 hash functions x 5 (16) seeds x all eviction choices (to 200/2000 placements) x 22 queries alone, together, reversed, repeated; sets of 1..200 keys",
    note="Building must either keep every record retrievable or fail. Keys equal up to trailing zero bytes are a known finding with cases of their own.")
BINARIES["h_roles"] = dict(srcs=["h_roles.cc"], groups=["pir"], fl="san")
CHECKS["P21"] = dict(parts=[("h_roles", "roles")], level=MC, tech="explicit exploration of all combinations of role, request kind, fault and completion order, over call sequences on the real servers, under sanitizers",
    bound="8 request kinds x 7 ways to set roles; leader: 5 completion orders x 32 helper answers x 16 local answers; helper: 4 decryption outcomes x 6 seed sizes x 18 local answers; all pairs of steps on one server "
          "(thorough: triples); real dense servers behind a link with 12 kinds of damage, all pairs of damages followed by a good request",
    note="A scripted subclass supplies local work, sender and decrypter; the oracle is the protocol's definition on plain byte strings.")
BINARIES["h_builder"] = dict(srcs=["h_builder.cc"], groups=["pir"], fl="opt")
BINARIES["h_builder_san"] = dict(srcs=["h_builder.cc"], groups=["pir"], fl="san")
CHECKS["P23"] = dict(parts=[("h_builder", "builder")], thorough_parts=[("h_builder_san", "builder")], level=MC, tech=STATELESS + " (call histories)",
    bound="every sequence of up to 7 (thorough 8) inserts, clears, clones and builds on two dense builders; up to 6 (thorough 7) calls, including 5 ways to configure, on two simple-hashed or cuckoo-hashed builders; "
          "records with empty, equal and long keys and values; builders of 10..1500 (thorough 4000) records, and up to 140000 (1100000) dense ones",
    note="The clone operation creates or replaces the second builder; every built database is read back row by row and compared with the records inserted since the last clear.")
BINARIES["h_pad"] = dict(srcs=["h_pad.cc"], groups=["pir"], fl="opt")
CHECKS["P22"] = dict(parts=[("h_pad", "mask"), ("h_pad", "flow")], level=MC,
    tech=STATELESS + " (request histories; dependence on every bit of the random source)",
    bound="dense, simple and cuckoo retrieval; 19 record lengths to 65537 (thorough 86) x all sequences of 2 (3) requests of 1, 2, 3, 5 (9) queries on one client, and up to 64 (200) queries; "
          "every shape of response of up to 3 (4) parts of 6 sizes and lengths to 700 for unmasking; contexts; every bit of the random source flipped over 3 requests",
    note="Masks are compared with a keystream computed by libcrypto's AES block function; freshness and separation are decided by which source bits influence which message.")
BINARIES["h_fresh"] = dict(srcs=["h_fresh.cc"], groups=["pir", "dcf"], fl="opt")
CHECKS["P33"] = dict(parts=[("h_fresh", "fresh")], level=MC,
    tech=STATELESS + " (generation histories x every bit of the random source flipped)",
    bound="18 kinds of generation (key pairs of point, incremental and comparison functions, interval gates of 3 sizes, pads, hash seeds, client requests): all sequences of two on "
          "shared objects (thorough three), a-b-a and a-a-a, runs of 8 (20)",
    note="Every output bit of every secret must depend on the system's source, with full rank of the dependence, and no source bit may influence two secrets.")
BINARIES["h_seq"] = dict(srcs=["h_seq.cc"], groups=["pir", "dcf", "hash", "prng"], fl="opt")
BINARIES["h_seq_san"] = dict(srcs=["h_seq.cc"], groups=["pir", "dcf", "hash", "prng"], fl="san")
CHECKS["P34"] = dict(parts=[("h_seq", "seq"), ("h_seq_san", "pairs")], level=MC,
    tech=STATELESS + " (call histories, nesting and interleaving of independent uses)",
    bound="4 groups of 37..49 calls (point functions, comparison and gates, hashing and tables, retrieval) and a mixture of all: every ordered pair as the first two calls of a process, every window of 3 calls (thorough 4) in one long-lived process, "
          "each with message arguments overwritten in place, new, or kept; every call nested in 10 callbacks; all interleavings of every two of 18 multi-step uses and of every three of 8 (thorough 18)",
    note="The oracle is the same call made alone in a new process.")
BINARIES["h_span"] = dict(srcs=["h_span.cc"], groups=["dcf"], fl="opt")
BINARIES["h_span_san"] = dict(srcs=["h_span.cc"], groups=["dcf"], fl="san")
CHECKS["P30"] = dict(parts=[("h_span", "span")], thorough_parts=[("h_span_san", "span")], level=MC, tech=STATELESS + " (view histories)",
    bound="5 object types x 14 ways to make a view x 0..9 and 255..257 objects (thorough 40, 65537) in 5 orders x all copy/assignment histories of three views to depth 3 (4); all key lists to length 3 (5) "
          "over a pool of three keys, and lists to 70 and of 4099 and 66000 (140000), for the three batch functions and 5-6 domain sizes",
    note="Elements are compared by address; batch results with single evaluations.")
BINARIES["h_pirbad"] = dict(srcs=["h_pirbad.cc"], groups=["pir"], fl="san")
CHECKS["P29"] = dict(parts=[("h_pirbad", "requests"), ("h_pirbad", "responses"), ("h_pirbad", "configs")], level=MC,
    tech="exhaustive enumeration of single and paired message mutations on the real clients and servers, under sanitizers, against a reference classification",
    bound="3 kinds of retrieval x 3 roles x databases of 1..300 rows (thorough 1025): every single-place change of a request of one or two queries, all pairs of changes at 5 rows, every byte of the "
          "decrypted request cut, flipped or dropped, requests for any other size, kind or seed, also of up to 24 (70) queries; every single change and all pairs of changes of responses and request states, all bucket encodings of up "
          "to 5 (7) bytes over 7 byte values; 26 counts x 5 hash families x 3 kinds of configuration; all pairs of changes of hashing parameters",
    note="What remains well-formed must give the answer the reference construction selects, byte for byte; everything else an error; good requests in between must be answered as before.")
BINARIES["h_conc"] = dict(srcs=["h_conc.cc", "threads_rt.cc"], plain=["threads_rt.cc"], groups=["pir", "dcf", "hash", "prng"], fl="sched",
    ldextra="-rdynamic -Wl,-z,now -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset -ldl")
CHECKS["P28"] = dict(parts=[("h_conc", "conc")], level=MC,
    tech="stateless exploration of thread schedules of the real code under a controlled scheduler, with a vector-clock race check on every memory access",
    bound="25 kinds of shared objects (3 DPFs, comparison function, gate, fixed-key hash, 3 hash functions/families, 3 databases, 3 clients, 9 servers, threads with own objects) x all ordered pairs of operations, "
          "2x2 calls, 3 threads; first use in a fresh process, then one preemption at every synchronization, shared write, random draw and the first entries of every function from every call site (two preemptions for the hashes, in "
          "thorough for all kinds); every access of every run through a happens-before race check",
    note="The code under test is compiled with access hooks into our own runtime, which owns threads, locks, once-guards, atomics, heap and randomness; writes by uninstrumented libraries are caught by page protection. "
         "Sequentially consistent interleavings only; weak-memory effects are covered as races.")
