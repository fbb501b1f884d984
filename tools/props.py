#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

DPF = "dpf/distributed_point_function.cc"; DPFH = "dpf/distributed_point_function.h"
p("P01", "A DPF key pair shares exactly the point function it was made for",
  "For every supported domain size, every index alpha inside it and every value beta, the two evaluations of the key pair at any domain point add up to beta at alpha and to zero everywhere else. This holds for full-domain expansion, which returns exactly one element per domain point in domain order, and for evaluation at any list of points, in any order and with repetitions.",
  ["inputs", "configurations"], "all (log domain size, alpha, evaluation point, beta, integer width) combinations and all values of the random seeds",
  "Tests sample a few (alpha, beta, domain) triples with one random seed each; a fault in one tree level, one packed element position or one control-bit combination needs the matching alpha/point/seed.",
  [DPF, DPFH, "dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/value_type_helpers.h"],
  [("correction words zero the off-path seeds and control bits", DPF), ("value correction at the leaf", DPFH), ("packing of several elements in one 128-bit leaf", "dpf/internal/proto_validator.cc")],
  ["GenerateKeys", "EvaluateUntil", "EvaluateAt"])
p("P02", "Incremental evaluation is right for every legal sequence of calls",
  "Whatever legal sequence of hierarchy levels and prefix sets a caller uses to evaluate an incremental key pair (levels skipped or not, prefixes in any order or repeated, contexts serialized and restored or copied in between), the two parties' outputs add up to that level's beta at the extension of alpha's prefix and to zero at every other extension. Outputs come back in the order of the requested prefixes, one block of all extensions per prefix, and the share returned for a given domain point does not depend on the sequence that led to it.",
  ["histories", "inputs"], "all hierarchies up to a bound, all level sequences through them, all prefix sets/orders, all alpha",
  "Tests follow a handful of fixed level sequences and prefix lists; the context carries partial evaluations between calls, so faults depend on the whole history of calls.",
  [DPF, DPFH, "dpf/internal/proto_validator.cc"],
  [("partial evaluations stored in the evaluation context", DPF), ("prefix deduplication and index map", DPFH)],
  ["EvaluateUntil", "EvaluateNext"], [("EvaluationContext", "key, level reached, cached partial evaluations", "dpf/distributed_point_function.proto")])
p("P03", "Point evaluation agrees with expansion, with or without a context",
  "Evaluating a key at a list of points of a hierarchy level returns, for each point, exactly the share that full expansion to that level returns for it, whether the key is used directly or through an evaluation context, and whatever mixture of point evaluations and expansions the context has been through before. Points may come in any order and be repeated.",
  ["histories", "inputs"], "all hierarchies up to a bound, all sequences mixing point evaluation and expansion on one context, all point lists",
  "Only a few call sequences are tested; the context version starts from whatever partial evaluations earlier calls stored, so correctness depends on the call history.",
  [DPFH, DPF], [("shared partial-evaluation lookup for both APIs", DPF), ("EvaluateAt with and without context", DPFH)], ["EvaluateAt"])
p("P04", "Batched key evaluation gives every level's shares and stops on demand",
  "Evaluating a batch of keys, each at its own point, calls the caller's function exactly once per hierarchy level in increasing order with, for each key, the share of the prefix of its point at that level that evaluating that key alone would give. Evaluation points given with extra low-order bits are treated as if those bits had been dropped, evaluation stops after the first level at which the function asks to stop, and inputs with mismatched sizes or invalid keys are rejected without calling the function.",
  ["inputs", "histories"], "all hierarchies up to a bound, batch sizes across SIMD widths, all points/shifts, all stop levels",
  "Tests use a few random batches; the batch loop reuses one buffer across levels, and per-key correction words are strided through SIMD lanes.",
  [DPFH, "dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/maybe_deref_span.h"],
  [("level-by-level batched evaluation with early exit", DPFH)], ["EvaluateAndApply"])
p("P05", "Every supported value type is shared correctly, alone and nested",
  "For every supported output type (unsigned integers of 8 to 128 bits, integers modulo N, XOR-shared integers, and tuples of these, nested or not), at every hierarchy level and for every value, the two parties' outputs combine under that type's own addition to beta at alpha and to the type's zero elsewhere. Types of different levels may differ freely, and a leaf that packs several elements or needs several blocks behaves the same as any other.",
  ["inputs", "configurations"], "all value types up to a size bound, all alpha/point pairs on small domains, boundary and all small values of beta, mixed-type hierarchies",
  "Tests instantiate a fixed list of types with a few values; packing, block counts and corrections are computed per type and position.",
  ["dpf/internal/value_type_helpers.h", "dpf/internal/value_type_helpers.cc", "dpf/tuple.h", "dpf/xor_wrapper.h", "dpf/int_mod_n.h"],
  [("per-type conversion from pseudorandom bytes and correction", "dpf/internal/value_type_helpers.h")], ["GenerateKeys", "EvaluateUntil", "EvaluateAt"])
p("P06", "Values survive encoding and decoding; values that do not fit are refused",
  "Encoding any value of a supported type and decoding it as the same type gives the same value back, and the type descriptor of two types is equal exactly when the types are. Decoding an encoded value that is not a value of the requested type (wrong kind, too large for the integer width, not below the modulus, wrong number or kind of tuple elements) fails with an invalid-argument error instead of producing a truncated or default value, and reconstructing bytes into packed elements keeps every element in its position.",
  ["inputs"], "all 8-bit values, boundary values of every wider type, all small value messages against all small types",
  "Tests try one value per type and a few error cases; the reject conditions must hold for each combination of target type and message shape.",
  ["dpf/internal/value_type_helpers.h", "dpf/internal/value_type_helpers.cc", "dpf/internal/proto_validator.cc", DPFH],
  [("FromValue/ToValue/ToValueType per type", "dpf/internal/value_type_helpers.h")], ["FromValue", "ToValue", "ToValueType"])
p("P07", "Output groups obey the group laws",
  "Addition, subtraction and negation on integers modulo N, tuples and XOR-shared integers form a commutative group with the default-constructed value as zero: they agree with exact modular arithmetic, componentwise arithmetic and bitwise XOR respectively, for every pair of values including when an operand is combined with itself. Compound assignment, comparison, conversion and component access agree with the corresponding values.",
  ["inputs"], "all pairs (triples for associativity) of small moduli, all 8-bit XOR values, boundary moduli next to 2^8..2^128, tuples over small components",
  "Tests check a handful of sums; carry and wrap-around faults appear only at particular operand pairs near the modulus or word size.",
  ["dpf/int_mod_n.h", "dpf/tuple.h", "dpf/xor_wrapper.h"],
  [("modular add/sub without overflow", "dpf/int_mod_n.h"), ("componentwise operators", "dpf/tuple.h"), ("XOR as addition", "dpf/xor_wrapper.h")])
p("P08", "Sampling integers modulo N uses the random bytes exactly as specified",
  "Drawing k integers modulo N from a byte string gives the base-N digits of the string read as a number, with the documented refresh after each draw, so that every element is below N, is reduced exactly, and depends on all of the bytes it should depend on. The number of bytes asked for is the documented function of N, k and the security parameter, shorter inputs and unattainable security levels are refused, and the reported security level matches the exact formula.",
  ["inputs", "configurations"], "all small moduli exhaustively, moduli next to powers of two up to 2^128, all sample counts up to a bound, byte strings exercising every carry position",
  "Tests check a few moduli with fixed expected outputs; off-by-one byte counts and lost carries need specific moduli and byte strings.",
  ["dpf/int_mod_n.h", "dpf/int_mod_n.cc", "dpf/internal/value_type_helpers.h"],
  [("division with remainder and refresh of the quotient", "dpf/int_mod_n.h"), ("byte and security accounting", "dpf/int_mod_n.cc")], ["SampleFromBytes", "UnsafeSampleFromBytes", "GetNumBytesRequired"])
p("P09", "Malformed DPF inputs are refused, never crash or corrupt",
  "Parameters, keys, evaluation contexts, values and evaluation requests that do not meet the documented requirements (missing or surplus parts, out-of-range sizes, indices, levels or values, mismatched parameters or types) are refused with an invalid-argument style error; a request to expand (EvaluateUntil, EvaluateNext) refused for its arguments leaves the context as it was. No message, however malformed, makes the library abort, read out of bounds or return a wrong share with an OK status, and every well-formed one is accepted.",
  ["inputs", "fault_sequences"], "every single-site (and pairs of) field deletion, duplication or boundary-value mutation of valid parameters, keys, contexts, values and requests",
  "Tests cover one example per documented check; crashes hide in field/level combinations nobody wrote down.",
  ["dpf/internal/proto_validator.cc", DPF, DPFH, "dpf/internal/value_type_helpers.h"],
  [("message validation", "dpf/internal/proto_validator.cc"), ("argument checks before evaluation", DPFH)])
p("P10", "Keys and shares are bit-for-bit those of the published construction",
  "Given the two root seeds, both keys and all shares are bit-for-bit those of the published incremental DPF construction with the documented fixed hash keys, so keys made by one build evaluate correctly under any other conforming build. The two keys of a pair agree on everything except party number and root seed, and the shape of a key (number, presence and size of its parts) depends only on the parameters, not on alpha or beta.",
  ["inputs", "configurations"], "all hierarchies up to a bound, all alpha on small domains, sampled positions on 128-bit domains, all value types, chosen root seeds",
  "Tests compare the code with itself, so a consistent change of format, hash, bit order or value encoding passes although old keys stop working; shape leaks need comparison across all alpha.",
  [DPF, "dpf/aes_128_fixed_key_hash.cc", "dpf/internal/evaluate_prg_hwy.cc"],
  [("key generation", DPF), ("fixed PRG keys", DPF)], ["GenerateKeysIncremental"])
p("P11", "DPF tree evaluation gives the same result for every CPU target and batch shape",
  "Evaluating many seeds along their paths gives, for each seed, exactly the result of evaluating it alone with the reference (non-vectorized) walk: independent of which SIMD instruction set is selected, of how many seeds are in the batch, of each seed's position in it, and of whether correction words are shared or per seed. Input and output buffers may be the same.",
  ["inputs", "configurations"], "all compiled SIMD targets, all batch sizes up to several vector widths, level counts, path bit patterns, control-bit patterns, shifts and correction word layouts",
  "Tests run one SIMD target (the best on the machine) with a few sizes; remainder handling and lane masks depend on size modulo the vector width and on the target.",
  ["dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/evaluate_prg_hwy.h", "dpf/internal/aes_128_fixed_key_hash_hwy.h", "dpf/internal/get_hwy_mode.cc"],
  [("vectorised tree walk with scalar remainder", "dpf/internal/evaluate_prg_hwy.cc")], ["EvaluateSeeds"])
p("P12", "The fixed-key hash is the documented function of each block",
  "Hashing a batch of blocks gives, for each block x, AES under the fixed key of sigma(x) XORed with sigma(x), where sigma maps (high, low) to (high XOR low, high): for every key, every block, every batch length and every position in the batch. The output buffer may be the input buffer or overlap it, nothing outside the output range is written, output size mismatches are refused, and the object can be moved and reused.",
  ["inputs"], "all batch lengths across internal batch boundaries, every input/output overlap offset, all single-bit and two-bit blocks, several keys",
  "Tests use a few lengths and fixed blocks without overlap between distinct positions; internal batching faults appear only at particular lengths or overlaps.",
  ["dpf/aes_128_fixed_key_hash.cc", "dpf/aes_128_fixed_key_hash.h"],
  [("fixed size batching with sigma applied per batch", "dpf/aes_128_fixed_key_hash.cc")], ["Aes128FixedKeyHash::Evaluate"])
p("P13", "A DCF key pair shares exactly the comparison function it was made for",
  "For every domain size, threshold alpha and value beta, the two evaluations of a distributed comparison function key pair at x add up to beta if x is smaller than alpha and to zero otherwise, for every x in the domain and every supported value type. Evaluating a batch of keys at a batch of points gives the same shares as evaluating them one at a time.",
  ["inputs", "configurations"], "all (alpha, x) pairs on small domains, boundary pairs up to 128-bit domains, all value types, batch sizes across SIMD widths",
  "Tests check a few alphas; the accumulation over levels is wrong only for particular bit patterns of alpha and x.",
  ["dcf/distributed_comparison_function.cc", "dcf/distributed_comparison_function.h"],
  [("one incremental level per bit, beta placed where alpha has a one", "dcf/distributed_comparison_function.cc")], ["GenerateKeys", "Evaluate", "BatchEvaluate"])
p("P14", "The interval containment gate is right for every input, mask and interval",
  "For every group size, list of intervals, input mask, output masks and masked input, the two parties' outputs of the multiple interval containment gate add up, modulo the group size, to the output mask plus one if the unmasked input lies in the interval and to the output mask alone if not. This includes intervals touching either end of the group, masked bounds that wrap around, single-point intervals and any number of intervals, evaluated one input at a time or in batches.",
  ["inputs", "configurations"], "all intervals x all masks x all inputs on small groups, boundary combinations on large groups, all interval counts up to a bound",
  "Tests cover a few intervals with random masks; the correction terms depend on the order relation of four masked quantities.",
  ["dcf/fss_gates/multiple_interval_containment.cc", "dcf/fss_gates/multiple_interval_containment.h"],
  [("public correction from wrap-around of the masked bounds", "dcf/fss_gates/multiple_interval_containment.cc")], ["Gen", "Eval", "BatchEval"])
p("P15", "Malformed comparison and interval inputs are refused, never crash",
  "Creating, generating or evaluating a comparison function or interval gate with parameters, keys, masks, intervals or points outside the documented range or of mismatched count fails with an error and never aborts, reads out of bounds or returns a share with an OK status. Everything within the documented range is accepted, including values at its ends.",
  ["inputs", "fault_sequences"], "every single-site field deletion, duplication or boundary mutation of valid parameters and keys, all argument count mismatches",
  "Tests cover one example per documented check.",
  ["dcf/distributed_comparison_function.cc", "dcf/fss_gates/multiple_interval_containment.cc"],
  [("parameter and key checks", "dcf/fss_gates/multiple_interval_containment.cc")])
p("P16", "The seeded PRNG stream depends only on seed and total bytes drawn",
  "The bytes drawn from a seeded generator are the AES-128-CTR keystream of its seed and nonce from the start of the stream, independent of how the caller splits the draws into calls of any length, including zero-length and one-byte calls. Generators with the same seed and nonce yield the same stream, different nonces yield the documented disjoint streams, and seeds or nonces of the wrong size are refused.",
  ["histories", "inputs"], "all sequences of draw lengths up to a total, across block and buffer boundaries, seeds and nonces at boundary values including counter carries",
  "Tests draw a few fixed lengths; buffer-refill faults need a particular remainder before a particular draw.",
  ["pir/prng/aes_128_ctr_seeded_prng.cc", "pir/prng/aes_128_ctr_seeded_prng.h", "pir/prng/prng.h"],
  [("AES-CTR context kept across calls", "pir/prng/aes_128_ctr_seeded_prng.cc")], ["GetRandomBytes"])
p("P17", "The default random generator hands out each system random byte once, in order",
  "Random values of 8, 64 and 128 bits drawn from the default generator are built only from bytes of the system's cryptographic random source, every bit of each value comes from its own fresh source bit, and no source byte is handed out twice. This holds for every interleaving of draws of different widths and for independent instances, and when the source fails the draw fails instead of returning a value.",
  ["histories", "inputs"], "all sequences of draw widths up to a depth, on several instances, against a recorded random source",
  "Tests only check that two draws differ; reuse of buffered bytes or truncated width needs a particular draw sequence and a visible source.",
  ["dcf/fss_gates/prng/basic_rng.h", "dcf/fss_gates/prng/basic_rng.cc", "dcf/fss_gates/prng/prng.h"],
  [("draws bytes from the crypto library", "dcf/fss_gates/prng/basic_rng.h")], ["Rand8", "Rand64", "Rand128"])
p("P18", "Dense private retrieval returns exactly the requested rows",
  "For every database of byte strings (any count, any lengths, empty rows included, at least one row not empty) and every non-empty list of in-range indices (repeated or not), combining the two servers' responses yields exactly the rows at those indices, zero-padded to the common row length the database defines, in request order. Either server's response alone is the XOR of the rows its key selects. Out-of-range indices, servers configured for another number of rows and requests made for another domain size are refused.",
  ["inputs", "configurations"], "all database sizes up to a bound and around block boundaries, all index lists up to a bound, row length patterns",
  "Tests use one database size and a few indices; padding, block and bit-offset faults depend on count and length modulo machine word sizes.",
  ["pir/dense_dpf_pir_client.cc", "pir/dense_dpf_pir_server.cc", "pir/dense_dpf_pir_database.cc", "pir/internal/inner_product_hwy.cc", "pir/dpf_pir_server.cc"],
  [("DPF expansion as packed selection vector", "pir/dense_dpf_pir_server.cc"), ("XOR inner product", "pir/internal/inner_product_hwy.cc")], ["HandleRequest", "HandleResponse"])
p("P19", "Simple-hash keyword retrieval returns the value of exactly the requested keys",
  "For every non-empty set of key-value pairs with distinct keys and every non-empty list of queried byte strings, retrieval through a simple-hashing database yields for each queried key that is stored exactly its value, and for each key that is not stored, including prefixes, extensions and the empty string, a not-found answer, in query order. Client and server agree on the layout from the public parameters alone.",
  ["inputs", "configurations"], "all small key sets with forced bucket collisions, all queries from a closed alphabet, bucket counts and hash families up to a bound",
  "Tests use one generated data set; collisions, near-equal keys and empty buckets are not exercised systematically.",
  ["pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashed_dpf_pir_database.cc"],
  [("bucket layout by seeded hash", "pir/simple_hashed_dpf_pir_database.cc"), ("client scans the returned bucket", "pir/simple_hashing_sparse_dpf_pir_client.cc")])
p("P20", "Cuckoo-hash keyword retrieval returns the value of exactly the requested keys",
  "For every non-empty set of pairs with distinct keys (and not only empty values) that the database accepts and every non-empty list of queried byte strings, retrieval through a cuckoo-hashing database yields for each queried key that is stored its value, padded with zero bytes to the common value length, and for each key that is not stored, including prefixes, extensions and the empty string, a not-found answer, in query order. Building a database either keeps every inserted pair retrievable or fails; it never silently drops one.",
  ["inputs", "configurations"], "all small key sets (with forced collisions and full tables), all queries from a closed alphabet, table sizes and seeds up to a bound",
  "Tests use one generated data set with ample space; eviction chains, stash overflow and near-equal keys are not exercised systematically.",
  ["pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/cuckoo_hashed_dpf_pir_database.cc", "pir/hashing/cuckoo_hash_table.cc"],
  [("cuckoo placement", "pir/hashing/cuckoo_hash_table.cc"), ("client compares the stored key", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc")])
p("P21", "The leader/helper protocol is exact and survives every fault of the other side",
  "When leader and helper both answer, the client obtains the right records whatever the number of queries and record sizes; when the helper's answer is missing, late, failed, empty, of the wrong kind or of the wrong size, or the leader's local work fails, the leader returns an error and never a response mixing stale or partial data. The leader sends exactly one request to the helper per client request, waits for it before answering, and requests of the wrong kind or for a server in the wrong role are refused by every role.",
  ["fault_sequences", "schedules", "histories"], "all combinations of server role, request kind, fault at each step and order of local and remote completion, over sequences of requests on one server",
  "Tests check the success path and a couple of errors with mocks; combinations of role, fault and order are not enumerated.",
  ["pir/dpf_pir_server.cc", "pir/dpf_pir_server.h", "pir/dense_dpf_pir_client.cc"],
  [("leader combines own and helper response", "pir/dpf_pir_server.cc"), ("role dispatch", "pir/dpf_pir_server.cc")], ["HandleRequest"])
p("P22", "Helper answers are masked with a fresh one-time pad; the leader sees no query",
  "Everything the helper returns to the leader is the true response XORed with a keystream that only the client and the helper can compute; every request uses a fresh pad seed, every byte of a response and of a sequence of responses to one request is masked by a different part of that keystream, and the client removes it exactly. The part of a client request readable by the leader never contains the helper's key share or the pad seed, and the helper's part never contains the leader's key share.",
  ["inputs", "histories"], "all sequences of requests on one client, all query counts and record sizes up to a bound, all byte positions of request and response",
  "Tests only check that unmasking works; pad reuse or leakage of the wrong share also unmasks correctly.",
  ["pir/dpf_pir_server.cc", "pir/dpf_pir_client.h", "pir/dense_dpf_pir_client.cc", "pir/prng/aes_128_ctr_seeded_prng.cc"],
  [("pad seed in the encrypted helper request", "pir/dense_dpf_pir_client.cc"), ("keystream XOR", "pir/dpf_pir_server.cc")])
p("P23", "Database builders produce exactly the inserted records for every call sequence",
  "Whatever sequence of inserts, clears, clones and builds is applied to a database builder, the built database holds exactly the records inserted since the last clear, in order where order is defined, with its reported size and lengths matching, and a clone evolves independently of its original. A build that is missing required configuration, or a second build by a builder that was already built, fails with an error instead of producing a wrong database; clearing a builder lets it start over with its configuration intact.",
  ["histories"], "all operation sequences up to a depth over builders of dense, simple-hashed and cuckoo-hashed databases",
  "Tests insert a fixed list and build once; clear, clone and reuse orders are barely covered.",
  ["pir/dense_dpf_pir_database.cc", "pir/simple_hashed_dpf_pir_database.cc", "pir/cuckoo_hashed_dpf_pir_database.cc"],
  [("builder state", "pir/dense_dpf_pir_database.cc")], ["Builder::Insert", "Builder::Clear", "Builder::Clone", "Builder::Build"])
p("P24", "Database inner product is the XOR of the selected rows on every CPU target",
  "The inner product of a database with packed selection bits is, for each selection vector, exactly the XOR of the rows whose bit is set, each row counted as padded with zeros to the maximum row length, and bits beyond the last row are ignored. The result is the same for every compiled SIMD instruction set, any number of selection vectors and rows, any row lengths and any memory placement of rows; too few selection blocks are refused.",
  ["inputs", "configurations"], "all SIMD targets, row counts around 8/128 boundaries, row lengths around vector widths, single-bit and dense selections, 1..n selection vectors",
  "Tests use random data for one target and a few sizes; tails and alignment depend on length modulo vector width and on the target.",
  ["pir/internal/inner_product_hwy.cc", "pir/internal/inner_product_hwy.h", "pir/dense_dpf_pir_database.cc"],
  [("vectorised masked XOR with scalar tail", "pir/internal/inner_product_hwy.cc")], ["InnerProduct", "InnerProductWith"])
p("P25", "Bucketed hash tables hold every accepted element and respect their limits",
  "After any sequence of insertions into a simple or multiple-choice hash table, every accepted element is in the bucket(s) its hash functions assign it to (all of them for simple hashing, the least loaded for multiple choice) in insertion order, nothing else is stored, and no bucket exceeds the configured maximum. A refused insertion reports an error and leaves the table as it was, and invalid configurations are refused.",
  ["histories", "configurations"], "all insertion sequences up to a depth over a small key alphabet, all tables of hash functions into few buckets, all limits",
  "Tests insert a few elements with one hash family; overflow and collision between an element's own candidate buckets need chosen hash functions.",
  ["pir/hashing/simple_hash_table.cc", "pir/hashing/multiple_choice_hash_table.cc"],
  [("insertion", "pir/hashing/simple_hash_table.cc")], ["Insert", "GetTable"])
p("P26", "A cuckoo hash table never loses an element it accepted",
  "After any sequence of insertions into a cuckoo hash table, whatever its random choices, every accepted element is stored exactly once, either in one of its candidate buckets or in the stash, each bucket holds at most one element and the stash at most its maximum. An insertion into a table with a free candidate bucket succeeds without using the stash, and a refused insertion reports an error and loses no previously accepted element. Evictions can reach every arrangement the limit allows: where some chain of at most the maximum number of relocations places the new element, some outcome of the random choices places it without the stash.",
  ["histories", "configurations", "schedules"], "all insertion sequences up to a depth, all candidate assignments into few buckets, all outcomes of the random eviction choices, all stash and relocation limits",
  "Tests insert into a mostly empty table with one random sequence; loss needs a full chain and a full stash.",
  ["pir/hashing/cuckoo_hash_table.cc", "pir/hashing/cuckoo_hash_table.h"],
  [("random-walk eviction with stash", "pir/hashing/cuckoo_hash_table.cc")], ["Insert", "GetTable", "GetStash"])
p("P27", "Hash functions are fixed by their configuration and always in range",
  "A hash function built from a configuration and seed maps every byte string to a bucket below the requested bound, and the mapping is the documented function of family, seed, input and bound: the same in every process, so that clients and servers built separately agree. Distinct seeds give the documented distinct functions, seeded families derive one function per index, and unknown families, empty seeds and negative function counts are refused.",
  ["inputs", "configurations"], "all families, all bounds up to a limit and at powers of two, all short inputs with embedded zero bytes, seeds of all short lengths",
  "Tests pin a few outputs; a change that is self-consistent (seed order, truncation, byte order) or hits only some lengths or bounds passes.",
  ["pir/hashing/sha256_hash_family.cc", "pir/hashing/farm_hash_family.cc", "pir/hashing/hash_family.cc", "pir/hashing/hash_family_config.cc", "pir/hashing/hash_family.h"],
  [("seeded hash wrapped to a bound", "pir/hashing/sha256_hash_family.cc")], ["CreateHashFamilyFromConfig", "CreateHashFunctions"])
p("P28", "Objects serve concurrent calls, and separate objects do not interfere",
  "Evaluation, hashing, inner products, request creation, request handling and response handling on one shared object (DPF, comparison function, interval gate, fixed-key hash, hash function or family, retrieval database, client, server in any role), and key generation whose value types are already registered, may run in several threads at once: in every interleaving each caller gets the result it would get alone with the same randomness, and no call writes memory that another one reads or writes without synchronization. The same holds for threads that work on objects of their own, including their first use of the library.",
  ["schedules"], "all interleavings of two or three threads each making one or two calls on a shared object, for every object kind and pair of operations; threads using separate objects",
  "Tests are single-threaded; a hidden shared scratch buffer, an unsynchronized lazily built cache or a lock released too early only shows under particular interleavings.",
  [DPF, "dpf/aes_128_fixed_key_hash.cc", "dcf/distributed_comparison_function.h", "pir/dense_dpf_pir_client.cc", "pir/dense_dpf_pir_database.cc", "pir/dpf_pir_server.cc", "pir/hashing/sha256_hash_family.cc"],
  [("per-call state only; cipher context not changed by evaluation", "dpf/aes_128_fixed_key_hash.cc")])
p("P29", "Malformed retrieval messages are refused, never crash or answer wrongly",
  "Clients and servers refuse configurations, requests, request states and responses that are missing parts, carry parts of the wrong kind, count or size, or do not match the database or what the request state records, with an error status. None of them aborts, reads out of bounds or yields data with an OK status, and the outcome does not depend on previous calls.",
  ["inputs", "fault_sequences"], "every single-site (and selected pairs of) field deletion, duplication, resize or boundary mutation of valid configurations, requests, states and responses for every role and database kind",
  "Tests cover one example per documented check.",
  ["pir/dense_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/dense_dpf_pir_server.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/dpf_pir_server.cc"],
  [("request, response and configuration checks", "pir/dense_dpf_pir_server.cc")])
p("P30", "A key batch means the same given as objects or as pointers",
  "Evaluating a batch of keys gives the same results for every batch function (points, comparisons, interval gates) whether the keys are given as a sequence of objects or of pointers, wherever the pointed-to keys lie and however often one is repeated, and equals evaluating each key alone. The batch view itself has the size of the sequence, refers to exactly the given objects at every index, is unaffected by copies and assignments of other views, and neither copies nor modifies keys or pointers.",
  ["inputs", "histories"], "all key lists up to a bound over a small pool in every form, all sequence lengths up to a bound, all container kinds, all copy and assignment sequences of views up to a depth",
  "Tests check two elements in a few forms; longer batches, repeated pointers and views copied from other views are not covered.",
  ["dpf/internal/maybe_deref_span.h", "dpf/distributed_point_function.h", "dcf/distributed_comparison_function.h", "dcf/fss_gates/multiple_interval_containment.cc"],
  [("variant of object span and pointer span", "dpf/internal/maybe_deref_span.h")], ["EvaluateAndApply", "BatchEvaluate", "BatchEval"])
p("P31", "A single key reveals nothing about alpha or beta",
  "No efficient adversary holding one key of a pair (and any shares computed from it) can distinguish the alpha or beta it was generated for from any other choice of the same parameters.",
  ["inputs"], "all adversaries, all alpha and beta",
  "A computational indistinguishability claim cannot be tested on examples.",
  [DPF, "dpf/aes_128_fixed_key_hash.cc"], [("pseudorandomness of the fixed-key hash", "dpf/aes_128_fixed_key_hash.cc")])
p("P32", "Outputs modulo N are statistically close to uniform",
  "The distribution of pseudorandom shares modulo N is within 2^-security-parameter statistical distance of uniform, for every modulus, tuple size and security parameter the library accepts.",
  ["configurations"], "all moduli and security parameters",
  "A statistical bound over at least 2^40 random strings per modulus cannot be sampled by tests.",
  ["dpf/int_mod_n.h", "dpf/int_mod_n.cc"], [("security level computation", "dpf/int_mod_n.cc")])
p("P33", "Every secret is drawn fresh and in full from the system's random source",
  "The two root seeds of every generated key pair (point, incremental, comparison and interval functions), the share of every output mask of an interval gate, every one-time-pad seed and every hash seed are drawn in full from the system's secure random source: each of their bits varies with bits of that source, and no bit of the source is used for two such secrets, whatever sequence of generations runs on whichever objects.",
  ["histories", "inputs"], "all sequences of generations up to a depth on shared and separate objects, every bit of the random source changed",
  "Correctness tests pass with constant, repeated or partly constant randomness; reuse only shows across calls and only by controlling the source.",
  [DPF, "dcf/fss_gates/multiple_interval_containment.cc", "dcf/fss_gates/prng/basic_rng.h", "pir/prng/aes_128_ctr_seeded_prng.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc"],
  [("root seeds from RAND_bytes", DPF), ("output mask shares", "dcf/fss_gates/multiple_interval_containment.cc"), ("pad seed", "pir/prng/aes_128_ctr_seeded_prng.cc")], ["GenerateKeys", "Gen", "GenerateSeed", "GenerateParams"])
p("P34", "Calls do not influence each other",
  "What a call returns depends only on its arguments and on the state that the object it is documented to change has through its own calls (an evaluation context, a builder, a hash table, a pad generator). Earlier, failed, nested (from a callback) or interleaved calls, on the same or on any other object of the library, never change it: not when a message object is overwritten with other contents and passed again, nor when an object lives where another one lived before. Arguments passed as const are left as they were.",
  ["histories"], "all sequences of calls up to a depth over calls of all parts of the library, all nestings of a call in a callback, all interleavings of two or three multi-step uses",
  "Each test runs few calls on fresh objects; a stale cache, a scratch buffer that outlives its call or a flag left by a failure shows only after particular earlier calls.",
  [DPF, DPFH, "dcf/distributed_comparison_function.h", "dcf/fss_gates/multiple_interval_containment.cc", "dpf/aes_128_fixed_key_hash.cc", "pir/dpf_pir_server.cc", "pir/internal/inner_product_hwy.cc", "pir/prng/aes_128_ctr_seeded_prng.cc", "pir/hashing/sha256_hash_family.cc"],
  [("evaluation state only in the caller's context", "dpf/distributed_point_function.proto"), ("const methods on shared objects", DPFH), ("scratch of the inner product", "pir/internal/inner_product_hwy.cc")],
  ["EvaluateAt", "EvaluateUntil", "EvaluateAndApply", "GenerateKeys", "BatchEvaluate", "HandleRequest", "HandleResponse", "CreateRequest", "InnerProductWith", "Insert"])
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    print(json.dumps(x))
