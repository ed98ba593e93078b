#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

O, D, R, W, L = "src/oram.rs", "src/decision_tree.rs", "src/rlwe.rs", "src/rgsw.rs", "src/lwe.rs"

prop("C01", "Single-query ORAM behaves like a random-access memory",
 "For every sequence of encrypted read and write queries sent one at a time, a read of item i decrypts to the value of the most recent write to i (or to the initial value), a write query's own response decrypts to the item's previous value, and no query changes any other item. This holds for every item index, every power-of-two database size from 2 up, every plaintext in the plaintext space, and for every supported parameter set. The client keeps no state: any client object holding the same secret key can issue the next query.",
 ["histories", "inputs", "configurations"], "All histories of reads/writes over all indices and values, database sizes 2..2^k, parameter sets (ring size, decompositions, plaintext modulus, noise) whose noise budget covers the history.",
 "Tests run one read and one write/read pair on item 1 of a 16-item database with the default parameters and binary data.",
 [O, D, R, W], [("demultiplexed one-hot selection, external product, cmux rewrite", "src/oram.rs process_one_mt/update_db_mt"), ("bit-decomposed index encryption", "src/decision_tree.rs bit_decomposed_rgsw/demux_with")],
 ["decryption of each response", "decryption of the stored database after each access"], "read-only snapshot of the server's stored ciphertexts",
 [("database row 0", "the encrypted items", "Server.data[0]")])

prop("C02", "Multi-query call answers every query and applies every write",
 "A multi-query call returns one response per query, in query order, and every response decrypts to the queried item's value as it was before the call. Afterwards every item holds the value of the last write in the call that addressed it, items addressed only by reads or not at all are unchanged, and this also holds when several queries of one call address the same item.",
 ["histories", "inputs", "configurations"], "All calls with any mix of reads and writes, any number of queries (fewer or more than the threads), repeated indices, any interleaving with earlier calls.",
 "Tests send two queries to two distinct items, all reads or all writes of one value.",
 [O], [("response phase over queries, then database update", "src/oram.rs Server::process_multi")],
 ["decryption of each response", "decryption of the stored database after the call"], "read-only snapshot of the server's stored ciphertexts")

prop("C03", "Batched access serves every requested item and keeps all replicas equal",
 "For every set of distinct items that the client can place, a batched call's response in the row assigned to an item decrypts to that item's value before the call. After the call every replica of every item decrypts to the same value: the written value for items in a batched write, the previous value for all other items. This holds over any history of batched reads and writes, any number of hash functions, any rectangular shape, and whichever replica was addressed.",
 ["histories", "inputs", "configurations"], "All batched histories; h in 1..h_max, rows x cols shapes (rows not a power of two included), replica positions that share rows, replicas of one item lying in rows used by other queries.",
 "The test uses one 8x8 shape with 4 hash functions, one 2-item read and one 2-item write of one value.",
 [O, "src/naive_hash.rs"], [("per-row access, per-row update", "src/oram.rs Server::process_batch"), ("replica repair", "src/oram.rs correct_consistency"), ("placement", "src/naive_hash.rs hash_to_mapping")],
 ["decryption of responses by assigned row", "decryption of every replica after the call"], "read-only snapshot of the server's stored ciphertexts")

prop("C04", "A freshly generated database holds exactly the plaintexts reported to the owner",
 "When a random database is set up, the reported plaintext list has exactly one entry per item, each within the plaintext space, and every replica of item i in the stored database decrypts to entry i. Every cell of the database is occupied by exactly one replica, for all sizes (above and below the number of distinct random values generated), shapes and numbers of hash functions.",
 ["configurations", "inputs"], "All (rows, cols, hash-count) shapes, item counts from 1 to thousands, all plaintext moduli.",
 "Tests only check the two or three items they later access in a 16-item database, so replication of values beyond the first 128 items is never compared.",
 [O], [("dummy database generation", "src/oram.rs Client::gen_dummy_database"), ("setup", "src/oram.rs setup_random_oram")],
 ["decryption of the generated matrix returned by the client", "reported plaintexts"])

prop("C05", "Client queries hide operation, index and data behind fresh encryption",
 "Every query a client produces has the same shape (number, dimensions and decomposition of its ciphertexts) whatever the operation, index and data, and a batched request always has exactly one query per database row, including dummy queries for rows that serve no item. Every ciphertext in every query (dummies included) and in the evaluation key given to the server is freshly randomised: masks are uniform and never repeat within or across queries, and the error of each row has the configured standard deviation (never zero, never larger). The secret key's bits and the queried index, operation and data do not appear unencrypted anywhere in the query. The same freshness (unrepeated uniform masks, configured error size) holds for everything else encrypted for the server: the initial database, where cells share a ciphertext only if they hold replicas of one plaintext, encrypted feature vectors, scalar ciphertexts, and evaluation, key-switching and substitution keys.",
 ["inputs", "histories", "configurations"], "All operations, indices, data, repeated identical requests, batched requests of every fill level, parameter sets.",
 "No test inspects a query's ciphertexts; a query with missing noise, a reused mask or a cheaper shape decrypts just as well.",
 [O, R, D], [("RGSW/RLWE encryption with context generator", "src/rlwe.rs encrypt_rlwe/encrypt_constant_rgsw"), ("dummy rows", "src/oram.rs gen_read_query_batch/gen_write_query_batch")],
 ["ciphertext components of generated queries"], "read-only accessor for a query's ciphertext components")

prop("C06", "The server's access pattern and database rewriting are independent of the query",
 "Processing any query touches and replaces every ciphertext of the database rows it runs on: after a single or multi-query call every stored cell, and after a batched call every cell of every row, differs as a ciphertext from before, for reads, writes and dummies alike. The sequence of operations the server performs (number and order of homomorphic products and buffer allocations) is the same for all queries of the same shape, whatever operation, index and data they encrypt.",
 ["inputs", "histories", "configurations"], "All operations, indices and values; single, multi and batched calls; all shapes.",
 "No test compares stored ciphertexts before and after an access or compares traces of two queries.",
 [O], [("oblivious rewrite of all cells", "src/oram.rs update_db_mt/update_db_st/process_multi/correct_consistency")],
 ["stored ciphertexts before/after", "allocation trace and hook events of a single-threaded run"], "read-only snapshot of stored ciphertexts; event points in homomorphic products")

prop("C07", "Results do not depend on thread count or schedule",
 "For the same server state and the same queries, single, multi and batched calls (and parallel decision-tree evaluation) return the same responses in the same order and leave the same database, for every thread-pool size from one up, under every scheduling of the parallel work. Concurrent calls on different server objects do not influence each other.",
 ["schedules", "configurations", "histories"], "Pool sizes 1..16+, injected delays at the parallel steps, calls from inside and outside the pool, several servers at once.",
 "Tests run only on the default pool with whatever schedule occurs, and never compare two runs.",
 [O, D], [("rayon parallel iterators over levels, columns, queries, rows, items", "src/oram.rs"), ("per-thread FFT buffers", "src/oram.rs FftBufferPool")],
 ["responses and stored database, compared between runs of one process"], "delay-injection points at the parallel steps; database snapshot")

prop("C08", "Every server call completes on any thread pool",
 "Every single, multi or batched call and every parallel tree evaluation on valid input returns, without panic, deadlock or lost work, whatever the size of the thread pool (including one thread and more threads than queries, rows or columns), from whichever thread it is called, and with other servers being used concurrently.",
 ["schedules", "configurations"], "Pool sizes 1..64, nested calls from inside pool workers, concurrent servers, injected delays at lock acquisition.",
 "Tests use one default pool and one server at a time.",
 [O], [("row read/write locks and per-thread buffer locks", "src/oram.rs")],
 ["return of each call", "per-thread CPU progress of the process"], "delay-injection points at the parallel steps")

prop("C09", "Working memory is bounded by the workload",
 "The memory a server call allocates is bounded by a fixed multiple of the database size, the number of queries and the number of worker threads, it does not depend on limits of the thread-pool library, and repeated calls do not accumulate memory: after each call everything but the database and the returned responses is freed.",
 ["histories", "configurations"], "All call kinds, shapes and pool sizes; long sequences of calls.",
 "No test measures memory; a call that allocates gigabytes of buffers or leaks per call passes.",
 [O, "src/context.rs"], [("FFT buffer pool sizing", "src/oram.rs FftBufferPool::new"), ("temporaries of each call", "src/oram.rs")],
 ["bytes live and peak bytes allocated per call, by a counting allocator"])

prop("C10", "No undefined behaviour, data race or out-of-bounds access",
 "Every documented use of the library (encryption, homomorphic operations, ORAM setup and single, multi and batched access, tree evaluation) executes without memory errors, data races, reads of uninitialised memory, out-of-bounds accesses or arithmetic overflow traps in this crate, for all valid parameter sets, shapes and schedules.",
 ["inputs", "schedules", "configurations"], "All public operations over varied ring sizes, decompositions, shapes and pool sizes, run under address, thread and overflow/debug-assertion instrumentation.",
 "Tests run uninstrumented, where a race, a short buffer or a wrapped index usually goes unnoticed.",
 [O, R, W, "src/context.rs", D], [("unsafe uninitialised FFT views", "src/rlwe.rs"), ("scratch stacks sized by hand", "src/context.rs FftBuffer, src/rlwe.rs"), ("shared rows and buffers", "src/oram.rs")],
 ["sanitizer reports", "debug assertions and overflow checks"])

prop("C11", "Decrypting an encryption returns the plaintext",
 "For every key, plaintext and parameter set whose noise is below half an encoding step, decrypting an encryption returns exactly the plaintext, for ring ciphertexts (modular, ternary, raw and constant forms) and for scalar ciphertexts; raw decryption differs from the raw plaintext only by noise of the configured size. Encryption overwrites whatever the output ciphertext held before, and decryption under an unrelated key does not return the plaintext.",
 ["inputs", "configurations"], "All plaintext polynomials (dense, sparse, extreme coefficients), moduli 2..2^12, ring sizes, noise levels, reused output buffers.",
 "Tests use one or a few random binary or ternary plaintexts per type with default parameters.",
 [R, L, "src/context.rs"], [("encode then encrypt; decrypt then round", "src/rlwe.rs RLWESecretKey, src/lwe.rs LWESecretKey")],
 ["decrypted plaintexts", "raw decryption error"])

prop("C12", "Plaintext encoding is exact and decoding corrects every error below half a step",
 "For every power-of-two plaintext modulus t and every value below t, decoding the encoded value plus any error smaller in absolute value than half an encoding step returns the value, with wrap-around at the modulus handled; ternary values survive every error below a sixth of the modulus. Encoding a value outside the plaintext space, or building a codec for a modulus that is not a power of two, is refused, and encoding a polynomial encodes every coefficient.",
 ["inputs"], "All values, all moduli 2..2^32, errors up to the exact boundary in both directions, all ternary values.",
 "Tests sample a handful of values and errors for two moduli.",
 ["src/codec.rs"], [("rounding decomposer, delta", "src/codec.rs Codec")],
 ["encoded and decoded values"])

prop("C13", "Linear ciphertext operations are exact ring operations",
 "Adding, subtracting, dividing by a monomial, negating a bit, and multiplying the components of a ring ciphertext by a polynomial decrypt to the same operation applied to the plaintexts in Z_q[X]/(X^N+1), for mask and body alike and for every operand; the schoolbook and the transform-based products agree up to floating-point rounding. Copying, clearing and in-place versus out-of-place variants agree exactly.",
 ["inputs", "configurations"], "All operand polynomials including dense, sparse, signed and extreme ones, all monomial degrees, ring sizes 32..2048.",
 "Tests check one random operand pair per operation, and never the component-wise schoolbook products.",
 [R], [("component updates, naive and Fourier products", "src/rlwe.rs RLWECiphertext, naive_update_with_mul*, fourier_update_with_mul*")],
 ["components and decryptions of results"])

prop("C14", "External product and cmux multiply and select correctly",
 "The external product of a gadget ciphertext of m with a ring ciphertext of p adds an encryption of m*p to its output, and cmux returns the first input for selector 0 and the second for selector 1, for every p, every small constant or polynomial m, every gadget decomposition (base, level count) and every ring size, up to the noise the parameters allow. Gadget encryption uses the decomposition of the ciphertext it fills, every row encrypts the right scaled message, the sum of two gadget ciphertexts acts by the sum of their messages, and reusing one scratch buffer gives the same results as a fresh one.",
 ["inputs", "configurations"], "All messages (constants 0/1/-1/small, ternary and monomial polynomials), all decompositions with base*levels below 64, gadget decompositions different from the context's default, reused buffers and outputs.",
 "Tests use unit or zero constants with the default decomposition.",
 [W, R], [("external product via Fourier GGSW", "src/rgsw.rs external_product_with_buf_glwe"), ("gadget encryption", "src/rlwe.rs encrypt_rgsw/encrypt_constant_rgsw/neg_gsw")],
 ["decryptions of results and of gadget rows"])

prop("C15", "Key switching and substitution preserve the message",
 "Key switching turns an encryption of p under one key into an encryption of p under the other, and substitution with parameter k turns an encryption of p(X) into one of p(X^k) under the same key, for every p, every pair of keys, every odd k and every key-switching decomposition. The standard, Fourier-domain and gadget-ciphertext variants agree with each other up to noise, and the generated set of substitution keys contains every k the trace needs.",
 ["inputs", "configurations"], "All plaintexts, key pairs, odd k in 1..2N (and larger), decompositions with odd and even level counts, ring sizes.",
 "Tests switch one random plaintext between two keys and substitute one or two values of k with the default (odd) level count.",
 [R, W, "src/utils.rs"], [("decompose-and-multiply key switching", "src/rlwe.rs RLWEKeyswitchKey/FourierRLWEKeyswitchKey"), ("automorphism", "src/utils.rs eval_x_k")],
 ["decryptions of results under the new key"])

prop("C16", "Trace and expansion isolate the constant coefficient",
 "The trace of a ring ciphertext encrypts N times the constant coefficient of the message and zero in every other coefficient, in the standard and in the Fourier variant, leaving its input unchanged. Expanding scaled ring ciphertexts of a bit (through the standard, Fourier or slow path) gives a gadget ciphertext that acts as that bit in external products and selections, whatever noise-like other coefficients the inputs carried.",
 ["inputs", "configurations"], "All plaintexts with arbitrary other coefficients, bits 0/1, ring sizes, decompositions, -s gadget decompositions equal to or different from the default.",
 "Tests expand a single 0 and a single 1 with default parameters.",
 [R], [("trace by repeated substitution", "src/rlwe.rs trace1/trace1_fourier"), ("expansion", "src/rlwe.rs expand/expand_fourier/expand_slow/decomposed_rlwe_to_rgsw")],
 ["decryptions of traces", "external products with the expanded ciphertexts"])

prop("C17", "Sample extraction and LWE-to-RLWE conversion preserve the coefficient",
 "Extracting coefficient n of a ring ciphertext gives a scalar ciphertext that decrypts, under the same key bits, to exactly that coefficient, for every n. Converting a scalar ciphertext to a ring ciphertext gives an encryption whose constant coefficient is the scalar's message and whose other coefficients are zero, up to noise, and scalar-to-ring key conversion preserves the key bits.",
 ["inputs", "configurations"], "All coefficient positions, plaintexts, keys, ring sizes and key-switching decompositions, reused output buffers.",
 "Tests extract a single position and convert one scalar.",
 [L], [("sample extraction", "src/lwe.rs fill_with_sample_extract"), ("conversion", "src/lwe.rs conv_lwe_to_rlwe, LWEtoRLWEKeyswitchKey")],
 ["decryptions under the scalar and the ring key"])

prop("C18", "Encrypted comparison decides m <= d and m = d for every pair",
 "For a ciphertext encrypting X^m, the less-or-equal comparison with a plaintext d leaves 1 in the constant coefficient if m <= d and 0 otherwise, and the equality comparison leaves 1 if m = d and 0 otherwise, for all m and d from 0 to N-1, in every ring size; a d outside that range is refused.",
 ["inputs", "configurations"], "All (m, d) pairs for small N exhaustively, boundary-biased pairs for large N, several plaintext moduli.",
 "Tests compare a single m = N/2, and never the extremes 0 and N-1.",
 [R], [("multiplication by a test polynomial", "src/rlwe.rs less_eq_than/eq_to")],
 ["decrypted constant coefficient"])

prop("C19", "Index decomposition and demultiplexing give a one-hot vector",
 "Encrypting an index i below n = 2^k as k selector bits and demultiplexing them gives exactly n ciphertexts of which the i-th encrypts the given base ciphertext's message and all others encrypt zero, for every i, k >= 1, base message and decomposition.",
 ["inputs", "configurations"], "All indices for n up to 64 exhaustively (2^k larger sampled), arbitrary base plaintexts, decompositions.",
 "Tests cover depth one and two, plus one long run over a fixed index.",
 [D], [("bit order and complement", "src/decision_tree.rs bit_decomposed_rgsw"), ("recursive demux", "src/decision_tree.rs demux_rec")],
 ["decryptions of all outputs"])

prop("C20", "Encrypted decision-tree evaluation equals plaintext evaluation",
 "For every tree of less-or-equal nodes (missing children, unbalanced, repeated features, any leaf labels including zero, powers of two and very large ones) and every feature vector with entries below N, evaluating the tree on the encrypted features and decrypting gives the label that plaintext traversal reaches (0 for a missing child). Predictions come back in input order, one per feature vector, and are the same with and without parallel evaluation.",
 ["inputs", "programs", "configurations"], "All tree shapes to a depth bound, thresholds and features at and around equality and at the extremes 0 and N-1, labels to the full word, 1..many vectors, parallel flag.",
 "Tests evaluate two hand-made trees and one truncated full tree at a few feature vectors.",
 [D, R], [("comparison and expansion per node", "src/decision_tree.rs compare_expand"), ("encrypted traversal and bit recomposition", "src/decision_tree.rs eval_enc_node/decrypt_and_recompose/simulate")],
 ["predictions", "decrypted output bits"])

prop("C21", "Tree bookkeeping preserves structure and meaning",
 "Indexing numbers the internal nodes of any tree consecutively from 0 in the order in which flattening lists them, flattening keeps each node's threshold, feature and comparison, and leaf, node, depth and feature counts equal those of an independent traversal. Truncation removes exactly the subtrees that can only yield 0 and never changes the evaluation result, cloning and a JSON round trip give an equal tree, a full tree of depth d has 2^d leaves, and plaintext evaluation follows each comparison.",
 ["inputs", "programs"], "All tree shapes (missing children, leaves at any level), labels and features.",
 "Tests use three small hand-written trees.",
 [D], [("recursive tree functions", "src/decision_tree.rs Node, fix_index, flatten_tree, trunc_tree")],
 ["return values of the tree functions"])

prop("C22", "Hash placement is a bijection and request placement is valid or refused",
 "For every number of hash functions and items, the hash values of all (function, item) pairs are a permutation of the database cells, the bounds-checked lookup returns nothing exactly outside the domain, and the two-dimensional position is the row-major position of the hash value. Placing a set of distinct items assigns every item to a distinct row at a column where one of its replicas lies; if the placement does not succeed for some item the request is refused, never silently dropped. Each hash object draws its permutation anew, uniformly at random: every replica is as likely at one cell as at any other, and two objects of one size differ.",
 ["inputs", "configurations"], "All (h, n), widths d, request sets of every size including ones that cannot be placed.",
 "Tests check one hash function and the placement of one item.",
 ["src/naive_hash.rs"], [("shuffled table", "src/naive_hash.rs NaiveHash::new"), ("greedy placement", "src/naive_hash.rs hash_to_mapping")],
 ["hash values", "returned mapping or refusal"])

prop("C23", "Command-line runs honour the requested parameters and report them faithfully",
 "The program prints one header and, for every combination of ORAM and TFHE parameters in the parameter file, in file order, one line whose columns state exactly those parameters and, unless it is a dry run, the measured times (the set-up of database and query, and the server's work with its answering part, which together make up nearly all of the run) and a noise consistent with correct decryption, plus one extra line per further iteration. Without a readable parameter file the command-line options (or their defaults) are used, an unparsable file means the default parameters, and the exit status is zero for every valid parameter set. A run whose parameters leave too much noise to decrypt correctly ends with a failure instead of reporting measurements as if it had worked.",
 ["configurations", "inputs"], "All three modes, lists of several ORAM x TFHE combinations, missing/malformed/empty files, dry run on and off, iteration counts.",
 "No test runs the program or expands a parameter list.",
 ["src/main.rs", "src/cli.rs", "src/params.rs"], [("cartesian product", "src/params.rs ServerParams::from_input_params_list"), ("reporting", "src/main.rs")],
 ["standard output and exit status of the program", "expanded parameter list"])

prop("C24", "Secure contexts are unpredictable; insecure seeding is reproducible",
 "With secure seeding, keys, masks, noise and random plaintexts of any two contexts, in one process or in different processes, are independent, and the secret-key, noise and public-randomness streams of one context are independent of each other. With secure seeding off, a context reproduces exactly the same keys, ciphertexts and plaintexts on every run. Generated keys are binary, generated plaintexts lie in their stated domain and have the stated shape, and the context carries exactly the parameters it was given.",
 ["configurations", "histories"], "Many contexts per process, several processes, all parameter sets, both seed modes.",
 "No test compares two contexts or two processes.",
 ["src/context.rs"], [("seeding of three generators", "src/context.rs Context::new"), ("plaintext generators", "src/context.rs gen_*")],
 ["keys, ciphertext masks and plaintexts produced by contexts"])

prop("C25", "Reported noise equals the actual noise",
 "Each noise measurement returns the base-2 logarithm of the largest (for gadget ciphertexts: the per-row average of the largest) absolute difference, modulo q, between the raw decryption and the encoded expected plaintext, for any noise from a single unit to half the modulus, of either sign and at any coefficient, and for the modular, ternary and gadget variants.",
 ["inputs", "configurations"], "Ciphertexts with planted noise of every magnitude and sign (including exactly half the modulus) at every coefficient position, all plaintext kinds and decompositions.",
 "The test only checks that fresh noise is below a loose bound and that it grows after an addition.",
 [R, W], [("noise helpers", "src/rlwe.rs compute_noise*, src/rgsw.rs compute_noise_rgsw1")],
 ["returned noise versus independently computed noise"])

prop("C26", "Noise stays within the bound the parameters imply",
 "The noise of fresh encryptions, external products, key switches, expansions, ORAM responses and stored items stays within the variance bound implied by the parameters (noise level, ring size, decomposition), and over a long history of accesses stored-item noise grows no faster than additively per access. Hence responses of long read and write histories keep decrypting correctly as long as that bound is below half an encoding step.",
 ["histories", "configurations"], "Parameter sets across ring sizes and decompositions; histories of many accesses to the same database in all three modes.",
 "Tests print noise without checking it, and the long-history tests are ignored by default.",
 [R, W, O], [("gadget decomposition precision", "src/rgsw.rs, src/rlwe.rs"), ("one cmux pair per access", "src/oram.rs")],
 ["raw decryption error of results and stored items"], "read-only snapshot of the server's stored ciphertexts")

prop("C27", "Invalid requests are refused and leave the server usable",
 "A request that does not fit the server or parameters (wrong number of batched queries, query built for another database width, value outside the plaintext space, threshold or feature out of range, a tree that asks for a feature or selector that was not given, shapes that do not match the hash) is refused with a failure at the call, never answered with a wrong result. A server that refused a request still holds every item unchanged and serves subsequent valid requests correctly.",
 ["inputs", "histories", "fault_sequences"], "All kinds of mismatched requests, interleaved at any point of a valid history, on any pool size.",
 "No test sends an invalid request.",
 [O, "src/codec.rs", D, R], [("shape assertions before any update", "src/oram.rs"), ("domain assertions", "src/codec.rs encode, src/rlwe.rs less_eq_than, src/decision_tree.rs encrypt_feature_vector")],
 ["panic or return of the call", "later responses and stored items"], "read-only snapshot of the server's stored ciphertexts")

prop("C28", "Mixed histories act as one sequential memory in processing order",
 "Queries are self-contained: their effect depends only on the order in which the server processes them. For every history in which several clients sharing the secret key make read and write queries ahead of time, and a one-row server processes them later in any order and by any mixture of single, multi-query and batched calls, also processing a copy of an earlier query again, every response decrypts (for any of the clients) to the item's value at the moment of its call, and the stored items are those of a sequential array to which the writes are applied in processing order.",
 ["histories", "inputs", "schedules"], "All interleavings of query generation and processing, all orders, replays, call kinds, clients and pool sizes.",
 "Every test makes one query and processes it at once, with one kind of call per server.",
 [O, D], [("client query generation", "src/oram.rs Client::gen_*_query_one"), ("three kinds of processing", "src/oram.rs Server::process_one/process_multi/process_batch")],
 ["decryption of each response by each client", "decryption of the stored database after each call"], "read-only snapshot of the server's stored ciphertexts; Clone for queries")

prop("C29", "Configuration and supporting conversions are faithful",
 "A parameter list written as JSON reads back as the same list, expands to exactly the combinations of each block (ORAM entries outer, TFHE entries inner, in file order), and a context built from a parameter set carries exactly its values; the printed descriptions of a context and of a tree simulation state the values they hold. The public helpers do what they state: transposition keeps every element at its mirrored position, the integer of a bit polynomial is the sum of its first 64 bits (other coefficients are refused), the integer logarithm is the floor for every positive input, and a table of numbers in a CSV file is read back without its header.",
 ["inputs", "configurations"], "All parameter lists (empty blocks included), tables of all shapes, bit polynomials of all sizes, all positive integers, CSV with either line ending, with or without quotes and a final newline.",
 "No test touches the expansion of parameter lists, transposition, CSV reading or the conversion to integers.",
 ["src/params.rs", "src/utils.rs", "src/context.rs"], [("cartesian product", "src/params.rs ServerParams::from_input_params_list"), ("helpers", "src/utils.rs transpose/parse_csv/pt_to_lossy_u64/log2")],
 ["returned values of the public functions"])

prop("C30", "Reported times are those of the answering phase",
 "The processing time a server call returns covers its answering phase, that is all homomorphic products that lead to the responses, and nothing of the database update or replica repair that follows; it is positive and never exceeds the wall time of the call, for single, multi-query and batched calls on any pool. The server time of a tree simulation covers all comparisons, expansions and evaluations of all inputs, its set-up time ends before the server's work, and together they are at most the wall time of the simulation.",
 ["inputs", "schedules", "configurations"], "All call kinds, shapes, pool sizes, numbers of queries or inputs, and whichever step of the call happens to be slow.",
 "No test looks at a reported time: it is the measurement the program exists to print, and any number passes.",
 [O, D], [("timers", "src/oram.rs Server::process_one/process_multi/process_batch"), ("timers of the simulation", "src/decision_tree.rs simulate")],
 ["returned durations", "times of products and of the first write of a stored cell"], "hook events at products and database writes, which also inject the delay")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
except ImportError: pass
print(len(P), "properties")
