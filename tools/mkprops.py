#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IDX = ("index", "number of the next unused one-time key, first bytes of the secret key after the OID", "sk, xmss_core.c / xmss_core_fast.c")
BDS = ("BDS state", "authentication path, stack, treehash instances and next trees kept inside the secret key", "xmss_core_fast.c")

prop("C01", "Every honestly made signature verifies and returns the message",
 "For every parameter set and both implementations (plain and fast), every signature that signing reports as successful is exactly the signature length plus the message length long, ends with the message, and is accepted by verification under the matching public key, which returns exactly that message and its length. This holds at every index of the key's life from the first to the last one, for every message content, and for every message length including 0 and lengths beyond 4 GiB.",
 ["inputs", "histories", "configurations"], "all parameter sets, keys, indices reached by any signing history, messages and message lengths",
 "The tests sign 32-byte messages with two SHA2-256 sets (16 plain, 1024 fast signatures); other hash families, heights, layer counts, tree boundaries and message lengths are never exercised, and the last index was even known to fail.",
 ["xmss.c", "xmss_core.c", "xmss_core_fast.c", "xmss_commons.c", "wots.c", "hash.c"],
 [("signing", "xmssmt_core_sign / xmss_core_sign"), ("tree traversal", "treehash (plain), bds_round, bds_treehash_update, deep_state_swap (fast)"), ("verification", "xmssmt_core_sign_open")],
 ["return value, smlen and sm of xmss[mt]_sign", "return value, m and mlen of xmss[mt]_sign_open"], [IDX, BDS])

prop("C02", "Verification rejects every altered message, signature or key",
 "Verification accepts a signed message only if the root recomputed as in RFC 8391 from index, randomizer, all one-time signatures, all authentication path nodes and the whole message equals all bytes of the root in the public key. Changing, swapping, truncating or extending any part of an honest signed message or of the public key (parameter set identifier included) makes it fail.",
 ["inputs", "configurations"], "all parameter sets, all honest signed messages and all alterations of them, single bits included",
 "The tests flip one message bit per signature for two parameter sets (the per-hash flips are compiled out); no test alters the public key, the length, the index or later layers.",
 ["xmss_commons.c", "wots.c", "hash.c", "xmss.c"],
 [("root recomputation and comparison", "xmssmt_core_sign_open, compute_root, l_tree"), ("message digest over R, root, index, message", "hash_message")],
 ["return value of xmss[mt]_sign_open compared with an independent RFC 8391 verifier"])

prop("C03", "Each signature uses the next index, and no index is ever used twice",
 "Over any history of operations on a key, the k-th successful signature carries index k-1 in big-endian form in its first bytes, and when signing returns, the secret key already holds the index that follows. No key ever produces two signatures with the same index: not across byte carries of the index, not after failed calls or verifications in between, and not when the key is stored and reloaded between signatures.",
 ["histories", "inputs", "configurations"], "all signing histories, all parameter sets and index widths, all index values including those near every power of 256",
 "Tests sign at most 1024 times from index 0 with a 4- and a 3-byte index and never look at the index in the signature; carries into the third and higher bytes are out of reach.",
 ["xmss_core.c", "xmss_core_fast.c", "utils.c"],
 [("index read and increment", "xmss_core_sign / xmssmt_core_sign"), ("big-endian conversion", "ull_to_bytes / bytes_to_ull")],
 ["index bytes of sm and of sk before and after each call"], [IDX])

prop("C04", "A key signs exactly its capacity, then refuses for ever and is wiped",
 "A key of total height h yields exactly 2^h signatures (2^h - 1 if h fills all bytes of the index), all of them valid; every later attempt returns a nonzero code, is not a valid signature and does not make the key usable again. Once the last of 2^h signatures is made, or a used-up key is tried, the secret key buffer holds none of its former secret seeds.",
 ["histories", "configurations"], "all parameter sets, all histories that reach or pass the end of the key, any number of further attempts",
 "test/maxsigsxmss checks only return codes at the end of one 2^10 key, maxsigsxmssmt takes hours; keys of height 16 to 60 can never be used up by a test.",
 ["xmss_core.c", "xmss_core_fast.c"],
 [("capacity check and deletion of the key", "xmss_core_sign / xmssmt_core_sign")],
 ["return codes, signatures and the secret key buffer around the last index"], [IDX])

prop("C05", "Public keys and signatures are those of RFC 8391 / SP 800-208",
 "For given seeds, index and message, the public key (OID, root, public seed) and the signature (index, randomizer, one-time signatures and authentication paths of all layers) are byte for byte those defined by RFC 8391 with the key generation PRF of SP 800-208, for every registered parameter set and for both implementations.",
 ["inputs", "configurations", "histories"], "all parameter sets, seeds, messages and indices",
 "All tests are self-consistent (sign then verify with the same code): an error made on both sides, in addressing, padding, truncation or encoding, is invisible to them. test/vectors is neither run nor compared.",
 ["hash.c", "hash_address.c", "wots.c", "xmss_commons.c", "xmss_core.c", "xmss_core_fast.c", "fips202.c", "utils.c", "xmss.c"],
 [("hash addressing", "hash_address.c"), ("hash functions and padding", "hash.c"), ("layout", "xmss.c, xmss_core*.c")],
 ["pk and sm compared with an independent implementation of the standards"])

prop("C06", "No one-time key of any layer ever signs two different messages",
 "Within one key and over its whole life, any two signatures that use the same one-time key pair (same layer, tree and leaf) contain the same one-time signature for it at every layer above the lowest, and at the lowest layer no one-time key is used by two signatures. The one-time signature of every layer signs the root of exactly the tree below it, also right before, at and after the change from one tree to the next.",
 ["histories", "configurations"], "all signing histories over full key lives, all layer counts, every change of tree on one or several layers at once",
 "A one-time key of an upper layer that signs two roots still yields two valid signatures; tests see at most one change of tree and never compare signatures with each other.",
 ["xmss_core.c", "xmss_core_fast.c"],
 [("signatures on roots of the layers below", "xmssmt_core_sign, xmssmt_core_keypair"), ("kept one-time signatures", "wots_sigs in the fast secret key")],
 ["one-time signatures at each layer of all signatures of a key"], [BDS])

prop("C07", "Verifying arbitrary untrusted data is memory safe and terminates",
 "For arbitrary bytes and any length given as signed message (shorter than a signature included) and arbitrary bytes given as public key, verification returns, reads only the signed message and the public key, writes only the message length and an output buffer as long as the signed message, leaves its inputs unchanged and performs no undefined behaviour. Its work is bounded: whatever the bytes say, it computes no more hashes than the parameter set's chains and paths have steps (plus the message's).",
 ["inputs", "configurations"], "all byte strings, lengths and public keys, with buffers of exactly the documented sizes",
 "Tests only verify well-formed signatures from their own signer, in roomy buffers and without sanitizers.",
 ["xmss_commons.c", "xmss.c", "wots.c", "hash.c", "params.c"],
 [("length check", "xmssmt_core_sign_open"), ("OID check", "xmss_sign_open / xmssmt_sign_open")],
 ["AddressSanitizer / UBSan on exact heap buffers, read-only inputs, canaries"])

prop("C08", "Key generation and signing stay inside buffers of the advertised sizes",
 "With buffers of exactly the sizes that the parameters announce (public key, secret key, signature length plus message length), key generation and signing never read or write outside them, never modify the message, and perform no undefined behaviour, for every parameter set, both implementations, every message length and every point of the key's life.",
 ["inputs", "histories", "configurations"], "all parameter sets and custom tree shapes, message lengths and positions in a key's life",
 "The tests run without sanitizers and with stack or heap slack; state arithmetic for other heights, layer counts and trade-off parameters is never executed.",
 ["xmss_core.c", "xmss_core_fast.c", "params.c", "wots.c", "hash.c", "fips202.c"],
 [("secret key size", "xmss_xmssmt_core_sk_bytes"), ("state (de)serialization", "xmssmt_serialize_state / xmssmt_deserialize_state")],
 ["AddressSanitizer / UBSan reports, canaries around every buffer, read-only message pages"], [BDS])

prop("C09", "All key seeds come in full from the system's random source",
 "A generated key takes its secret seed, randomizer key and public seed in full from distinct bytes delivered by the operating system's random source and depends on nothing else; no two keys share any of these bytes, nor do those of a process and of others forked from it. The request for random bytes returns only when every requested byte was delivered and stores nothing outside the request, whatever sequence of short reads, interrupted or failing reads and failing opens occurs.",
 ["fault_sequences", "inputs", "configurations"], "all sequences of open/read outcomes, all request sizes including those beyond the 1 MiB chunk, all parameter sets",
 "Reads from /dev/urandom practically never fail or come short in a test run, and tests do not inspect keys.",
 ["randombytes.c", "xmss_core.c", "xmss_core_fast.c"],
 [("read loop", "randombytes"), ("seed layout", "xmss_core_keypair / xmssmt_core_keypair")],
 ["bytes delivered by the interposed random source against the bytes of sk and pk"])

prop("C10", "Signing depends only on the secret key bytes and the message",
 "Key generation, signing and verification are deterministic functions of their declared inputs (for key generation, of the random bytes drawn): neither uninitialized memory, nor previous contents of output buffers, nor earlier calls in the process on the same or other keys influence any output byte. The secret key buffer is the complete signing state: it can be copied, stored and reloaded in another process between any two signatures without changing the signatures that follow.",
 ["histories", "inputs", "configurations"], "all interleavings of operations on several keys, all prior buffer and stack contents, a reload after any signature, all parameter sets",
 "One test compares two signatures by the plain implementation from one buffer layout in one process; uninitialized reads and hidden state do not show up there.",
 ["xmss_core.c", "xmss_core_fast.c", "xmss_commons.c", "wots.c", "hash.c"],
 [("state kept in the secret key", "xmssmt_serialize_state / xmssmt_deserialize_state"), ("no static state", "all modules")],
 ["differential runs with poisoned buffers and stacks, forked reloads, memcheck's definedness of all outputs"], [BDS])

prop("C11", "A rejected message is never handed out",
 "Whenever verification under a known parameter set rejects, it returns a nonzero code, reports a message length of 0, and the place where the message would have been delivered holds zeros for the length of the claimed message (for the whole input if that is too short for a signature). Whenever it accepts it returns 0, reports exactly the length of the input minus the signature length, and delivers exactly the message bytes.",
 ["inputs", "configurations"], "all parameter sets, all kinds of invalid input, all message lengths, any previous contents of the output buffer",
 "The tests look only at the return code of the failing verification.",
 ["xmss_commons.c", "xmss.c"], [("failure path", "xmssmt_core_sign_open")],
 ["return code, m and mlen after every verification"])

prop("C12", "Names, OIDs and parameters agree with the standards' registry",
 "Exactly the 21 XMSS and 56 XMSS^MT names of RFC 8391 and SP 800-208 are known, each maps to its registered OID, and each OID maps to the registered hash function, hash length, height and layer count and to the signature, public key and index sizes that follow from them. Every other name and every other 32-bit OID is refused with a nonzero code, by the lookups and by key generation, signing and verification alike, and initializing parameters from the documented members determines all derived members.",
 ["inputs", "configurations"], "all 2^32 OIDs for both schemes, all strings",
 "test/oid only checks that each known name is recognized by both lookups; wrong values, wrong pairings and unknown names or OIDs are not looked at.",
 ["params.c", "xmss.c", "xmss_core.c", "xmss_core_fast.c"],
 [("name and OID tables", "xmss[mt]_str_to_oid, xmss[mt]_parse_oid"), ("derived parameters", "xmss_xmssmt_initialize_params")],
 ["results of the lookups for all OIDs and for known and near-miss names; results of the API for unknown OIDs"])

prop("C13", "One-time signatures are consistent and never extendable",
 "For every supported hash and Winternitz parameter (4, 16, 256), every seed, address and digest, the public key recovered from a one-time signature is the generated one, and the signature reveals exactly the chain positions given by the digest's digits and their checksum. For any two different digests some chain of the second lies below the first, so that no one-time signature can be turned into one on another digest by hashing forward.",
 ["inputs", "configurations"], "all digests, seeds, addresses, hash functions, output lengths and Winternitz parameters",
 "test/wots makes one random signature with one parameter set; a dropped or miscomputed checksum still passes it.",
 ["wots.c"], [("digits and checksum", "base_w, wots_checksum, chain_lengths"), ("chains", "gen_chain, expand_seed")],
 ["outputs of wots_pkgen, wots_sign and wots_pk_from_sig; chain positions revealed by a signature"])

prop("C14", "SHAKE128 and SHAKE256 compute FIPS 202 for all lengths",
 "For every input and every input and output length, the built-in SHAKE128 and SHAKE256 give exactly the FIPS 202 output, write exactly the requested number of bytes and read only the input.",
 ["inputs"], "all input contents, input lengths and output lengths, block boundaries and unaligned buffers included",
 "No test checks a SHAKE output; SHAKE parameter sets are never signed with in the tests.",
 ["fips202.c"], [("sponge", "keccak_absorb, keccak_squeezeblocks, KeccakF1600_StatePermute")],
 ["outputs compared with two independent implementations"])

prop("C15", "The command line tools work together and report outcomes faithfully",
 "A key pair file written by the keypair tool can be signed with by the sign tool of the same implementation, each signing run writes signature followed by message to standard output and changes only the secret part of the key file, and the open tool exits with 0 exactly if the signature is valid for the message and key. This holds for any sequence of runs, message file and parameter set of the tool's scheme; runs that fail exit with a nonzero status and write no signature.",
 ["histories", "inputs", "configurations"], "all sequences of tool runs, all message files (empty ones included), all parameter sets, both schemes and implementations, used-up keys included",
 "The tools are only built; no test runs them.",
 ["ui/keypair.c", "ui/sign.c", "ui/open.c"], [("file formats", "main of each tool")],
 ["exit status, stdout and key file of each run"])

prop("C16", "No crash, fault or race makes the sign tool release an index twice",
 "Whenever a byte of a signature has been written to standard output, the key file already holds a later index. Thus killing the sign tool at any point, making any of its file operations fail or closing its output, followed by any further runs, and running it many times in parallel on one key file never leads to two released signatures with the same index, and a signature is released with exit status 0 only if both key file and output were written completely.",
 ["crash_points", "fault_sequences", "schedules"], "a kill before every system call of a run, failure of every file operation, all interleavings of concurrent runs on one key file",
 "No test runs the tools, let alone kills them or injects faults.",
 ["ui/sign.c"], [("state written and file closed before the signature is output", "main"), ("exclusive lock on the key file", "main")],
 ["key file and standard output after each injected crash or fault, indices of all released signatures"], [IDX])

prop("C17", "The command line tools survive damaged and hostile files",
 "For arbitrary, truncated, empty, unreadable or foreign key, message and signature files and arguments, each tool ends by itself without crashing or using uninitialized memory, and with a nonzero exit status if a file cannot be read or does not have the identifiers and the length of a key. Whenever signing fails, the sign tool writes nothing to standard output and leaves the key file as it was unless the key it holds is used up; the open tool reports success for nothing but the signed message and public key as they were made.",
 ["inputs"], "all contents and kinds of the files given to the tools, all arguments",
 "No test runs the tools.",
 ["ui/keypair.c", "ui/sign.c", "ui/open.c", "xmss.c", "xmss_core_fast.c", "xmss_commons.c"], [("checks of lengths and identifiers", "main of each tool"), ("check of the traversal state read from a key", "check_states, xmss_core_fast.c")],
 ["exit status, sanitizer reports, stdout and key file of each run"])

prop("C18", "Operations on different keys may run in parallel threads",
 "Key generation, signing and verification by several threads, each with its own secret key and buffers but sharing public keys, messages and signatures read-only, are free of data races, and each gives the result it gives when run alone.",
 ["schedules", "histories"], "all thread schedules over all operations and parameter families",
 "All tests are single threaded.",
 ["xmss.c", "xmss_core.c", "xmss_core_fast.c", "xmss_commons.c", "randombytes.c", "hash.c", "fips202.c", "params.c", "wots.c"], [("no shared mutable state", "all modules")],
 ["ThreadSanitizer reports, results of each thread against a sequential run"])

prop("C19", "Execution does not depend on secret key material",
 "Neither the control flow nor the memory addresses accessed by key generation and signing depend on the value of the secret seed, of the randomizer key or of anything derived from them other than the message digests and tree roots that the signature makes public.",
 ["inputs", "histories", "configurations"], "all secret values, parameter families, both implementations",
 "Tests only look at outputs.",
 ["wots.c", "hash.c", "fips202.c", "xmss_core.c", "xmss_core_fast.c", "xmss_commons.c"], [("public indices drive all branches", "all modules")],
 ["memcheck with the drawn secret bytes marked as undefined: any branch or address that depends on them is reported"])

prop("C20", "The plain and the fast implementation are interchangeable",
 "From the same random bytes both implementations generate the same public key and the same leading part of the secret key (index, seeds, root), and from then on produce identical signatures for identical sequences of messages, at every index, over the whole life of the key, for every tree shape and traversal trade-off. Signatures of either are verified alike by both.",
 ["histories", "configurations", "inputs"], "all signing histories, tree shapes, trade-off parameters (h - k even), parameter sets",
 "No test compares the two implementations; they are only tested for agreement with themselves on two sets.",
 ["xmss_core.c", "xmss_core_fast.c"], [("tree traversal from scratch", "treehash, xmss_core.c"), ("incremental tree traversal", "bds_round, bds_treehash_update, bds_state_update, xmss_core_fast.c")],
 ["pk and sm streams of both implementations for equal inputs"], [BDS])

prop("C21", "Fast signing costs a bounded number of leaf computations",
 "With the fast implementation no signature costs more than half the height of one tree (rounded down) plus two leaf computations, however many trees change at that index, and the work per signature does not grow with the number of signatures made. In particular signing never rebuilds a tree.",
 ["histories", "configurations"], "every signature of full key lives, all tree shapes and layer counts",
 "Tests do not look at cost, and the runs are too short to reach the changes of tree on several layers.",
 ["xmss_core_fast.c"], [("budget of updates per signature", "xmss_core_sign, xmssmt_core_sign, bds_treehash_update, bds_state_update")],
 ["leaf computations (WOTS+ key generations) per call of signing"], [BDS])

prop("C22", "Results do not depend on platform, compiler or build options",
 "Key generation, signing, verification, the parameter lookups and the command line tools give byte for byte the same results (return values, exit statuses, keys, signatures, updated secret keys, outputs) for the same inputs and random bytes whether built for a 64-bit or a 32-bit data model, with signed or unsigned char, by any conforming compiler at any optimisation level, hardened or not, and whatever uninitialised memory holds. So keys and signatures can be moved between builds, and no index is reused or lost on a 32-bit platform.",
 ["configurations", "inputs", "histories"], "all builds (data models, compilers, options), all inputs, parameter sets and indices up to 2^60",
 "The tests are run in one build on one platform; an index kept in an unsigned long, a shift of an int or an uninitialised variable shows only in another one.",
 ["xmss_core.c", "xmss_core_fast.c", "xmss_commons.c", "utils.c", "params.c", "wots.c", "hash.c", "fips202.c", "ui/sign.c", "ui/open.c"],
 [("index and tree arithmetic in fixed widths", "xmssmt_core_sign, xmssmt_core_sign_open, bytes_to_ull, ull_to_bytes"), ("serialised state", "xmssmt_serialize_state / xmssmt_deserialize_state")],
 ["every output of the library and the tools built in different ways, compared result by result"], [IDX, BDS])

prop("C23", "Interrupted signing never leads to a second use of an index",
 "If signing is interrupted at any point (the process is ended, or the call is left for ever) while the secret key and the output buffer live in memory that outlasts it, the key that is left never makes another one-time signature with an index of which the output buffer already holds any part of a one-time signature; so it stays when the calls that follow are interrupted too. With the plain implementation the key goes on to make valid signatures.",
 ["crash_points", "histories", "configurations"], "all points of interruption in a signing call, all sequences of interrupted and complete calls, tree shapes, parameter families, both implementations",
 "Tests only make complete calls. The order of updating the key and writing the signature shows in no result of a complete call.",
 ["xmss_core.c", "xmss_core_fast.c", "wots.c"], [("key updated before the signature is made", "xmss_core_sign, xmssmt_core_sign (both files)")],
 ["key and output buffer at the moment of each call of the hash functions in signing, later signatures with the key left"], [IDX])

prop("C24", "Operations leave nothing behind and need bounded stack",
 "No number of key generations, signatures and verifications, successful or refused (bad input, used up or damaged keys, unknown identifiers, a random source that fails for a while), makes a process hold more memory, file descriptors, mappings or threads than after the first few, whether made in one thread or each in a thread of its own. They write nothing to standard output or error and leave signal handling, working directory, environment, rounding mode, limits and files alone. The stack they need is bounded by the parameter set, whatever the length of the message or the position in the key's life. The command line tools, successful or not, change no file but the content of the key file named to sign, and leave no other file behind.",
 ["histories", "inputs", "fault_sequences"], "all sequences of operations of any length, all outcomes, message lengths, parameter families, both implementations, all tools",
 "A test process makes a few operations and ends; what a failing operation leaves behind shows only in services that make many, and stack use only with long messages.",
 ["xmss.c", "xmss_core.c", "xmss_core_fast.c", "xmss_commons.c", "hash.c", "fips202.c", "randombytes.c", "ui/sign.c", "ui/open.c", "ui/keypair.c"],
 [("no allocation, buffers on the stack sized by the parameters", "xmssmt_core_sign, xmssmt_core_sign_open, hash_message"), ("descriptor of the random source closed", "randombytes"), ("key file updated in place", "main, ui/sign.c")],
 ["open files, threads, allocated and mapped memory, settings and output of a process around groups of operations; painted stacks; files around runs of the tools"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
