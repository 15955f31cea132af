#!/usr/bin/env python3
"""Writes ../MANIFEST.json"""
import json, os
T = {
 "C01": ("runtime monitor: every signature of whole and long key lives verified by both implementations and an independent reference", "Whole lives of hundreds of small keys, parts of lives (also beyond 2^20) of registered ones; not every index of the large sets."),
 "C02": ("runtime monitor with an independent RFC 8391 verifier as oracle over systematically altered and structurally forged signatures", "Every byte position of honest signatures of small sets, sampled positions of the large ones; forgeries valid but for one element are built with chosen trees."),
 "C03": ("online monitor of the index in every signature and key over random histories, with stand-ins for hashing to reach whole lives", "Index sequences of complete lives up to 2^20 and around every carry of larger ones."),
 "C04": ("online monitor of capacity, refusals and wiping at the end of key lives", "All shapes of small keys and all registered sets, jumped or driven to their last indices."),
 "C05": ("differential monitor against an independent implementation of RFC 8391 / SP 800-208", "Keys and signatures byte for byte; trees of large sets through jumps. Trusts ref/refxmss.hpp, which was cross-checked with the repository's vectors."),
 "C06": ("online monitor of one-time key use on every layer over whole lives", "Ledger of (layer, tree, leaf) with the one-time signatures made; large sets around tree changes."),
 "C07": ("AddressSanitizer, UndefinedBehaviorSanitizer, memcheck and guard pages under verification of arbitrary inputs", "Random and structured inputs for all OIDs; not all byte strings."),
 "C08": ("AddressSanitizer, UndefinedBehaviorSanitizer and exact or guarded buffers under key generation and signing", "Trusts the sanitizers; memory errors inside one object are seen only by their effects."),
 "C09": ("monitor of the system calls behind randombytes under scripted faults", "Every short, interrupted or failing outcome in random sequences; key seeds compared with delivered bytes."),
 "C10": ("metamorphic monitor (process contents varied, operations reordered) and memcheck on outputs", "Sampled operations; memcheck decides use of uninitialized memory on the executed paths."),
 "C11": ("runtime monitor of result, length and output buffer of every verification", "All kinds of rejected and accepted inputs of all sets; output buffers prefilled with patterns."),
 "C12": ("exhaustive runtime monitor of all 2^32 OIDs and of names and parameters against the registry", "OIDs exhaustively; names by all registered ones and many neighbours."),
 "C13": ("runtime monitor of the chain positions revealed by one-time signatures, over all checksum values", "Every checksum value of each parameter set; digests sampled; hash arithmetic against the reference."),
 "C14": ("differential monitor of SHAKE128/256 against libcrypto and an own sponge", "All length pairs in the grid, random large ones, beyond 4 GiB."),
 "C15": ("differential monitor of the command line tools against the library and the reference", "Random sequences of runs for all families; sets whose keys take hours to generate are used with built keys only."),
 "C16": ("system call level fault injection (kill, error, short transfer, pause) by ptrace with an online and an offline ledger of released indices", "Every system call of a run is killed before and after, and failed; interleavings at system call granularity. No loss of power."),
 "C17": ("sanitizer builds and memcheck on the tools with hostile files, judged by exit status, output and key file", "Truncations at all boundaries, all kinds of files, sampled damage; 10^5 damaged keys through the library."),
 "C18": ("ThreadSanitizer and concurrent against sequential results", "The schedules that occurred; ThreadSanitizer finds races of executed accesses in any order of them."),
 "C19": ("memcheck taint tracking: secrets undefined, every dependent branch or address reported", "All paths executed; does not consider instructions with data-dependent timing."),
 "C20": ("differential monitor: plain against fast over equal histories", "Whole lives of all small tree shapes and trade-offs, jumps and long parts of registered ones."),
 "C22": ("differential monitor of seventeen other builds (32 bit, gcc and clang, options) against the reference build, with undefined behaviour trapped in one", "The builds that can run here (x86, 32 and 64 bit, gcc and clang); no big-endian platform."),
 "C24": ("monitor of the process's resources, settings, output, stack and files around many operations of each kind", "Groups of some dozens of operations of each kind and outcome; memory by the C library's own accounting."),
 "C23": ("monitor that ends signing at every call of a hash function and follows the key and output buffer left", "Points of interruption are the calls of hash functions, not single instructions; small keys and registered sets by jumps."),
 "C21": ("monitor counting leaf computations in every signing call of whole lives", "Every signature of whole lives of small shapes and of long parts of registered lives."),
}
checks = [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "fault_enumeration" if p == "C16" else "exploration", "level_note": n} for p, (t, n) in sorted(T.items())]
M = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harnesses interpose functions with the linker's --wrap when they build /repo's sources. See DESIGN.md."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f: json.dump(M, f, indent=1); f.write("\n")
