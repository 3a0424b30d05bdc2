#!/usr/bin/env python3
"""Writes the per-property section of DESIGN.md from properties.jsonl and table.py, between two marks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
"C01": "Oracle: reference cipher. Blocks are solved backwards through the reference so that a chosen round of the real cipher sees a zero, a full word, a carry or a chosen table entry: that reaches conditions random blocks hit with probability 2^-32. Entry points: BlkEncrypted, EncryptionBase, forward/backward passes.",
"C02": "Oracle: identity and reference decryption, both directions, also with tables that are no bijection (Feistel inverts anyway), also stacked several deep.",
"C03": "Oracle: reference cipher, key schedule, S, R, L, iteration keys. Keys are solved backwards through the schedule for chosen round keys, blocks through the rounds for chosen states; every byte value at every position.",
"C04": "Oracle: reference counter blocks. The walk monitor compares value, size, last mark and end at every step, in and out of order, repeatedly. Long walks over a stream that costs nothing cross 2^26 blocks (thorough: 2^32) with the values inspected around every carry; further positions are unreachable through the public interface, the increment itself is covered by C21 on all carry patterns. Records under one key with consecutive initial values, iterators looked at whole (values with the size and last mark around them), and callers' streams of every last size.",
"C05": "Oracle: reference CFB over what the recording sink received, however the message was split (small messages: all two-cut splits; lengths dense from 0; single writes of every size to 2100 bytes, one by one, and of every magnitude up to some megabytes with bytes pending).",
"C06": "Oracle: reference CFB; monitor on every read: number of bytes, content, emptiness past the end; read sizes 0, 1, unaligned, every size to 2100 bytes, one by one, every magnitude, up to 2^64-1; messages of megabytes in one piece.",
"C07": "Oracle: reference ECB; refusal monitor for every unaligned length in both directions: exception, no byte of the partial block, nothing left behind in the sink; megabytes in one piece.",
"C08": "Oracle: reference MAC on messages solved so that chaining values and the masked last block take special values; keys searched so that both branches of both doublings occur.",
"C09": "Oracle: reference MAC, as C08. For an incomplete last block any of the usual paddings is accepted, the second subkey is required.",
"C10": "Oracle: reference 16-round chaining, all short lengths, messages solved for special states; messages of megabytes.",
"C11": "Oracle: no two of a family of related messages (or keys) share a MAC. Expected coincidences of a random function over the number of pairs observed are negligible. The zero-padding collision of magma::Imit is excluded as a pair class elsewhere and reported as the known finding.",
"C12": "Oracle: each handle's own history through the reference. The monitor keeps every handle ever made and uses each again after its descendants were made, written and finalized; also after large writes and deep histories, and with handles of which the caller is the sole owner.",
"C13": "Oracles: ThreadSanitizer, and results against the reference. Threads are released together on fresh objects; delays (yields, sleeps) are injected where the library calls the callers' parts, that is inside the lazily deriving sections. Forked children let threads race on the very first use in a process.",
"C14": "Oracles: ASan+UBSan+checked libstdc++ build, valgrind memcheck, and in the plain build an allocator with canaries, poison and balance, with each workload run under two memory patterns and two painted stacks whose results must agree.",
"C15": "Oracle: an exception must be observed from the operation that would use the malformed input; a control group of well-formed inputs must be accepted. ASan build for the bounds.",
"C16": "Oracle: the injected exception (and no other) reaches the caller, the retried call and another operation give the reference result, and the allocation balance is zero. Points are enumerated from a fault-free twin run; where there are too many, the first, the last, a sample, and one allocation of every place in the code and size (return address and size, recorded on the twin) are taken. Faults come as eight kinds of exceptions (standard classes, stream errors, bad_alloc, one that is no std::exception); a failed allocation must be reported as bad_alloc, nothing else.",
"C17": "Oracle: high-water marks at two lengths must agree within a fixed tolerance (stack, live heap) and operation counts, allocated bytes and steps (basic blocks of the library executed, words moved by memmove and its like; `steps` build with -fsanitize-coverage=trace-pc) must scale with the length; reads of up to 2^64-1 bytes from short sources must stay cheap.",
"C18": "Oracle: counters in the underlying key material; values that change and fail at chosen calls with all these kinds of exceptions; tens of thousands of uses of one object.",
"C19": "Oracle: reference cipher for every form and mode, with the callers' own implementations of every abstract class; key texts that agree under cheap checksums (sums, polynomials) are told apart.",
"C20": "Oracle: reference results after all arguments were overwritten and freed; plain build with poisoned free memory, and ASan.",
"C21": "Oracle: 64- and 128-bit integer arithmetic. Memory loads sit against an unreadable page at every alignment.",
"C22": "Oracle: nibble-wise reference on every nibble and byte value in every position, in seven forms, and tables built in the storage of another one; all 2^32 words of the default table in the thorough tier.",
"C23": "Oracle: composition of the reference functions; the mirrored stack must restore the message; unwinding is checked layer by layer.",
"C24": "Oracle: the sequence itself, at every step of every iterator; up to 2^24 words (2^28 in the thorough tier).",
"C25": "Oracles: reference results under address reuse, many live keys, keys that are close to one another, operations run from inside the caller-supplied parts of others (re-entrancy), long use, refused calls, odd locales (also real ones, generated at build time with localedef), odd answers of getenv, clocks and other system calls, errno values, rounding modes, a pending exception, environment variables and other threads; process state, rand() sequence, descriptors and captured stdout/stderr compared around workloads, with a caller's own settings (stream formats and ties, handlers, signals, locale, umask, rounding) in force so that a reset to a default shows as well.",
"C26": "Oracles: counters in the callers' parts around every construction; sources, sinks, streams and iterators that note a second use of one handle, the furthest byte or block asked for and every byte received, judged after each read, write and step, with the contents compared with the reference; sources that break at a chosen byte.",
}
out = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    d = table.P[p["id"]]
    builds = ", ".join("%s%s" % (r["build"], "" if "quick" in r["tiers"] else " (thorough)") for r in d["runs"])
    out.append("### %s %s\n\n%s\nBuilds: %s. Level: %s. Harness: `harness/%s.cpp`.\n" % (p["id"], p["title"], HOW[p["id"]], builds, d["level"], p["id"]))
f = os.path.join(root, "DESIGN.md")
s = open(f).read()
a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(f, "w").write(s[:i] + "\n".join(out) + s[j:])
