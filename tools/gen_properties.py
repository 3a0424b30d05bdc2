#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
M='goost/magma/'; K='goost/kuznyechik/'; G='goost/gost89/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
BUILT="The one test that builds here computes a single Kuznyechik MAC with one key; "

p("C01","64-bit block encryption conforms to GOST R 34.12 Magma / GOST 28147-89",
 "For every 256-bit key, every substitution table and every 64-bit block, encrypting the block yields exactly the value defined by the 32-round algorithm of GOST 28147-89 (Magma of GOST R 34.12-2015 with the default table). Every public way of encrypting one block gives that same value.",
 ["inputs","configurations"],"all 2^256 keys x all 2^64 blocks x all substitution tables x all public one-block entry points",
 BUILT+"Magma is not executed at all. The full suite samples a few standard vectors with two keys; a defect on particular words, carries, key words or table rows goes unseen.",
 [M+"BlkEncrypted.cpp",M+"EncryptionBase.cpp",M+"BlkForwarded.cpp",M+"BlkBackwarded.cpp",M+"BlkSwapped.cpp",M+"LazyKey.cpp",M+"SboxTwisted.cpp",M+"SboxR3412.cpp"],
 [("three forward passes and one backward pass over the key, then a swap",M+"BlkEncrypted.cpp"),("unrolled 32 rounds",M+"EncryptionBase.cpp"),("round function: add key word, substitute, rotate 11",M+"LazyKey.cpp, "+M+"SboxTwisted.cpp")],
 ["value of an encrypted block","result of the one-block transform"])

p("C02","64-bit block decryption is the exact inverse of encryption",
 "For every key, every substitution table (bijective or not) and every 64-bit block, decrypting the encryption of the block returns the block, and encrypting its decryption returns it too.",
 ["inputs","configurations"],"all keys x all tables x all 64-bit blocks, both directions",
 "The suite decrypts one block with one key; inverse-ness over the whole domain is a universal statement. The test that builds here never decrypts.",
 [M+"BlkDecrypted.cpp",M+"BlkEncrypted.cpp",M+"BlkForwarded.cpp",M+"BlkBackwarded.cpp"],
 [("one forward pass and three backward passes, then a swap",M+"BlkDecrypted.cpp")],["value of a decrypted block"])

p("C03","128-bit block encryption conforms to GOST R 34.12-2015 Kuznyechik",
 "For every 256-bit key and every 128-bit block, encrypting the block yields exactly the value GOST R 34.12-2015 defines for Kuznyechik, including the ten-round-key schedule. The nonlinear, linear and key-schedule transformations offered as blocks of their own also equal their definitions in the standard on every input.",
 ["inputs"],"all keys x all 128-bit blocks, and all inputs of the S, R, L and iteration-key transformations",
 BUILT+"its key and the five blocks it enciphers leave most substitution entries, key values, special states and the component transformations unexercised.",
 [K+"Key.cpp",K+"BlkEncrypted.cpp",K+"BlkS.cpp",K+"BlkR.cpp",K+"BlkL.cpp",K+"BlkIterKey.cpp",K+"BlkXored.cpp"],
 [("nine LSX rounds and a final XOR",K+"Key.cpp"),("Feistel key schedule with constants L(i)",K+"BlkIterKey.cpp"),("GF(256) multiplication and the 16-step linear transformation",K+"BlkR.cpp, "+K+"BlkL.cpp")],
 ["value of an encrypted block","values of S, R, L, iteration-key blocks"])

p("C04","Kuznyechik counter mode uses one fresh, consecutive counter per block",
 "For every key, 64-bit initial value and stream, the i-th block of the counter-mode stream equals the i-th input block XOR the encryption of the initial value followed by the 64-bit counter i, for every i and in whatever order or how often blocks are inspected. Block count, block sizes and last-block marks are those of the input stream, and applying the mode twice restores the input.",
 ["inputs","histories"],"all keys, initial values, stream contents and lengths, and all orders of inspecting iterators",
 "The suite looks at four blocks of one stream; counter carries, long streams, empty or odd-sized streams and re-inspection of iterators are not reached. The test that builds here does not use the mode.",
 [K+"StCTREncrypted.cpp",K+"BlkIncremented.cpp",K+"BlkEncrypted.cpp",K+"StMemory.cpp"],
 [("counter block travels with the iterator and is incremented by next",K+"StCTREncrypted.cpp"),("128-bit increment with carry",K+"BlkIncremented.cpp")],
 ["values, sizes and ends seen by iterating the encrypted stream"],[("counter","encrypted to form the key stream of the current block",K+"StCTREncrypted.cpp")])

p("C05","CFB encryption is conformant and independent of how the data is split",
 "For every key, initial vector, message (of any length, including lengths that are not a multiple of 8) and every way of splitting the message into writes, what the CFB encryptors deliver to the underlying sink once finalized is exactly the CFB ciphertext of the message: as many bytes as were written, each block being the plaintext XOR the encrypted feedback register, an incomplete last block using the leading bytes of that gamma. This holds for GOST 28147-89 CFB (64-bit register) and GOST R 34.13 CFB (128-bit register).",
 ["inputs","histories"],"all keys, vectors, messages, lengths and write sequences (including empty writes), both CFB variants",
 "The suite encrypts one block-aligned message in one write per variant; unaligned lengths and split writes are never run, and none of it builds here.",
 [G+"CFBSink.cpp",M+"CFBSink.cpp",M+"BlkEncrypted.cpp"],
 [("bytes are gathered until a block is full, then enciphered and forwarded",G+"CFBSink.cpp, "+M+"CFBSink.cpp"),("finalize enciphers the incomplete tail",G+"CFBSink.cpp, "+M+"CFBSink.cpp")],
 ["bytes received by the underlying sink"],[("pending bytes","plaintext not yet forming a block",M+"CFBSink.cpp"),("feedback register","last ciphertext blocks",M+"CFBSink.cpp")])

p("C06","CFB decryption recovers the plaintext for any length and any read sizes",
 "For every key, initial vector, ciphertext of any length and every sequence of read sizes, the CFB decryptors return exactly the CFB decryption of the ciphertext, so that decrypting what the matching encryptor produced gives back the message. Each read returns the requested number of bytes, or all that remain if fewer, and after the end every read returns nothing.",
 ["inputs","histories"],"all keys, vectors, ciphertexts, lengths and sequences of read sizes (0, 1, unaligned, huge), both CFB variants, over sources that deliver full blocks until their end",
 "The suite decrypts one block-aligned text per variant with one huge read; tails, unaligned reads and reads past the end are not run, and none of it builds here.",
 [G+"CFBSource.cpp",M+"CFBSource.cpp"],
 [("decrypted bytes not yet asked for are carried to the next source",G+"CFBSource.cpp, "+M+"CFBSource.cpp"),("register shifted by each ciphertext block",M+"CFBSource.cpp")],
 ["bytes returned by successive reads"],[("carried bytes","decrypted but not yet returned",M+"CFBSource.cpp")])

p("C07","ECB enciphers block by block, inverts exactly and refuses partial blocks",
 "For every key and block-aligned message, split into block-aligned writes in any way, the ECB encryptor delivers exactly the per-block encryption of the message, and the ECB decryptor over that ciphertext returns the message in order and then nothing. Data that is not a whole number of blocks is refused with an exception, in either direction, and never yields bytes for the partial block.",
 ["inputs","histories"],"all keys, messages, aligned write splits, read sizes, and all unaligned lengths",
 "The suite runs one aligned message each way with one key; unaligned input and split writes are not run, and none of it builds here.",
 [M+"ECBSink.cpp",M+"ECBSource.cpp",G+"ECBSink.h",G+"ECBSource.h",M+"EncryptionBase.cpp",M+"BlkDecrypted.cpp"],
 [("a write with a left-over throws",M+"ECBSink.cpp"),("reads of less than a block throw; each read decrypts one block",M+"ECBSource.cpp")],
 ["bytes at the underlying sink","bytes returned by reads","exceptions"])

p("C08","Kuznyechik MAC equals the GOST R 34.13 MAC for every message",
 "For every key and every non-empty stream of whole 128-bit blocks, of any length, the Kuznyechik MAC equals the one GOST R 34.13-2015 defines: CBC chaining, the last block masked with the first derived subkey. A stream whose last block is incomplete is masked with the second derived subkey instead, and a stream with no blocks is refused rather than crashing.",
 ["inputs"],"all keys (all four combinations of carries in the subkeys) and all streams, any length, full or incomplete last block",
 BUILT+"one subkey case, four whole blocks. The other subkey carries, the incomplete-block branch, one-block, empty and long messages are not reached.",
 [K+"Imit.cpp",K+"BlkShifted.cpp",K+"StMemory.cpp"],
 [("doubling with conditional 0x87",K+"Imit.cpp"),("choice of subkey by the size of the last block",K+"Imit.cpp"),("chaining through the stream",K+"Imit.cpp")],
 ["value of the MAC"])

p("C09","Magma MAC equals the GOST R 34.13 MAC for every message",
 "For every key and every message of one or more whole 64-bit blocks, of any length, the Magma MAC equals the one GOST R 34.13-2015 defines with the default or any other substitution table. A message whose last block is incomplete (or that is empty) is padded to a block and masked with the second derived subkey, whose derivation uses the 64-bit constant 0x1b.",
 ["inputs","configurations"],"all keys, tables and messages of any byte length, over sources that deliver full blocks until their end",
 "The suite computes one MAC of four whole blocks; incomplete or empty messages, other subkey carries and long messages are not run. None of it builds here.",
 [M+"Imit.cpp",M+"BlkShifted.cpp",M+"BlkXored.cpp"],
 [("doubling with conditional 0x1b",M+"Imit.cpp"),("choice of subkey by the size of the last block",M+"Imit.cpp")],["value of the MAC"])

p("C10","GOST 28147-89 MAC equals the standard's 16-round chaining for every message",
 "For every key, substitution table and byte string of any length, the GOST 28147-89 authentication code is the 64-bit state obtained by XORing each zero-padded block into the state and applying the first 16 rounds of the cipher, starting from zero, a message shorter than two blocks being extended with zeros to two blocks.",
 ["inputs","configurations"],"all keys, tables and byte strings of any length",
 "No test in the repository computes this code at all.",
 [G+"DataImit.cpp",G+"ImitedBlock.cpp",M+"BlkForwarded.cpp"],
 [("zero padding to at least two blocks and chaining",G+"DataImit.cpp"),("two forward passes, no swap",G+"ImitedBlock.cpp")],["bytes of the authentication code"])

p("C11","A MAC depends on every bit and on the length of the message, and on the key",
 "Under one key, changing, adding, dropping, repeating or reordering any part of the message, including appending zero bytes, changes its GOST R 34.13 MAC (Kuznyechik or Magma); and one message gets different MACs under different keys. Coincidences are only those of a random function of the MAC's width (weak keys and degenerate tables of the 64-bit cipher aside).",
 ["inputs"],"all pairs of distinct messages and all pairs of distinct keys",
 "A statement about pairs of messages; tests compare single messages with constants and never two messages with each other.",
 [K+"Imit.cpp",M+"Imit.cpp"],
 [("chaining through every block; distinct subkeys for full and incomplete last blocks",K+"Imit.cpp, "+M+"Imit.cpp")],["MACs of pairs of related messages"])

p("C12","Objects are immutable values: any earlier handle can be reused or forked",
 "No operation changes the observable behaviour of an existing key, block, stream, iterator, source or sink: repeating a call on the same handle gives an equal result, and continuing two or more times from the same point (a forked sink, a re-read source, a re-walked iterator) gives independent continuations, each as if it were the only one. In particular, a sink's earlier state is unaffected by later writes or finalization.",
 ["histories","inputs"],"all histories of operations on trees of handles forked from one another, in any order of interleaving",
 "Tests use each object once, linearly; no test continues twice from the same handle.",
 ["goost/Sink.h","goost/Source.h",M+"CFBSink.cpp",M+"CFBSource.cpp",M+"ECBSink.cpp",M+"ECBSource.cpp",G+"CFBSink.cpp",G+"CFBSource.cpp",K+"StCTREncrypted.cpp",K+"StMemory.cpp",K+"BlkCached.cpp"],
 [("all members const, all methods const, results are new objects","README.md (principles), every class"),("the only mutable state is in the caches",K+"BlkCached.cpp, "+M+"KeyCachedData.cpp")],
 ["results of repeated and forked calls"])

p("C13","Objects can be shared between threads without races and with equal results",
 "Any number of threads may use the same keys, blocks, streams, iterators, sources and sinks at the same time, including the very first use that derives key material: there is no data race, and every thread gets exactly the results it would get alone.",
 ["schedules","inputs"],"all interleavings of concurrent operations on shared objects, including concurrent first uses",
 "No test starts a thread.",
 [K+"BlkCached.cpp",K+"Key.cpp",M+"KeyCachedData.cpp",M+"LazyKey.cpp",K+"StMemory.cpp"],
 [("const objects; caches filled on first use",K+"BlkCached.cpp, "+M+"KeyCachedData.cpp")],
 ["ThreadSanitizer reports","results in each thread"],[("cache","derived key material and whether it is ready",K+"BlkCached.cpp, "+M+"KeyCachedData.cpp")])

p("C14","No memory error, undefined behaviour or leak for any well-formed use",
 "Whatever the key, data, length, chunking or read size, using the library never reads or writes outside an object, uses freed or uninitialised memory, or performs other undefined behaviour (misaligned access, out-of-range shift, null access, wrong-size copy), and every allocation is released once the objects are gone.",
 ["inputs","histories"],"all well-formed uses of every public class, all lengths (empty, partial blocks, odd word counts), all alignments of caller memory",
 "The build has no sanitizer; out-of-bounds accesses at partial blocks and undefined shifts give plausible results unnoticed.",
 [K+"BlkR.cpp",K+"BlkRaw.cpp",K+"StMemory.cpp",K+"BlkShifted.cpp",M+"BlkRaw.cpp",M+"BlkShifted.cpp",M+"CFBSink.cpp",M+"CFBSource.cpp",M+"ECBSource.cpp",M+"ECBSink.cpp",M+"Imit.cpp",G+"CFBSink.cpp",G+"CFBSource.cpp",G+"DataImit.cpp"],
 [("sizes tested before copying; smart pointers own everything","all classes")],["AddressSanitizer, UndefinedBehaviorSanitizer and valgrind reports","balance of allocations"])

p("C15","Malformed keys, tables, containers and block texts are refused, never used",
 "A key text that is not exactly 64 hexadecimal digits, a native key that is not 8 words, a key container whose key is not 32 bytes or whose table is not 64 bytes, a substitution table that lacks an entry being looked up, a key index outside 0..7, a byte vector shorter than the block to be built from it, or a block text that is not hexadecimal or is too long makes the operation that would use it throw an exception. It never yields a result, and never touches memory out of bounds.",
 ["inputs"],"all malformed key texts, word vectors, containers, tables, indices and block texts",
 "No test supplies malformed key material.",
 [M+"KeyDataString.cpp",M+"KeyDataNative.cpp",M+"KeyCachedData.cpp",M+"ECBSource.cpp",M+"BlkString.cpp",M+"SboxByte64Tab.cpp",M+"SboxNibble.cpp",K+"KeyDataString.cpp",K+"BlkString.cpp"],
 [("size, digit and index checks at use",M+"KeyDataString.cpp, "+K+"KeyDataString.cpp")],["exceptions","sanitizer reports"])

p("C16","A failure of a collaborator or of memory leaves every object as it was",
 "When an underlying sink, source, stream, key material, substitution table or an allocation fails with an exception at any point of an operation, that exception reaches the caller, nothing leaks, and the objects involved behave as if the operation had never been started: the same call made again succeeds with the right result once the fault is gone.",
 ["fault_sequences","inputs"],"every operation x every point at which a collaborator call or an allocation can fail, one or several failures in a row",
 "No test injects a failure.",
 ["goost/Sink.h","goost/Source.h",M+"CFBSink.cpp",M+"CFBSource.cpp",M+"ECBSink.cpp",M+"ECBSource.cpp",M+"Imit.cpp",M+"KeyCachedData.cpp",K+"BlkCached.cpp",K+"Imit.cpp",K+"StCTREncrypted.cpp",G+"CFBSink.cpp",G+"CFBSource.cpp",G+"DataImit.cpp"],
 [("work on copies, return new objects","all classes"),("caches marked ready only after they are filled",K+"BlkCached.cpp, "+M+"KeyCachedData.cpp")],
 ["exceptions at the call","results of the retry","live allocations"])

p("C17","Stack, memory and work stay bounded however long the message is",
 "Encrypting, decrypting, streaming or authenticating a message uses an amount of stack that does not grow with the length of the message, no live memory that grows with it beyond a fixed number of copies of the data handed in and out, and an amount of work (cipher operations, calls of the parts it is built on, memory allocated along the way) proportional to it. A read costs by what it gives, not by how much is asked for. So no message is too long to process.",
 ["inputs"],"all message lengths, all modes (CFB, ECB, CTR, the MACs)",
 "Tests use messages of at most four blocks, where deep chains of deferred evaluation still fit on the stack.",
 [K+"Imit.cpp",K+"StCTREncrypted.cpp",K+"BlkIncremented.cpp",M+"Imit.cpp",M+"CFBSink.cpp",M+"CFBSource.cpp",G+"DataImit.cpp"],
 [("the chaining value or counter is evaluated at each step instead of being nested",K+"Imit.cpp, "+M+"Imit.cpp, "+K+"StCTREncrypted.cpp")],
 ["stack high-water mark","live heap bytes","count of round-function calls"])

p("C18","Key material is derived once, stays what it was, and failures are not kept",
 "A caching key or block asks for the underlying value of each of its parts at most once successfully, however often and from however many threads it is used, and from then on always answers with the value first obtained even if the underlying value changes. If obtaining it fails, the failure is reported and nothing is remembered: the next use asks again.",
 ["histories","schedules","fault_sequences"],"all sequences of uses, failures and changes of the underlying value, from one or several threads",
 "The suite reads one random cached value twice; it counts no evaluations, injects no failure and starts no thread.",
 [K+"BlkCached.cpp",K+"Key.cpp",M+"KeyCachedData.cpp",M+"LazyKey.cpp"],
 [("ready flag set after the value is stored",K+"BlkCached.cpp, "+M+"KeyCachedData.cpp")],
 ["evaluation counts of instrumented key data","values returned"],[("ready flag","whether the stored value may be used",K+"BlkCached.cpp")])

p("C19","All forms of the same key, and any key or table implementation, are equivalent",
 "The same 256-bit key given as hexadecimal text (either letter case), as native words, as caller-supplied key material or as a key container, cached or not, enciphers every block identically in every mode. Every mode that accepts the abstract key, table, source, sink or stream type works with any implementation of it, not only with the library's own.",
 ["configurations","inputs"],"all keys x all their representations x all modes accepting them, and all implementations of the abstract interfaces",
 "Tests use one representation per case and only the library's own key class; the test that builds here uses one Kuznyechik text key.",
 [M+"LazyKey.cpp",M+"KeyDataString.cpp",M+"KeyDataNative.cpp",M+"KeyCachedData.cpp",M+"Key.h",M+"ECBSource.cpp",M+"CFBSink.cpp",M+"CFBSource.cpp",G+"CFBSink.cpp",G+"CFBSource.cpp",K+"Key.cpp",K+"KeyDataString.cpp"],
 [("constructors delegate to one primary constructor",M+"LazyKey.cpp, "+K+"Key.cpp"),("modes use only the abstract key's round transformation",M+"BlkForwarded.cpp, "+M+"EncryptionBase.cpp")],
 ["outputs of each mode under each representation"])

p("C20","Objects keep alive or copy whatever they need",
 "A key, block, stream, iterator, source or sink stays fully usable for as long as the caller holds it, whatever happens to the other handles, strings, vectors or buffers used to build it: they may be destroyed, overwritten or go out of scope in any order.",
 ["histories","inputs"],"all orders of releasing handles and of overwriting or freeing construction arguments before, between and after uses",
 "Tests keep every object alive to the end of the expression that uses it.",
 [K+"StMemory.cpp",K+"StCTREncrypted.cpp",K+"Key.cpp",K+"BlkRaw.cpp",M+"BlkRaw.cpp",M+"CFBSink.cpp",M+"CFBSource.cpp",M+"SboxByte64Tab.cpp",M+"KeyDataNative.cpp"],
 [("members are values or owning pointers","all classes")],["results after releasing every other handle","AddressSanitizer reports"])

p("C21","Block building, text, shift, XOR, swap and increment are exact arithmetic",
 "Blocks built from halves, pairs, whole words, raw memory at any alignment, byte vectors or hexadecimal text (shorter texts being numbers with leading zeros) have exactly that 64- or 128-bit value; XOR of two or more blocks, left shift by any amount from 0 to the block width less one, swap of halves and increment (wrapping at the block width) equal the same operation on integers of the block's width.",
 ["inputs"],"all 64-bit and 128-bit values, all shift amounts, all alignments, all hexadecimal texts up to full length, any number of XOR operands",
 "The suite samples single values per operation; carries between halves, shifts crossing or equal to word sizes and unaligned memory are not covered.",
 [M+"BlkRaw.cpp",M+"BlkString.cpp",M+"BlkShifted.cpp",M+"BlkSwapped.cpp",M+"BlkXored.cpp",M+"BlkXored.h",K+"BlkRaw.cpp",K+"BlkString.cpp",K+"BlkShifted.cpp",K+"BlkXored.cpp",K+"BlkXored.h",K+"BlkIncremented.cpp"],
 [("two-word arithmetic with carries between words",K+"BlkIncremented.cpp, "+K+"BlkShifted.cpp, "+M+"BlkShifted.cpp")],["values of blocks"])

p("C22","Substitution tables act nibble by nibble and in every form alike",
 "A substitution built from eight 16-entry rows replaces each 4-bit group of the 32-bit word by its row's entry, the packed 64-byte form and the per-byte form of the same table give the same result on every word, and the rotated form gives that result rotated left by 11 bits. The default table is the one of GOST R 34.12-2015.",
 ["inputs","configurations"],"all 2^32 words x all tables x all forms",
 "The suite substitutes four words with one table; most of the 128 table entries and the packed form are not sampled, and none of it builds here.",
 [M+"SboxNibble.cpp",M+"SboxByte.cpp",M+"SboxByte64Tab.cpp",M+"SboxTwisted.cpp",M+"SboxR3412.cpp"],
 [("nibble extraction and reassembly",M+"SboxNibble.cpp, "+M+"SboxByte64Tab.cpp"),("rotation",M+"SboxTwisted.cpp"),("default table",M+"SboxR3412.cpp")],["result of transforming a word"])

p("C23","Sinks, sources and streams compose: a pipeline equals the composed functions",
 "Stacking the library's sinks, sources and streams on one another to any depth (encryptors writing into encryptors, decryptors reading from decryptors, MACs over decrypting sources or over counter-mode streams, also mixing the ciphers) gives the composition of the single transformations; finalizing a sink delivers its pending bytes and returns the underlying sink, so unwinding the stack leaves all data in the innermost one, and reading back through the mirrored stack restores the message.",
 ["configurations","inputs","histories"],"all stackings of modes with any keys, messages, write splits and read sizes",
 "Tests only run single stages on memory sources and sinks.",
 ["goost/Sink.h","goost/Source.h",M+"CFBSink.cpp",M+"CFBSource.cpp",M+"ECBSink.cpp",M+"ECBSource.cpp",G+"CFBSink.cpp",G+"CFBSource.cpp",M+"Imit.cpp",K+"Imit.cpp",K+"StCTREncrypted.cpp"],
 [("every stage talks to the next through the abstract interfaces only","goost/Sink.h, goost/Source.h, "+K+"Stream.h")],["bytes at the innermost sink and at the outermost source"])

p("C24","Walking a memory stream yields every word once, in order, with a correct end",
 "Iterating over a stream made from a sequence of 64-bit words yields its 128-bit blocks in order, every word exactly once; only the final block is marked last, stepping past it yields no iterator, and an empty sequence has no iterator at all. With an odd number of words the final block reports 8 bytes and its missing half is zero.",
 ["inputs","histories"],"all word sequences of any length including empty and odd, and all orders and repetitions of stepping",
 "The suite and the example walk streams of 8 words; empty, odd-sized and long streams are not walked.",
 [K+"StMemory.cpp",K+"Iterator.h",K+"Stream.h"],
 [("offset carried by the iterator and tested against the size of the data",K+"StMemory.cpp")],["values, sizes, last marks and ends of iterators"])

p("C25","Results depend on the arguments only: no ambient state, output or history",
 "The result of every operation is a function of its arguments alone: it does not depend on how many or which other keys and messages were processed before or are alive, on reused addresses, on the global locale, errno, floating-point state or environment, or on the calling thread. The library writes nothing to standard output or error and leaves open files, locale and other process-wide state untouched.",
 ["histories","configurations"],"all histories of earlier operations, all locales and all threads",
 "Each test runs a single operation in a fresh state of the process and in the C locale.",
 [M+"KeyDataString.cpp",M+"BlkString.cpp",K+"BlkString.cpp",K+"BlkCached.cpp",K+"Key.cpp",M+"LazyKey.cpp",G+"CFBSink.cpp"],
 [("no static or global data","README.md (principles)"),("caches are per object",K+"BlkCached.cpp, "+M+"KeyCachedData.cpp")],["results before and after unrelated histories","file descriptors, output, locale"])
p("C26","Pipelines work on demand and in a single pass",
 "Building a block, key, source, sink, stream or MAC over the caller's parts asks nothing of those parts: they are used when a result is asked for (a block copied from another, a source given a key container, and the handles of the two halves of a wide key apart; tables may be looked into). Used in a straight line, every handle once, the library uses every handle below at most once and in order, so parts that can be gone through only once, like a pipe or a file, serve as well as repeatable ones. Along the way a decrypting source asks for no more than one block (rounded to whole blocks) beyond the bytes requested so far, so that a failure further on does not disturb them; an encrypting sink has passed on all but at most one block when a write returns; one step of a counter-mode stream takes one step below and asks for no block's value.",
 ["histories","configurations","inputs"],"all pipelines over one-pass parts x all sequences of reads, writes and steps x all positions at which the part below may fail",
 "The suite's parts are repeatable memory; nothing counts calls, and nothing looks at the sink before finalizing or at how far a source was read.",
 [M+"CFBSource.cpp",M+"ECBSource.cpp",M+"CFBSink.cpp",M+"ECBSink.cpp",G+"CFBSource.cpp",G+"CFBSink.cpp",K+"StCTREncrypted.cpp",K+"Key.cpp",K+"BlkCached.cpp",M+"LazyKey.cpp",M+"KeyCachedData.cpp",M+"Imit.cpp",K+"Imit.cpp"],
 [("no code in constructors","README.md (principles), all classes"),("the source below is read when the carried bytes are used up",M+"CFBSource.cpp, "+G+"CFBSource.cpp"),("every complete block is written on",M+"CFBSink.cpp, "+G+"CFBSink.cpp"),("value computed in value(), not in next()",K+"StCTREncrypted.cpp")],
 ["calls of the caller's parts","bytes in the sink below after each write","range asked of the source below"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
