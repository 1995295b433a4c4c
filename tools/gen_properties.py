#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only because JSON lines are hard to edit by hand)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mechanism, observe_at=observe, hook_needed=hook)))
G='goost/gost89/'; M='goost/magma/'; K='goost/kuznyechik/'
NOT = "The only test that runs here computes one Kuznyechik MAC of four full blocks; "
def m(name, where): return dict(name=name, where=where)

prop('C01','Magma / GOST 28147-89 block encryption is the standard cipher',
 "For every 256-bit key, every substitution table and every 64-bit block, encrypting the block yields the 32-round cipher of GOST R 34.12-2015 (Magma) / GOST 28147-89 under that key and table. The block object and the direct 64-bit transform give the same result, and asking a block object again gives the same value again.",
 ['inputs'], 'all keys (text, words, user supplied), all S-boxes, all blocks',
 NOT+'no magma or gost89 code is executed at all, and the unbuildable suite samples eight blocks under two keys.',
 [M+'BlkEncrypted.cpp',M+'EncryptionBase.cpp',M+'BlkForwarded.cpp',M+'BlkBackwarded.cpp',M+'BlkSwapped.cpp',M+'LazyKey.cpp'],
 [m('three forward key passes, one backward pass, swap',M+'BlkEncrypted.cpp'),m('unrolled 32 rounds',M+'EncryptionBase.cpp'),m('round function: add key mod 2^32, substitute',M+'LazyKey.cpp')],
 ['Block::value()','EncryptionBase::transform()'])
prop('C02','Magma / GOST 28147-89 block decryption inverts encryption',
 "For every key, every substitution table (invertible or not) and every 64-bit block, decrypting an encrypted block returns the original block and encrypting a decrypted block returns the original block; decryption is the 32-round cipher with the reversed key order.",
 ['inputs'], 'all keys, S-boxes and blocks, both composition orders, repeated composition',
 NOT+'decryption is never executed; the unbuildable suite decrypts one block.',
 [M+'BlkDecrypted.cpp',M+'BlkForwarded.cpp',M+'BlkBackwarded.cpp'],
 [m('one forward pass, three backward passes, swap',M+'BlkDecrypted.cpp')],['BlkDecrypted::value()'])
prop('C03','Every S-box form applies exactly its table, plus the 11-bit rotation',
 "For every 32-bit word, a nibble-table S-box replaces each nibble by its own table's entry, a 64-byte packed S-box replaces each nibble by the corresponding half-byte of its column, the built-in S-box is the id-tc26 (GOST R 34.12-2015) table followed by the 11-bit left rotation, and the rotating wrapper rotates whatever it wraps by 11 bits. Packed and nibble forms of the same table agree on every word.",
 ['inputs','configurations'], 'all 2^32 words, all tables, all nestings of the wrapper',
 NOT+'no S-box class is executed; the unbuildable suite applies one table to four words.',
 [M+'SboxNibble.cpp',M+'SboxByte.cpp',M+'SboxByte64Tab.cpp',M+'SboxTwisted.cpp',M+'SboxR3412.cpp'],
 [m('per-nibble table lookup',M+'SboxNibble.cpp'),m('packed lookup, high nibble from one row, low nibble from another',M+'SboxByte64Tab.cpp'),m('rotate by 11',M+'SboxTwisted.cpp')],['Sbox::transform()'])
prop('C04','All forms of key material denote the same key',
 "A 256-bit key given as 64 hexadecimal digits (either letter case, most significant digit first), as eight words, through a caller-supplied key-data object, through a cache, or in a key container's raw bytes yields the same eight round keys and hence the same cipher. A Kuznyechik key given as text or as two 128-bit halves yields the same cipher, and any caller-supplied key implementation works in every mode that accepts one.",
 ['inputs','configurations'], 'all key values and all ways of supplying them',
 NOT+'exactly one lower-case text key in one form is exercised.',
 [M+'KeyDataString.cpp',M+'KeyDataNative.cpp',M+'KeyCachedData.cpp',M+'LazyKey.cpp',M+'ECBSource.cpp',K+'Key.cpp',K+'KeyDataString.cpp'],
 [m('hex parsing per 8 digits',M+'KeyDataString.cpp'),m('container bytes to big-endian words',M+'ECBSource.cpp makeKey'),m('text split in two halves',K+'KeyDataString.cpp')],
 ['KeyData::key()','Key::transform()','Key::Data::low()/high()'])
prop('C05','Malformed key material is rejected, never silently replaced',
 "Key text that is not exactly 64 hexadecimal digits, block text that is longer than a block or contains anything but hexadecimal digits, a word key that does not have eight words, and a key container whose key is not 32 bytes or whose S-box is not 64 bytes make the operation that first needs the value fail with an exception. So does asking a key text for a word other than its eight. They never yield a different (shortened, zero-filled or truncated) key or block, and never touch memory outside what the caller supplied.",
 ['inputs'], 'all malformed texts and sizes, at every position',
 NOT+'no malformed key is ever supplied.',
 [M+'KeyDataString.cpp',M+'KeyDataNative.cpp',M+'BlkString.cpp',K+'BlkString.cpp',K+'KeyDataString.cpp',M+'ECBSource.cpp'],
 [m('size and digit checks before parsing',M+'KeyDataString.cpp'),m('size and digit checks before parsing',K+'BlkString.cpp')],
 ['exceptions from value()/key()/transform()'])
prop('C06','Kuznyechik block encryption is the standard cipher',
 "For every 256-bit key and every 128-bit block, encrypting the block yields the GOST R 34.12-2015 Kuznyechik ciphertext. The result does not depend on how often or in which order the key was used before.",
 ['inputs','histories'], 'all keys, all blocks, all orders of use of a key object',
 NOT+'six encryptions under one key, compared only through the final MAC.',
 [K+'Key.cpp',K+'BlkEncrypted.cpp',K+'BlkIterKey.cpp',K+'BlkL.cpp',K+'BlkR.cpp',K+'BlkS.cpp',K+'BlkCached.cpp'],
 [m('nine LSX rounds and a final X over ten lazily computed, cached round keys',K+'Key.cpp')],['BlkEncrypted::value()','Key::encrypt()'])
prop('C07','Kuznyechik S, R, L transforms and iteration keys are the standard ones',
 "For every 128-bit value, the substitution, the linear-register step and the linear transform yield the values defined by GOST R 34.12-2015, and for every pair of 128-bit keys and every range of round constants the iteration-key block yields the Feistel key-expansion result for that range. Each is a pure function of its argument.",
 ['inputs'], 'all 128-bit values, every byte value in every position, all constant ranges up to 32',
 NOT+'the transforms are only observed through one MAC value.',
 [K+'BlkS.cpp',K+'BlkR.cpp',K+'BlkL.cpp',K+'BlkIterKey.cpp'],
 [m('256-entry table',K+'BlkS.cpp'),m('GF(2^8) multiply-accumulate and shift',K+'BlkR.cpp'),m('recursive key expansion',K+'BlkIterKey.cpp')],['Block::value()'])
prop('C08','Block values behave as 64- and 128-bit numbers',
 "Raw, text, xor (of two or more operands), shift, increment and swap blocks denote the exact 64-bit (Magma) or 128-bit (Kuznyechik) number the operation defines, for every operand and for every shift distance smaller than the block, with carries and bits crossing the half boundary. All ways of constructing the same raw block agree.",
 ['inputs'], 'all operand values, all shift distances 0..63 / 0..127, operand counts 2..5',
 NOT+'only xor and a one-bit shift of one value are exercised.',
 [M+'BlkRaw.cpp',M+'BlkXored.cpp',M+'BlkXored.h',M+'BlkShifted.cpp',M+'BlkSwapped.cpp',M+'BlkString.cpp',K+'BlkRaw.cpp',K+'BlkXored.cpp',K+'BlkXored.h',K+'BlkShifted.cpp',K+'BlkIncremented.cpp',K+'BlkString.cpp'],
 [m('two-word arithmetic with cross-word carry',K+'BlkShifted.cpp, '+K+'BlkIncremented.cpp, '+M+'BlkShifted.cpp')],['Block::value()'])
prop('C09','CFB encryption: ciphertext depends only on the bytes written',
 "However a plaintext is split into writes (including empty ones), the bytes delivered to the underlying sink after finalize are the CFB encryption of the concatenated plaintext, of exactly the same length, for GOST 28147-89 (64-bit feedback) and Magma GOST R 34.13 (128-bit register). After every write the bytes delivered so far are a prefix of that ciphertext lacking fewer than eight of the bytes written, each byte is delivered exactly once and in order, and finalize returns the underlying sink.",
 ['inputs','histories'], 'all plaintexts of any length, all splittings into writes, all keys and IVs',
 NOT+'no sink is executed; the unbuildable suite writes whole blocks in one call only.',
 [G+'CFBSink.cpp',M+'CFBSink.cpp'],
 [m('pending-bytes buffer carried from sink to sink',G+'CFBSink.cpp'),m('two-word shift register',M+'CFBSink.cpp'),m('tail flush',G+'CFBSink.cpp finalize')],
 ['Sink::write()','Sink::finalize()','writes received by the underlying sink'],
 [dict(name='plain',meaning='bytes accepted but not yet encrypted',where=G+'CFBSink.h'),dict(name='iv / ivl,ivr',meaning='feedback register',where=M+'CFBSink.h')])
prop('C10','CFB decryption: plaintext depends only on the ciphertext bytes',
 "However the reader sizes its reads and however the underlying source fragments its data, reading a CFB source to the end returns exactly the CFB decryption of the underlying bytes, of the same length, including a final partial block. A read returns the requested number of bytes unless the data ends, then what is left, and after the end every further read returns no data.",
 ['inputs','histories'], 'all ciphertexts of any length, all read sizes (0 to unlimited), all upstream fragmentations, all keys and IVs',
 NOT+'no source is executed; the unbuildable suite reads whole blocks with one unlimited read.',
 [G+'CFBSource.cpp',M+'CFBSource.cpp'],
 [m('decrypted-but-unread buffer carried from source to source',G+'CFBSource.cpp'),m('two-word shift register',M+'CFBSource.cpp')],
 ['Source::read()'],[dict(name='plain',meaning='bytes decrypted but not yet returned',where=G+'CFBSource.h')])
prop('C11','Anything encrypted through a pipeline decrypts back to itself',
 "For every message, every pipeline of encrypting sinks (CFB of either standard, and ECB for block-aligned messages, nested in any order with any keys) and every splitting of writes and reads, feeding the ciphertext to the corresponding pipeline of decrypting sources returns the original message. The two standards' modes never interchange: each sink is undone only by its own source.",
 ['inputs','histories','configurations'], 'all messages, pipelines up to depth three, all splittings',
 NOT+'no sink or source is executed.',
 [G+'CFBSink.cpp',G+'CFBSource.cpp',M+'CFBSink.cpp',M+'CFBSource.cpp',M+'ECBSink.cpp',M+'ECBSource.cpp'],
 [m('sink and source keep the same register and tail convention',G+'CFBSink.cpp, '+G+'CFBSource.cpp')],['Sink::write()/finalize()','Source::read()'])
prop('C12','ECB works on whole blocks only and never mishandles a misaligned end',
 "ECB writing delivers the encryption of each 8-byte block in order, independent of how whole blocks are grouped into writes, and a write that is not a multiple of 8 bytes fails with an exception, having delivered nothing but encryptions of its whole blocks. ECB reading returns the decryption of each block in order whatever the fragmentation underneath; a read of fewer than 8 bytes, and data that ends inside a block, fail with an exception instead of returning data, and at the end of data no data is returned.",
 ['inputs','histories'], 'all block-aligned and misaligned data, all groupings, all read sizes',
 NOT+'no ECB code is executed; the unbuildable suite uses aligned data only.',
 [M+'ECBSink.cpp',M+'ECBSource.cpp'],
 [m('block accumulation and alignment check',M+'ECBSink.cpp write'),m('minimum read size and whole-block check',M+'ECBSource.cpp read')],['Sink::write()','Source::read()'])
prop('C13','Magma MAC is the GOST R 34.13 MAC of the whole message',
 "For every key and message, the Magma MAC is the GOST R 34.13-2015 (CMAC) value of all bytes the source delivers, whatever the fragmentation of the source: complete final blocks use the first derived key, incomplete or empty ones the second, with one-and-zeros padding.",
 ['inputs','histories'], 'all messages of any length, all source fragmentations, keys whose derived keys do and do not carry',
 NOT+'magma MAC is never executed; the unbuildable suite has one message of whole blocks.',
 [M+'Imit.cpp',M+'BlkShifted.cpp'],
 [m('chained encryption, derived-key doubling with 0x1b',M+'Imit.cpp')],['Imit::value()'])
prop('C14','GOST 28147-89 imitovstavka is the standard 16-round MAC',
 "For every key, S-box and byte string, the GOST 28147-89 MAC is the standard's: the message zero-filled to whole blocks (at least two), chained through the first 16 rounds of the cipher; the one-block operation is exactly those 16 rounds.",
 ['inputs'], 'all byte strings of any length, all keys and S-boxes',
 NOT+'this code is not covered by any test, running or not.',
 [G+'DataImit.cpp',G+'ImitedBlock.cpp'],[m('zero fill and chaining',G+'DataImit.cpp'),m('two forward passes',G+'ImitedBlock.cpp')],['DataImit::value()','ImitedBlock::value()'])
prop('C15','Kuznyechik MAC is the GOST R 34.13 MAC of the whole stream',
 "For every key and every stream, including the empty stream and streams whose final block is incomplete, the Kuznyechik MAC is the GOST R 34.13-2015 (CMAC) value of the stream's blocks in order: complete final blocks use the first derived key, incomplete or empty ones the second, with one-and-zeros padding. Streams that present the same blocks have the same MAC, whether from memory, encrypted, or caller supplied.",
 ['inputs','configurations'], 'all streams of any length and final-block size, all keys, keys whose derived keys do and do not carry',
 NOT+'one message of whole blocks under one key whose derivation takes one path.',
 [K+'Imit.cpp',K+'BlkShifted.cpp',K+'BlkXored.cpp'],[m('chained encryption, derived-key doubling with 0x87',K+'Imit.cpp')],['Imit::value()'])
prop('C16','Kuznyechik CTR encryption follows the counter and is its own inverse',
 "For every stream, key and 64-bit IV, block number i of the CTR stream is the underlying block xored with the encryption of the 128-bit counter IV*2^64+i, cut to the block's size; sizes and the end of the stream are those of the underlying stream. Encrypting twice with the same key and IV gives the original stream, and the value of a position does not depend on how it was reached.",
 ['inputs','histories'], 'all streams, keys and IVs; all traversal orders, including several iterators at once',
 NOT+'CTR code is never executed; the unbuildable suite reads four blocks in order.',
 [K+'StCTREncrypted.cpp',K+'BlkIncremented.cpp'],[m('counter carried by the iterator',K+'StCTREncrypted.cpp')],['Iterator::value()/last()/size()/next()'])
prop('C17','A memory stream presents exactly its data, in order, to every iterator',
 "For every vector of 64-bit words, iterating a memory stream presents its words pairwise as 128-bit blocks (first word low) in order, the final block reporting how many bytes it really holds and zero beyond them, and only the final one reporting itself as last; an empty vector presents no block. Iterators are independent, can be advanced from any position any number of times, and stay valid after the stream handle is released.",
 ['inputs','histories'], 'all word vectors (even, odd, empty), all interleavings of several iterators, all release orders',
 NOT+'one in-order pass over eight words.',
 [K+'StMemory.cpp',K+'StMemory.h'],[m('offset-carrying immutable iterator',K+'StMemory.cpp')],['Stream::iter()','Iterator::value()/last()/size()/next()'])
prop('C18','No operation changes any existing object',
 "Every sink, source, stream, iterator, block and key is immutable as seen by its user: writing, reading, advancing, evaluating or finalizing returns new objects and leaves every existing handle exactly as it was, so continuing from any earlier handle gives the same result as if nothing else had ever been done with it. Objects created independently never influence each other, and destroying handles in any order never changes the remaining ones.",
 ['histories'], 'all branching histories of operations over many live handles, all creation and destruction orders',
 NOT+'one linear history; the property is about every tree of histories.',
 [G+'CFBSink.cpp',G+'CFBSource.cpp',M+'CFBSink.cpp',M+'CFBSource.cpp',M+'ECBSink.cpp',M+'ECBSource.cpp',K+'StMemory.cpp',K+'StCTREncrypted.cpp',M+'LazyKey.cpp',K+'Key.cpp'],
 [m('const members; write/read/next build new objects','goost/Sink.h, goost/Source.h, '+K+'Iterator.h')],['every public call on every live handle'])
prop('C19','Cached key words and blocks are fetched once and stay fixed',
 "A cache asks the object it wraps for each key word or block value successfully at most once, and from then on always returns that first value for that position, whatever the order of accesses. If fetching fails with an exception, the caller sees the exception, nothing is remembered as loaded, and a later access fetches again and returns correct values.",
 ['histories','fault_sequences'], 'all access orders and repetitions, all failure positions in the fetch sequence, all histories of retries',
 NOT+'caches are only exercised with deterministic, never-failing contents.',
 [M+'KeyCachedData.cpp',K+'BlkCached.cpp'],[m('loaded flag set after a complete load',M+'KeyCachedData.cpp'),m('loaded flag and stored pair',K+'BlkCached.cpp')],
 ['KeyData::key()','Block::value()','calls received by the wrapped object'],[dict(name='cached',meaning='the eight words are loaded',where=M+'KeyCachedData.h'),dict(name='loaded',meaning='the value is loaded',where=K+'BlkCached.cpp')])
prop('C20','Shared keys and blocks can be used from several threads at once',
 "Under every interleaving of threads using the same key, cached key data, cached block or stream object, each thread obtains the same results as it would alone: no thread sees a partially loaded cache, a cached value is still fetched at most once, and there is no unsynchronised conflicting access.",
 ['schedules'], 'all interleavings of first and later uses by two or more threads',
 NOT+'single-threaded.',
 [M+'KeyCachedData.cpp',M+'KeyCachedData.h',K+'BlkCached.cpp',M+'LazyKey.cpp',K+'Key.cpp'],
 [m('synchronised one-time load',M+'KeyCachedData.cpp, '+K+'BlkCached.cpp')],['KeyData::key()','Block::value()','Key::transform()','BlkEncrypted::value()'])
prop('C21','Failures pass through unchanged and leave everything usable',
 "If the underlying sink, source, stream, key data or block fails with an exception at any point during an operation, the exception reaches the caller, no wrong data is returned or handed on to the underlying sink, and every existing handle is still usable: repeating the operation once the fault is gone gives exactly the result it would have given without the fault. Misaligned or malformed input that is rejected likewise leaves all handles usable.",
 ['fault_sequences','histories'], 'every position of a fault within every operation, repeated faults, all continuations afterwards',
 NOT+'nothing ever fails in it.',
 [G+'CFBSink.cpp',G+'CFBSource.cpp',M+'CFBSink.cpp',M+'CFBSource.cpp',M+'ECBSink.cpp',M+'ECBSource.cpp',M+'Imit.cpp',K+'Imit.cpp',K+'StCTREncrypted.cpp',M+'KeyCachedData.cpp',K+'BlkCached.cpp'],
 [m('new objects are built only after all nested calls succeeded',G+'CFBSink.cpp, '+M+'CFBSource.cpp')],['exceptions and later results of every public call'])
prop('C22','Messages of any length are processed correctly in bounded stack',
 "MACs, CFB, ECB and CTR give the standard's result for long messages as for short ones: processing a message of n blocks needs call depth that does not grow with n, both for computing the result and for releasing the objects, and no length at which an internal counter or buffer could wrap changes the result.",
 ['inputs'], 'message lengths up to tens of thousands of blocks, processed with a small stack',
 NOT+'four blocks.',
 [K+'Imit.cpp',M+'Imit.cpp',K+'StCTREncrypted.cpp',G+'CFBSink.cpp',M+'CFBSink.cpp',G+'CFBSource.cpp',M+'CFBSource.cpp',M+'ECBSink.cpp',G+'DataImit.cpp',K+'StMemory.cpp'],
 [m('chaining value evaluated block by block',K+'Imit.cpp, '+M+'Imit.cpp'),m('counter evaluated step by step',K+'StCTREncrypted.cpp')],['Imit::value()','Iterator::next()','Sink::write()','Source::read()'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
