#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts) and, with config.py, MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
L = []
def P(id, title, statement, over, q, why, files, mech, observe=()):
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

I, H, S, F, C = 'inputs', 'histories', 'schedules', 'fault_sequences', 'configurations'

P('C01', 'Integer-to-text conversion is exact for every value, radix and buffer size',
  'Converting any signed or unsigned 64-bit integer to text in any radix from 2 to 36, with or without a thousands separator, yields exactly the positional digits of that value (upper-case letters, leading minus for negatives, separator every three digits), terminated, whenever the buffer is large enough. It reports failure exactly when the buffer is too small or the radix is invalid, and never touches memory outside the given buffer.',
  [I, C], 'every 64-bit value x sign x radix x separator x buffer size',
  'The suite converts a handful of constants into one large buffer; the value space is 2^64 and the buffer boundary is never approached.',
  ['convert/convert_int.h', 'convert/convert_int.cpp'], [('Int::ToString', 'convert/convert_int.cpp')], ['Convert::Int::ToString'])
P('C02', 'File-size text shows the right unit, fraction and digits for every size',
  'Formatting any 64-bit size uses bytes below 1024, whole KB above, and from MB on the unit that shows at most three integer digits (without a fraction: the largest unit not exceeding the size), with the fraction truncated, never rounded or wrapped, to the requested number of digits and the requested separators, unit text and sign. It fails when the text does not fit, succeeds with a few bytes to spare, and never writes outside the buffer.',
  [I, C], 'every size x fraction digits x separators x unit text x buffer size',
  'The suite formats a few sizes; overflow in the fraction arithmetic only appears for large values with many digits.',
  ['convert/convert_int.h', 'convert/convert_int.cpp'], [('Int::ToFilesizeString', 'convert/convert_int.cpp')], ['Convert::Int::ToFilesizeString'])
P('J01', 'Serialized JSON is always valid and parses back to the values appended',
  'For every legal sequence of serializer calls (nested objects and arrays, keyed or unkeyed scalars, streamed string pieces, separators, flushing the buffer in between), the concatenated output is one well-formed RFC 8259 document that parses back to exactly the keys, structure and values that were appended. Strings and keys with any content (quotes, backslashes, slashes, control characters, UTF-8, embedded NULs where a size is given) survive byte for byte, and numbers keep their value (doubles to the requested precision).',
  [I, H, C], 'all call sequences x text contents x separators x slash-escaping setting',
  'One fixed document with friendly text is compared in the suite; hostile text, deep nesting and mixed streaming are not reached.',
  ['json/json_serializer.h', 'json/json_serializer.cpp'], [('Serializer state and escaping', 'json/json_serializer.cpp')], ['JSON::Serializer'])
P('J02', 'A JSON serializer call is all or nothing within its fixed buffer',
  'Every serializer call either succeeds and appends its complete text, or returns failure and leaves the produced output unchanged, so the caller can flush and retry. It succeeds exactly when the call is legal at the current nesting position and its text fits in the remaining space, measured sizes match what is written, and nothing outside the caller\'s buffer is ever written.',
  [I, H, C], 'all call sequences, legal or not, x buffer sizes including every size around the exact fit',
  'The suite uses one roomy buffer; the boundary between fitting and not fitting is never sampled.',
  ['json/json_serializer.h', 'json/json_serializer.cpp'], [('size pre-calculation', 'json/json_serializer.cpp')], ['JSON::Serializer'])
P('Q01', 'Queues keep order, ownership and count through any history',
  'Through any history of pushing, popping, shifting, unshifting and detaching nodes, copying and assigning queues and moving nodes between queues, a queue holds exactly the nodes put in and not taken out, in order, with matching forward, backward and size views. Removing returns the same node that was inserted, copies are independent, and every element is destroyed exactly once with no leak or use after free.',
  [H], 'all operation histories over several queues and a pool of detached nodes',
  'Tests run one short scripted sequence on one queue.',
  ['templates/detachable_queue.h', 'templates/detachable_queue_util.h'], [('Queue', 'templates/detachable_queue_util.h')])
P('Q02', 'Lists keep order, ownership and count through any history',
  'Through any history of pushing, inserting before or after a node, detaching, removing, copying and assigning lists and moving nodes between lists, a list holds exactly its nodes in order, with consistent next, previous, first, last and size views. Detached nodes can be reinserted anywhere, copies are independent, and every element is destroyed exactly once with no leak or use after free.',
  [H], 'all operation histories over several lists and a pool of detached nodes',
  'Tests run one short scripted sequence on one list.',
  ['templates/detachable_list.h', 'templates/detachable_list_util.h'], [('List', 'templates/detachable_list_util.h')])
P('H01', 'The ordered hash is an exact insertion-ordered map of int and string keys',
  'Through any history of pushes, unshifts, inserts, removals, detachments, reattachments, lookups, resizes, copies and assignments, the ordered hash behaves as an insertion-ordered map in which integer keys and byte-string keys (with embedded NULs) are distinct, duplicates are refused, and every lookup finds exactly the live node for that key. Iteration order and size always agree with the history, copies are independent, and no element is leaked, lost or destroyed twice.',
  [H, I], 'all operation histories x keys x both hash functions x table sizes',
  'Tests use a few distinct keys and never copy a populated hash or detach and reattach around resizes.',
  ['templates/detachable_ordered_hash.h', 'templates/detachable_ordered_hash_util.h', 'templates/detachable_ordered_hash.cpp'], [('OrderedHash', 'templates/detachable_ordered_hash_util.h')])
P('H02', 'The packed ordered hash is an exact ordered map through any history',
  'Through any history of setting, overwriting, unsetting, finding, iterating, popping, shifting, resizing, compacting, copying and assigning, the packed hash returns for every integer or byte-string key exactly the last value set and not unset, and enumerates live entries in insertion order. Values of any type (self-referential, uncopyable, or taken from another entry of the hash) are never leaked, duplicated, corrupted or destroyed twice, copies are independent, and no access leaves its storage.',
  [H, I], 'all operation histories x keys x both hash functions x initial sizes',
  'Tests exercise a few keys without unsetting across a resize or copying.',
  ['templates/packed_ordered_hash.h', 'templates/packed_ordered_hash_util.h', 'templates/packed_ordered_hash.cpp'], [('PackedOrderedHash', 'templates/packed_ordered_hash_util.h')])
P('H03', 'Hash functions depend on the bytes and key only and match their specification',
  'The keyed hash equals the published SipHash for every byte string, key and round count, and the fast hash is the documented function of the bytes and the seed. Both give the same result at any memory alignment and never read outside the given bytes.',
  [I], 'all byte strings x keys x rounds x alignments',
  'Tests only use hashes indirectly, where any consistent function would do.',
  ['templates/detachable_ordered_hash.cpp', 'templates/packed_ordered_hash.cpp'], [('GetSipHashKey / GetDJBX33XHashKey', 'templates/*_ordered_hash.cpp')])
P('K01', 'The cache only returns what was last stored under exactly that key',
  'Through any history of sets, unsets, finds, copies and assignments, a cache lookup either misses or returns the value most recently stored under exactly that key; a just-stored key is found until another key displaces its slot or it is unset. Copies are independent, hash keys depend only on the key bytes, and no value is leaked or destroyed twice.',
  [H, I], 'all operation histories x keys x cache sizes',
  'Tests store a few keys and never force slot collisions between different keys with equal slots.',
  ['templates/cache.h', 'templates/cache_util.h', 'templates/cache.cpp'], [('Cache', 'templates/cache_util.h')])
P('V01', 'Fixed vectors and 2D arrays copy, assign and compare by value',
  'A fixed vector or two-dimensional array always holds exactly the elements written at each index; copying and assigning between any shapes makes an independent equal object, self-assignment changes nothing, and equality holds exactly when the shapes and all elements are equal. No element is leaked, destroyed twice or accessed outside its storage.',
  [H, C], 'all histories x shapes, including empty and same-area different shapes',
  'Tests cover one vector; no test assigns between shapes or compares.',
  ['templates/static_vector.h', 'templates/static_2d_array.h'], [('StaticVector / Static2DArray', 'templates/static_vector.h, templates/static_2d_array.h')])
P('M01', 'Fixed-buffer mixed variables never overflow and hold exactly the text composed',
  'Through any history of set, append, prepend, trim, resize and number-formatting calls, a fixed-buffer mixed variable contains exactly the text those calls compose, cut at the capacity for set and append (at a whole character for UTF-8 calls) and unchanged when a prepend does not fit, always terminated, also when what is appended or prepended is part of its own text. Numbers appear exactly in the requested radix or precision, type queries and stored scalars match the last set, and nothing outside the variable is written.',
  [H, I, C], 'all histories x contents x capacities from 1 byte up',
  'Tests compose a few short strings in a large buffer.',
  ['templates/static_mixed_var.h', 'utf8/utf8_mixed_var.h'], [('StaticMixedVar', 'templates/static_mixed_var.h'), ('UTF8MixedVar', 'utf8/utf8_mixed_var.h')])
P('U01', 'Unicode conversion is lossless on valid text and safe on damaged text',
  'Converting between UTF-8, UTF-16 and UTF-32 preserves every valid character in order in either direction, and converting damaged input skips the damaged units (or stops at them, when converting from UTF-8) without losing valid neighbours before them, never producing invalid output. When the buffer is too small the result is a whole-character prefix with the size and source position reported accordingly, computing the size without a buffer agrees with a real conversion, and no access leaves the source or destination.',
  [I, C], 'all unit sequences (valid, lone surrogates, truncated, overlong, forbidden) x widths x buffer sizes',
  'Tests convert one valid string with room to spare.',
  ['utf8/utf8_util.h', 'utf8/utf8_util.cpp'], [('ConvertToUTF8 / ConvertFromUTF8', 'utf8/utf8_util.cpp')])
P('U02', 'UTF-8 scanning visits whole characters and always terminates',
  'Walking, measuring and searching a UTF-8 string visits each character once with its right code point, size and byte position, treats combining marks as part of the preceding character, and stops at the end or at the first malformed sequence. It always terminates and never reads past the terminator.',
  [I], 'all zero-terminated byte strings',
  'Tests measure one or two strings.',
  ['utf8/utf8_util.h', 'utf8/utf8_util.cpp'], [('NextCodePoint / NextASCIICodePoint / FindCodePoint / strlen', 'utf8/utf8_util.cpp')])
P('S01', 'Fast find reports exactly the non-overlapping matches a naive search finds',
  'For any data and pattern of any element type and any equality function, searching forward reports the same successive match positions as the naive left-to-right search, from any start position, and reports none when there is none. It never reads outside the data or the pattern.',
  [I, H], 'all data x patterns x element types x comparison functions',
  'Tests search a few English phrases; the point-of-interest skipping logic has many pattern-shape dependent paths.',
  ['templates/fast_find_replace.h', 'templates/fast_find_replace_util.h'], [('FastFind', 'templates/fast_find_replace_util.h')])
P('S02', 'Fast replace equals naive replacement for any data, limit and buffer',
  'Replacing all or a limited number of matches yields exactly the naive left-to-right result and count, whether allocated, allocated through a custom allocator, into a fixed buffer (a prefix of the full result when it is too small), in place when the replacement is not longer, or incrementally. Nothing is read or written out of bounds and every intermediate result is released exactly once.',
  [I, H, C], 'all data x patterns x replacements x limits x result forms x allocators',
  'Tests replace a few phrases without a limit or a tight buffer.',
  ['templates/fast_find_replace.h', 'templates/fast_find_replace_util.h'], [('FastReplace', 'templates/fast_find_replace_util.h')])
P('F01', 'File handles read and write exactly the bytes at the reported position',
  'Through any history of open, seek, read, write and close on one or several handles, including interrupted, short or failing system calls, the bytes read and the file contents equal those of a byte-array model, and the reported position and count are those of the bytes actually transferred. A write that reports success transferred everything, and an open that reports failure leaves the handle closed and the file unlocked.',
  [H, F, C], 'all histories x open flags x sharing modes x fault sequences on the underlying calls',
  'Tests do one write and read with no faults.',
  ['utf8/utf8_file_dir.h', 'utf8/utf8_file_dir.cpp'], [('File::Open/Seek/Read/Write', 'utf8/utf8_file_dir.cpp (POSIX part)')])
P('F02', 'Line and whole-file reading return the file content exactly',
  'Reading a file line by line yields every line in order split at LF, CR LF or CR with the terminator removed and NUL bytes shown as spaces, whatever the size hint and allocator and however the system splits the reads, leaving the position just past the terminator. Loading a whole file returns exactly its bytes and size or fails cleanly without leaking, and neither reads or writes outside its allocation.',
  [I, C, F], 'all file contents x size hints x allocators x interrupted or failing reads',
  'Tests read two short lines with the default hint.',
  ['utf8/utf8_file_dir.h', 'utf8/utf8_file_dir.cpp'], [('File::LineInput / LoadEntireFile', 'utf8/utf8_file_dir.cpp')])
P('F03', 'Copying or moving a file never loses data and never falsely reports success',
  'When copying reports success the destination has exactly the source\'s bytes and, as far as the caller may set them, its permissions and modification time (to the second), whatever was there before; when moving reports success the destination has the bytes and the source is gone (unless both names were the same file already). When either reports failure, even because a read, write, rename or truncation failed part-way, the source is intact, and copying a file onto itself is refused.',
  [I, F, C], 'all file sizes x previous destinations x fault positions x aliasing',
  'Tests copy one small file onto nothing without faults.',
  ['utf8/utf8_file_dir.cpp'], [('File::Copy / File::Move', 'utf8/utf8_file_dir.cpp (POSIX part)')])
P('F04', 'Path checking, splitting and absolute path resolution are exact',
  'A filename is accepted exactly when it is non-empty valid UTF-8 without control characters or the characters *?"<>| and fits, with backslashes turned into slashes; splitting it gives the exact start of file name, first and last extension. Making a path absolute resolves every "." and ".." lexically against an absolute base without ever climbing above the root or returning an unresolved component, fails when the result does not fit, and never writes outside the result buffer.',
  [I, C], 'all byte strings as names and bases x buffer sizes x trailing slash option',
  'Tests resolve one plain name.',
  ['utf8/utf8_file_dir.cpp'], [('File::GetPlatformFilename / GetPlatformFilenameInfo / GetAbsoluteFilename', 'utf8/utf8_file_dir.cpp (POSIX part)')])
P('F05', 'Directory operations act on exactly the tree named, never outside it',
  'Recursive removal deletes the whole named tree when it reports success and never deletes or changes anything outside it, in particular not through symbolic links; non-recursive removal refuses a non-empty directory. Recursive creation creates exactly the missing components, listing reports each entry exactly once, and deleting, linking, link reading, permission, owner and timestamp calls affect exactly the named file with the exact value given.',
  [I, H, C], 'all directory trees (depth, names, links, file kinds) x operations',
  'Tests create and remove one fixed three-level path.',
  ['utf8/utf8_file_dir.cpp'], [('Dir::Rmdir / Mkdir / Read, File::Symlink / Readlink / Chmod / Chown / Chgrp / SetFileTimes', 'utf8/utf8_file_dir.cpp (POSIX part)')])
P('A01', 'Application paths are exact, terminated and within the caller\'s buffer',
  'The executable path, executable directory, system storage, user storage and temporary directory calls return the right path (directories ending in one slash) with its size including the terminator whenever the buffer can hold it, for any home directory and application name. They report failure with size zero exactly when it does not fit or the location is unknown, and never write outside the buffer.',
  [I, C], 'all buffer sizes x home directory settings x application names',
  'Tests call each once with a 4 KB buffer.',
  ['utf8/utf8_appinfo.cpp'], [('AppInfo', 'utf8/utf8_appinfo.cpp (POSIX part)')])
P('A02', 'Process, thread and clock queries are exact everywhere',
  'In every process and thread, also after a fork, the process and thread identifiers are those of the caller, stable for its lifetime and different from those of every other live process or thread. The Unix time is the exact number of microseconds of the system clock for every clock value, ordered as the clock is, and zero only when the clock cannot be read.',
  [I, H], 'all process and thread histories x clock values',
  'Tests cannot set the clock and query each value once.',
  ['environment/environment_appinfo.cpp', 'environment/environment_appinfo.h'], [('AppInfo', 'environment/environment_appinfo.cpp')], ['Environment::AppInfo'])
P('R01', 'Random bytes are complete and random integers stay uniformly in range',
  'A successful request for random bytes fills every byte of the buffer from the system source and nothing beyond it, even when reads are short or interrupted, and a source that fails makes the request fail rather than hang or return unfilled data. A random integer is always within the two bounds given in either order, and every value in the range is equally likely.',
  [I, F, C], 'all sizes, bounds and fault sequences of the random source',
  'Tests draw one value.',
  ['security/security_csprng.cpp', 'security/security_csprng.h'], [('CSPRNG::GetBytes / GetInteger', 'security/security_csprng.cpp')])
P('L01', 'Shared library calls reach the right function once or report failure',
  'Calling a function of a shared library, with any number and types of arguments and with or without a result, loads the library and finds the symbol on first use, passes every argument in order and returns its result. When the library or the symbol is missing, the call reports failure without calling anything, every time, and the library is loaded once and released once.',
  [I, H, C], 'all call histories x argument counts x present and missing libraries and symbols',
  'The suite does not exercise the loader beyond one call.',
  ['templates/shared_lib.h', 'templates/shared_lib_util.h'], [('ModuleUtil / FunctionUtil', 'templates/shared_lib.h')])
P('Y01', 'Mutexes give recursive mutual exclusion across threads and processes',
  'At most one thread among all threads and processes sharing a mutex holds it at any time, the holder can lock it again and must unlock as often (or once for all), and unlocking by anyone else is refused. A lock attempt fails only after its full timeout while someone else held it, waiters always get it eventually once released, and destroying or recreating a held mutex releases it.',
  [S, H, F], 'all interleavings of lock, try, timed lock, unlock, create and destroy over threads, handles and processes',
  'Tests lock from one or two threads in one fixed order.',
  ['sync/sync_mutex.cpp', 'sync/sync_util.cpp'], [('Mutex', 'sync/sync_mutex.cpp'), ('WaitForUnixSemaphore', 'sync/sync_util.cpp')])
P('Y02', 'Semaphores never admit more holders than their count nor lose a permit',
  'A semaphore created with N permits lets at most N holders in at once across threads and processes, an unlock makes exactly one permit available and reports the previous count, and the count never exceeds its maximum. A waiter fails only after its full timeout with no permit available to it, and no permit or wakeup is lost.',
  [S, H, F], 'all interleavings of waits, timed waits, tries and releases over threads, handles and processes',
  'Tests lock and unlock from one thread.',
  ['sync/sync_semaphore.cpp', 'sync/sync_util.cpp'], [('Semaphore', 'sync/sync_semaphore.cpp'), ('WaitForUnixSemaphore / ReleaseUnixSemaphore', 'sync/sync_util.cpp')])
P('Y03', 'Events wake exactly the waiters they should and no signal is lost',
  'Firing an automatic event lets exactly one wait through, now or later (firing it again before that adds nothing), and firing a manual event lets every wait through until it is reset. A wait fails only after its full timeout without a signal it could take, no signal is consumed by a wait that timed out or taken by a zero-timeout wait from threads already waiting, and a pre-fired event starts signaled.',
  [S, H, F], 'all interleavings of waits, timed waits, fires and resets over threads, handles and processes',
  'Tests fire and wait from one thread.',
  ['sync/sync_event.cpp', 'sync/sync_util.cpp'], [('Event', 'sync/sync_event.cpp'), ('WaitForUnixEvent / FireUnixEvent / ResetUnixEvent', 'sync/sync_util.cpp')])
P('Y04', 'Reader-writer locks exclude writers from everyone and never deadlock',
  'A writer never holds the lock together with another writer or a reader, readers may share it, and releasing lets the next waiters in, across threads and processes. A waiting writer is not starved by new readers, a failed or timed-out attempt leaves the lock unchanged, timed attempts give up within their timeout, and a read unlock without a reader is refused.',
  [S, H, F], 'all interleavings of read and write locks, timed attempts and unlocks over threads, handles and processes',
  'Tests lock and unlock from one thread.',
  ['sync/sync_readwritelock.cpp', 'sync/sync_util.cpp'], [('ReadWriteLock', 'sync/sync_readwritelock.cpp')])
P('Y05', 'Named objects with the same name share one state, initialized exactly once',
  'Handles created under the same kind, name and size, in any order and interleaving and in any process, refer to one shared object that is initialized exactly once before anyone uses it; different kinds, sizes or names never share (only names beyond the length limit of the platform are folded, and unrelated ones still stay apart). Shared memory has the requested size, shows every handle the same bytes, reports to exactly one creator that it was first while in use, and when the last handle is gone the next creator starts from the initial state.',
  [S, H, C], 'all interleavings of creating, using and destroying handles x names of any length and content x sizes',
  'Tests open one named object once.',
  ['sync/sync_util.cpp', 'sync/sync_sharedmem.cpp'], [('InitUnixNamedMem / UnmapUnixNamedMem', 'sync/sync_util.cpp'), ('SharedMem::Create', 'sync/sync_sharedmem.cpp')])
P('T01', 'The thread-local allocator hands out disjoint, intact memory',
  'Through any history of allocating, reallocating, duplicating and freeing in any number of threads and allocator instances, each live block is at least the size asked, disjoint from every other live block, and keeps its content until freed, reallocation preserving the common prefix. Freed blocks are reused or released exactly once, ending a thread releases its cache, and a failing system allocator makes the call fail without damaging existing blocks.',
  [H, F, C], 'all allocation histories x sizes x cache limits x allocation failures',
  'Tests allocate a few blocks of one size.',
  ['sync/sync_tls.h', 'sync/sync_tls.cpp'], [('TLS::malloc / realloc / dup_malloc / free', 'sync/sync_tls.cpp')])
P('T02', 'Thread-local mixed variables hold exactly the text composed',
  'Through any history of set, append, prepend, replace, trim, resize, number formatting, copying and assigning, a thread-local mixed variable contains exactly the text those calls compose, terminated, with the right size, whatever its length and also when given part of its own text. Copies are independent, numbers appear exactly in the requested radix or precision, type queries and scalars match the last set, and no memory is leaked or touched after release.',
  [H, I, C], 'all histories x contents x lengths',
  'Tests compose a few short strings.',
  ['sync/sync_tls.h', 'sync/sync_tls.cpp'], [('TLS::MixedVar', 'sync/sync_tls.cpp')])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in L:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

from config import PROPS, TECH, NOTE
checks = []
for p in L:
    i = p['id']
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           technique=TECH[PROPS[i].get('tech', 'model')], level=PROPS[i]['level'], level_note=NOTE[PROPS[i].get('tech', 'model')]))
m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks,
         not_applicable=[dict(property=p['id'], reason='check not built yet') for p in L if p['id'] not in PROPS],
         notes='Every check: python3 check.py ID quick|thorough; replay a failure: python3 check.py --replay FILE.  No hooks in /repo: calls are intercepted at link time.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
