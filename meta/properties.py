#!/usr/bin/env python3
"""Single source of the property texts: writes /verif/properties.jsonl."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ["public API results and iteration order"],
            **({"state": state} if state else {}),
            hook_needed=None)))

I, H = "inputs", "histories"

prop("C01", "Intrusive lists always hold exactly the sequence the operations describe",
 "After any legal sequence of insertions (front, back, before or after a node), deletions, replacements, moves, swaps, rotations and splices on the doubly linked, singly linked and hash-bucket lists, walking the list by every provided iteration form (forward, reverse, from/continue, deletion-safe, by entry) yields exactly the elements, in exactly the order, that an ideal sequence under the same operations would hold. Emptiness, first/last, membership and position predicates agree with that sequence, and a node that was removed can be inserted again.",
 [H], "all legal operation sequences over any number of lists and nodes",
 "The tests iterate over one fixed list built by tail insertion; no test mixes operations or checks back links after them.",
 ["include/bfdev/list.h", "include/bfdev/slist.h", "include/bfdev/hlist.h", "src/list-debug.c", "src/slist-debug.c", "src/hlist-debug.c"],
 [("neighbour link updates", "include/bfdev/list.h"), ("back-pointer to the previous link", "include/bfdev/hlist.h"), ("iteration macros", "include/bfdev/slist.h")])

prop("C02", "Indexed lists and notifier chains stay in priority order through any history",
 "An indexed list always enumerates exactly its current members in non-decreasing order of the caller's comparison, through any interleaving of additions and removals, with elements that compare equal kept in their order of addition. A notifier chain calls exactly its registered subscribers, each once per notification, from the first toward the last in priority order, stops at the first one that asks to stop, honours a limit on the number of calls, and reports how many ran.",
 [H, I], "all interleavings of add/remove (register/unregister, notify) with arbitrary, also equal, keys and priorities",
 "One selftest inserts a fixed pattern and frees everything; no test removes from the middle of equal keys and adds again.",
 ["include/bfdev/ilist.h", "src/ilist.c", "include/bfdev/notifier.h", "src/notifier.c"],
 [("index skip list kept beside the node list", "src/ilist.c"), ("priority comparison and call loop", "src/notifier.c")])

prop("C03", "Sorting returns an ordered permutation and searching finds what is there",
 "For every element count, element size and total preorder, sorting an array leaves an ordered permutation of its input, and sorting a linked list leaves an ordered permutation in which equal elements keep their relative order. Binary search over an ordered array returns an element that compares equal whenever one exists and nothing otherwise. No element outside the given range is read, written or passed to the comparison.",
 [I], "all arrays/lists, element sizes and comparison functions",
 "The tests sort one size of random integers; they never check permutation, stability, odd element sizes or the small counts.",
 ["src/sort.c", "include/bfdev/sort.h", "src/list-sort.c", "src/bsearch.c", "include/bfdev/bsearch.h"],
 [("heap sort sift loops", "src/sort.c"), ("bottom-up merge sort", "src/list-sort.c"), ("interval halving", "src/bsearch.c")])

prop("C04", "A dynamic array behaves as an ideal growable sequence",
 "Pushing, popping, peeking, resizing, reserving, resetting and indexed access on a dynamic array give the same results as on an ideal sequence of fixed-size elements: contents below the current length are preserved exactly, out-of-range accesses and requests whose byte size cannot be represented are refused without changing the array, and the length always equals the ideal one.",
 [H, I], "all operation histories, element sizes and counts, including huge counts",
 "Two fuzz tests only grow an array; shrinking, out-of-range and overflow behaviour are not checked.",
 ["src/array.c", "include/bfdev/array.h"],
 [("capacity computation", "src/array.c"), ("bounds of pop, peek and indexed access", "src/array.c")])

prop("C05", "Red-black trees stay ordered, balanced and consistent through any history",
 "After any sequence of insertions, deletions, replacements and lookups with any key order (unique or duplicate keys, plain, leftmost-cached or augmented trees) the tree holds exactly the live elements, enumerates them in order in both directions, finds every present key and no absent one, and satisfies the red-black colouring and black-height rules. The cached leftmost element is always the true minimum, and in augmented trees every node's aggregate equals the aggregate recomputed from its subtree.",
 [H], "all insertion/deletion/replacement histories and key orders",
 "Selftests insert random keys then delete all; they check neither balance, duplicate order, cached leftmost nor augmentation in mixed histories.",
 ["src/rbtree.c", "include/bfdev/rbtree.h", "src/rbtree-debug.c", "include/bfdev/titer.h"],
 [("insert and erase rebalancing", "src/rbtree.c"), ("leftmost caching", "include/bfdev/rbtree.h"), ("augmentation callbacks", "src/rbtree.c")])

prop("C06", "Interval-tree queries report exactly the overlapping intervals",
 "For every set of closed intervals produced by any history of insertions and removals, enumerating the matches of a query interval yields exactly the stored intervals that share at least one point with it, each once and ordered by start, and yields nothing when none does.",
 [H, I], "all interval sets, histories and query intervals, including extreme endpoints",
 "The selftest uses one random data set without removals between queries.",
 ["src/segtree.c", "include/bfdev/segtree.h"],
 [("subtree maximum kept by augmentation", "include/bfdev/segtree.h"), ("subtree search and next", "src/segtree.c")])

prop("C07", "Heaps always expose an extremal element and keep every member",
 "After any sequence of insertions, deletions of arbitrary members and pops on a pointer-based heap, the root compares no later than any member, the heap contains exactly the live members, its count is right, and popping until empty yields the members in sorted order. Enumeration visits each member exactly once, parents first by level and last in postorder, and looking a member up by its level-order position gives the member the enumeration has there.",
 [H], "all insert/delete/pop histories and priority orders, with ties",
 "The selftest builds a heap and empties it; deletion from the middle and re-insertion are not mixed.",
 ["src/heap.c", "include/bfdev/heap.h", "src/heap-debug.c", "include/bfdev/titer.h"],
 [("sift up and down by relinking", "src/heap.c"), ("complete-tree shape addressed by index", "include/bfdev/heap.h")])

prop("C08", "B+trees behave as an ordered map for every key type and history",
 "A B+tree of any provided key layout returns for each inserted key the value stored last, reports duplicates on insertion and absence on lookup or removal, and enumerates exactly the live keys in one consistent descending order, in both directions and from any live key, after any history of insertions, removals, updates and releases.",
 [H, I], "all operation histories, key widths and key values, including zero and maximal keys",
 "The selftest inserts random keys and looks them up; it never empties the tree, removes in adversarial order or uses other key layouts.",
 ["src/btree.c", "src/btree-utils.c", "include/bfdev/btree.h"],
 [("leaf split and merge", "src/btree.c"), ("key comparison by layout", "src/btree-utils.c")])

prop("C09", "Radix arrays map every index to its own cell and enumerate what is stored",
 "Each index of a radix array has its own cell: a cell obtained for an index is returned by every later lookup of that index and of no other, keeps its contents until it is freed, and starts zeroed where nothing was stored before; looking up or freeing an index that has no cell reports absence. First/last/next/previous enumerate the populated positions in increasing/decreasing order without omission or repetition.",
 [H, I], "all histories of allocate/find/free and all indices, including sparse and very large ones, and all cell sizes",
 "The tests fill a dense range from zero; sparse, huge, freed and backward-enumerated indices are never tried.",
 ["src/radix.c", "include/bfdev/radix.h"],
 [("level/height computation", "src/radix.c"), ("bitmap-tracked leaf cells", "src/radix.c")])

prop("C10", "Hash maps and hash tables behave as an exact (multi)map",
 "A hash map with any hash and equality functions stores, overwrites, appends, finds and deletes exactly as an ideal map would, keeping every entry reachable across automatic growth and shrinkage, and enumeration visits each live entry exactly once. A hash table of any power-of-two size returns, when the bucket of a key is walked, every live element filed under that key, and a full walk visits every live element exactly once.",
 [H, I], "all operation histories, hash distributions (also constant hashes) and sizes",
 "The tests insert a fixed population and read it back; collisions, deletes during growth and shrinking are not exercised.",
 ["src/hashmap.c", "include/bfdev/hashmap.h", "include/bfdev/hashtbl.h", "include/bfdev/hash.h"],
 [("rehash on capacity thresholds", "src/hashmap.c"), ("bucket index from key bits", "include/bfdev/hashtbl.h")])

prop("C11", "Skip lists stay ordered and complete through any history",
 "A skip list under any history of insertions and deletions finds every live key and no other, enumerates its members in order, and hands back each member exactly once on deletion or teardown, whatever heights its nodes were given.",
 [H], "all insert/delete/find histories, keys and level limits",
 "The selftest inserts random keys and finds them; deletion interleavings and level limits are not varied.",
 ["src/skiplist.c", "include/bfdev/skiplist.h"],
 [("per-level links and search", "src/skiplist.c")])

prop("C12", "FIFOs deliver every accepted element once, in order, and never overflow",
 "Over any history of put, get, peek, bulk in/out and flush, a FIFO of any element size and capacity delivers exactly the accepted elements in acceptance order, refuses what does not fit without damaging what is queued, and its length, free-space, empty and full reports match an ideal bounded queue, also after its internal counters wrap. Record FIFOs deliver each accepted record whole, with its exact length and contents, or truncated to the caller's buffer with the rest of that record discarded, and refuse records whose length cannot be represented.",
 [H, I], "all operation histories, element types, record header widths, sizes and counter values",
 "Tests fill once and drain once with one-byte-header records; wrap-around, mixed lengths, two-byte headers and over-long records never occur.",
 ["src/fifo.c", "include/bfdev/fifo.h", "include/bfdev/circle.h"],
 [("masked in/out counters", "include/bfdev/fifo.h"), ("record header poke/peek", "src/fifo.c")])

prop("C13", "Overwriting ring buffers always hold the most recent data, intact",
 "Over any history, an element ring buffer holds exactly the most recent accepted elements up to its capacity, delivered in order, and reports correctly how many it holds; a record ring buffer drops only whole oldest records to make room, so that every delivered record is one that was written, intact and in order. Circular-buffer count and space arithmetic agrees with an ideal ring for every head, tail and size.",
 [H, I], "all operation histories, element sizes, record header widths, capacities and counter values",
 "One example writes and reads a few bytes; overwriting, records and the contiguous-space arithmetic are untested.",
 ["src/ringbuf.c", "include/bfdev/ringbuf.h", "include/bfdev/circle.h"],
 [("overwrite and record dropping", "src/ringbuf.c"), ("contiguous count/space arithmetic", "include/bfdev/circle.h")])

prop("C14", "Caches return the right entry and evict only by their stated policy",
 "A cache of fixed size returns a hit exactly for labels that are currently resident, never evicts an entry that is held, locked out of its limits or in the middle of a change, and reports starvation instead of exceeding its limits; when it evicts, the victim is the least recently (respectively least frequently) used free entry. Hit, miss, use and starvation counters match the history, and a reset cache behaves as a new one.",
 [H], "all get/put/commit/delete/reset histories, sizes, limits and both policies",
 "One example runs a random workload and prints counters; residency, victim choice and holding rules are never checked.",
 ["src/cache/cache.c", "src/cache/lru.c", "src/cache/lfu.c", "include/bfdev/cache.h"],
 [("obtain/put/commit state machine", "src/cache/cache.c"), ("replacement policies", "src/cache/lru.c")])

prop("C15", "Bloom filters never give a false negative and flush to empty",
 "A Bloom filter answers 'possibly present' for every element pushed since creation or the last flush, whatever its capacity and hash functions; a freshly created or flushed filter reports every element absent; a push reports previously-present exactly when a peek just before would have, and with well-spread hash functions the share of absent elements reported present stays near the classical bound for the filter's size and load.",
 [H, I], "all push/peek/flush histories, capacities and hash functions",
 "One example pushes and peeks a single element.",
 ["src/bloom.c", "include/bfdev/bloom.h"],
 [("bit setting per hash function", "src/bloom.c"), ("flush", "src/bloom.c")])

prop("C16", "The memory-pool allocator hands out disjoint live blocks and recovers all space",
 "Inside one caller-supplied pool and under any of its placement strategies, every live block lies within the pool, is suitably aligned, is at least as large as requested and is disjoint from every other live block; resizing preserves contents up to the smaller size; requests that cannot be met, including absurdly large ones, are refused without side effects. Freeing coalesces neighbours so that, once everything is freed, the largest request that initially succeeded succeeds again.",
 [H, I], "all allocate/zero-allocate/resize/free histories, sizes, pool sizes and strategies",
 "The fuzz tests allocate and free without looking for overlap, content preservation, reuse or overflow.",
 ["src/memalloc.c", "include/bfdev/memalloc.h"],
 [("block splitting and coalescing", "src/memalloc.c"), ("strategy search", "src/memalloc.c")])

prop("C17", "Bump-pool and generic allocators honour size, alignment and bounds",
 "Every block obtained from a bump pool lies inside the pool, has the requested alignment and size, and overlaps no other block obtained since the last reset, and requests that do not fit are refused, however large. The generic allocator layer routes every request to the caller's callbacks (or the system heap) with the right size, zeroes what must be zeroed, keeps contents on resize, and refuses element-count times size products that overflow.",
 [H, I], "all request histories, sizes, alignments and callback sets",
 "One example allocates a few small blocks.",
 ["src/allocpool.c", "include/bfdev/allocpool.h", "src/allocator.c", "include/bfdev/allocator.h"],
 [("offset/align arithmetic", "src/allocpool.c"), ("fallback composition of callbacks", "src/allocator.c")])

prop("C18", "Resource pools release each tracked resource exactly once, newest first",
 "Every resource added to a pool is released through its own release routine exactly once - when released individually, by lookup, or when the whole pool is released, newest first - and never after it was taken back out without release; lookups return exactly the tracked resources that match, and a pool released as a whole is empty and usable again. Scope guards run their cleanup exactly once at scope exit unless ownership was handed on, and stored actions run with the data last set.",
 [H], "all histories of insert, find, remove, release and release-all",
 "One example registers a few resources and releases them together.",
 ["src/respool.c", "include/bfdev/respool.h", "include/bfdev/guards.h", "include/bfdev/action.h"],
 [("pool list maintenance", "src/respool.c")])

prop("C19", "Bitmap operations equal their bit-by-bit definitions at any length",
 "Logical operations, shifts, range set/clear, copy, fill, comparison, emptiness/fullness, and allocation of bitmaps give, for every bit below the stated length, the value of the bit-by-bit definition, for every length including those that are not a multiple of the word size and whatever garbage lies beyond the length. They never change bits that lie outside the words holding the destination range, nor (for ranged updates) any bit outside the range, and the logical operations, shifts and masked replacement leave every bit of the last word beyond the length clear.",
 [I], "all lengths, offsets, shift distances, operand contents and operand aliasing",
 "No test touches bitmaps at all.",
 ["src/bitmap.c", "include/bfdev/bitmap.h", "include/bfdev/bitmap-comp.h"],
 [("word loops with tail masks", "src/bitmap.c"), ("single-word fast paths", "include/bfdev/bitmap.h")])

prop("C20", "Bit searching and walking visit exactly the right positions",
 "Finding the first, last, next and previous set or clear bit - in one bitmap or in the conjunction of two, with or without inversion, in native or opposite byte order, from any start and with any length, through the compile-time-sized as well as the general path - returns the true position, or the length when there is none. The bit-iteration forms visit exactly the matching positions in order.",
 [I], "all lengths, start offsets and bit contents, both word-sized fast paths and multi-word paths",
 "Fuzz tests check two walk directions on two fixed sizes.",
 ["src/bitwalk.c", "include/bfdev/bitwalk.h", "include/bfdev/bitwalk-comp.h"],
 [("masked word scan", "src/bitwalk.c"), ("single-word fast paths", "include/bfdev/bitwalk.h")])

prop("C21", "Word-level bit primitives compute their mathematical definition",
 "Bit index searches (first/last set or clear, n-th set or clear from either end), population counts, bit reversal, byte swapping, byte-order conversion, rotation, single-bit set/clear/flip/test-and-modify, bit-field insertion/extraction, logarithms, power-of-two rounding, alignment, BCD conversion and unaligned access return the mathematically defined result for every operand in their domain, and their constant-expression forms agree with their run-time forms.",
 [I], "all operand values of every width, bit positions and field masks",
 "Only the integer logarithm of powers of two is tested.",
 ["include/bfdev/bitops.h", "include/bfdev/bitrev.h", "include/bfdev/swab.h", "include/bfdev/log2.h", "include/bfdev/popcount.h", "src/popcount.c", "src/bitrev.c", "include/bfdev/bitfield.h", "include/bfdev/align.h", "include/bfdev/bits.h", "include/bfdev/byteorder.h", "include/bfdev/unaligned.h", "src/bcd.c", "include/bfdev/asm-generic"],
 [("binary-search bit scans", "include/bfdev/asm-generic/"), ("table and folding population counts", "src/popcount.c"), ("constant-expression macros", "include/bfdev/bitrev.h")])

prop("C22", "Big-integer arithmetic is exact for all operands, signs and aliasings",
 "Addition, subtraction, multiplication, division, remainder, shifts, bitwise operations, comparison, import/export of values, and the machine-word operand forms of multiple-precision integers agree with exact integer arithmetic (quotient truncated toward zero) for operands of any length and sign, including zero, also when the destination is one of the operands, and never produce a negative zero; division by zero is refused.",
 [I, H], "all operand values, lengths, signs, aliasings and computation histories",
 "Tests check round trips on fixed-width random positives; they never compare against independent arithmetic, mix signs or alias operands.",
 ["src/mpi.c", "include/bfdev/mpi.h"],
 [("limb carry/borrow loops", "src/mpi.c"), ("long division", "src/mpi.c"), ("sign handling", "src/mpi.c")])

prop("C23", "Double-word multiplication and division are exact",
 "Double-word products, quotients and remainders at every provided width equal exact integer arithmetic for every operand pair with a non-zero divisor, including quotients that need more than one word and divisors of either size, and both result words are always written.",
 [I], "all operand values at each width",
 "Nothing tests them directly.",
 ["src/dword.c", "include/bfdev/dword.h"],
 [("normalised schoolbook division", "src/dword.c")])

prop("C24", "Text codecs round-trip and match their published formats exactly",
 "Base64, Base32 and Ascii85 encoding produce the standard encoding of the input, of exactly the predicted length and nothing beyond it, and decoding the encoding restores the input (for Ascii85 zero-padded to a whole group), for every length and content. Decoders and their length prediction accept every valid encoding, and given any other text report an error or produce output without reading outside the input or writing outside the predicted length.",
 [I], "all byte strings and lengths, all candidate encoded strings",
 "Tests encode and decode fixed sample strings.",
 ["src/crypto/base64.c", "src/crypto/base32.c", "src/crypto/ascii85.c", "include/bfdev/base64.h", "include/bfdev/base32.h", "include/bfdev/ascii85.h"],
 [("group packing and tail padding", "src/crypto")])

prop("C25", "Message digests equal the published algorithms however input is chunked",
 "MD5, SHA-1, SHA-224 and SHA-256 digests equal the published algorithms for messages of every length and content, no matter how the message is split into updates, how the pieces are aligned in memory, or what the context was used for before being re-initialised.",
 [I, H], "all messages, lengths, splits and alignments",
 "Tests hash fixed sample strings in one or a few updates.",
 ["src/crypto/md5.c", "src/crypto/sha1.c", "src/crypto/sha2.c", "include/bfdev/md5.h", "include/bfdev/sha1.h", "include/bfdev/sha2.h"],
 [("partial block buffering and length padding", "src/crypto"), ("round functions", "src/crypto")])

prop("C26", "Every CRC equals its polynomial definition and composes over concatenation",
 "Each provided CRC equals the bitwise polynomial division with its documented polynomial and bit order for every buffer, length, alignment and starting value, and checksumming a buffer in consecutive pieces gives the same value as checksumming it at once.",
 [I], "all buffers, lengths, alignments, split points and starting values, for all CRC variants",
 "Tests only measure bandwidth.",
 ["src/crypto/crc4.c", "src/crypto/crc7.c", "src/crypto/crc8.c", "src/crypto/crc16.c", "src/crypto/crc-itut.c", "src/crypto/crc-ccitt.c", "src/crypto/crc-t10dif.c", "src/crypto/crc32.c", "src/crypto/crc64.c", "src/crypto/crc-rocksoft.c", "include/bfdev/crypto/crc-inline.h", "scripts"],
 [("sliced table lookup with alignment prologue", "include/bfdev/crypto/crc-inline.h"), ("generated tables", "scripts")])

prop("C27", "The stream cipher matches ARC4 and is independent of chunking",
 "For every key and data, applying the stream cipher yields exactly the ARC4 keystream combined with the data, in one call or split over any number of calls, in place or into another buffer, and applying it twice with the same key restores the data.",
 [I, H], "all keys, key lengths, data and splits",
 "Tests measure bandwidth and one round trip.",
 ["src/crypto/arc4.c", "include/bfdev/arc4.h"],
 [("state permutation update", "src/crypto/arc4.c")])

prop("C28", "Text search finds every occurrence its algorithm can see, and nothing else",
 "Every search algorithm, on any text and non-empty pattern of any byte values, with and without case folding, reports a position exactly when the pattern occurs there: the first search returns the first occurrence and repeated searches enumerate the successive non-overlapping occurrences until none is left, with all algorithms agreeing. In text served block by block, kmp also finds occurrences that span blocks while bm and sunday see those within a block; no search reads outside a block or the pattern.",
 [I], "all patterns and texts over all byte values, all algorithms, flags and segmentations",
 "One example searches one fixed sentence.",
 ["src/textsearch/bm.c", "src/textsearch/kmp.c", "src/textsearch/sunday.c", "src/textsearch/linear.c", "src/textsearch/textsearch.c", "include/bfdev/textsearch.h"],
 [("shift tables", "src/textsearch/bm.c"), ("prefix table", "src/textsearch/kmp.c"), ("continuation state", "src/textsearch/textsearch.c")])

prop("C29", "String and character routines match the C standard semantics",
 "The library's own string, memory, duplication and character-class routines give the result the C standard (or the identically named POSIX/BSD routine) prescribes for every argument within their domain, including empty strings, overlapping moves, bytes above 127, unaligned buffers and every bound, and never touch memory outside the given objects. Constant-expression character-class forms agree with the run-time forms for every character.",
 [I], "all strings, byte values, alignments, lengths and bounds",
 "No test covers them.",
 ["src/libc/string.c", "src/libc/strdup.c", "src/libc/ctype.c", "include/bfdev/string.h", "include/bfdev/ctype.h", "include/bfdev/uplower.h", "include/port"],
 [("word-at-a-time and byte loops", "src/libc/string.c"), ("class table", "src/libc/ctype.c")])

prop("C30", "Bounded formatting, argument splitting, error names and log lines are exact",
 "Bounded formatting writes the ideal text truncated to the buffer, always terminated, and returns the number of characters actually stored; splitting a command string yields exactly its white-space separated words; every error code maps to its own name and description and unknown codes to none. A log message is delivered exactly when its level passes the configured threshold, carrying the prefix its settings call for and its full text up to the line limit; a level above the compile-time ceiling delivers and evaluates nothing, and the assertion macros evaluate their condition once, report their place exactly when it holds, and stop the program only in their fatal form.",
 [I], "all formats and bounds, all strings, all codes, all level and flag settings",
 "One example logs one line per level; nothing checks truncation, splitting or names.",
 ["src/scnprintf.c", "src/argv.c", "src/errname.c", "src/log/log.c", "src/log/level.c", "src/log/color.c", "include/bfdev/log.h", "include/bfdev/bug.h"],
 [("length clamping", "src/scnprintf.c"), ("word scanning", "src/argv.c"), ("level parse and threshold", "src/log/log.c")])

prop("C31", "State machines take exactly the transitions their tables define",
 "Handling an event moves the machine along the first transition, searching from the current state outward through its parents, whose type matches and whose guard accepts, running exit, transition and entry actions exactly once each in that order with the right data; unmatched events change nothing; failing actions are reported and lead to the error state as configured; and state-stack transitions return to the state they saved.",
 [H, I], "all state graphs, hierarchies, guards and event sequences",
 "One example runs a fixed pattern recogniser without hierarchy, guards, stack or failing actions.",
 ["src/fsm.c", "include/bfdev/fsm.h"],
 [("transition lookup and state switch", "src/fsm.c"), ("saved-state stack", "src/fsm.c")])

prop("C32", "Rate limiters admit no more than the configured budget, and no less",
 "Driven by any non-decreasing clock of non-zero times, the interval rate limiter admits exactly the first burst-many requests of each interval, and the token bucket admits a request exactly when the tokens accumulated at the configured rate, capped at its capacity, suffice - also after arbitrarily long idle periods - and accounts rejected requests exactly.",
 [H, I], "all non-decreasing clock sequences, rates, capacities, intervals and request patterns",
 "One example each sends a handful of requests with small clock steps.",
 ["src/ratelimit.c", "src/tokenbucket.c", "include/bfdev/ratelimit.h", "include/bfdev/tokenbucket.h"],
 [("window restart and burst counting", "src/ratelimit.c"), ("token generation and cap", "src/tokenbucket.c")])

prop("C33", "Reference counts and atomic updates are exact under any thread interleaving",
 "With any number of threads, atomic add, subtract, bitwise, exchange, compare-exchange and atomic bit updates lose nothing and return values consistent with one total order of the updates; a reference count reports zero to exactly one dropper, a conditional increment never revives a count of zero, and debug builds report each overflow, underflow and use after zero.",
 ["schedules", H], "all thread interleavings and operation mixes",
 "No test runs two threads.",
 ["include/bfdev/atomic.h", "include/bfdev/cmpxchg.h", "include/bfdev/asm-generic", "src/refcount.c", "include/bfdev/refcount.h", "include/bfdev/bitops.h"],
 [("atomic read-modify-write primitives", "include/bfdev/asm-generic"), ("reported count updates", "include/bfdev/refcount.h")])

prop("C34", "The lock-free list loses and duplicates nothing under concurrency",
 "With any number of concurrent pushers and one popper or any number of threads taking the whole list, every pushed node is taken exactly once, batches come out in last-in-first-out order with respect to each pusher, a push reports whether the list was empty before it, and no data race is introduced.",
 ["schedules"], "all interleavings of pushes (single and batch), pops and take-all",
 "No test uses the lock-free list.",
 ["src/llist.c", "include/bfdev/llist.h"],
 [("compare-exchange push", "src/llist.c"), ("exchange take-all", "include/bfdev/llist.h")])

prop("C35", "Allocation failure at any point is reported and leaves every structure usable",
 "If any single memory request made by a container or arithmetic operation fails, the operation reports failure, no memory is lost or freed twice, the structure still holds its prior (or a valid, consistent) content, and later operations, including the same one retried, work normally.",
 ["fault_sequences", H], "every allocation point of every operation in every history, failing once or persistently",
 "No test injects an allocation failure.",
 ["src/array.c", "src/btree.c", "src/radix.c", "src/hashmap.c", "src/skiplist.c", "src/fifo.c", "src/ringbuf.c", "src/bloom.c", "src/cache/cache.c", "src/mpi.c", "src/matrix.c", "src/fsm.c", "src/bitmap.c", "src/libc/strdup.c", "src/argv.c", "src/levenshtein.c", "src/textsearch/textsearch.c"],
 [("checked allocation results and unwinding", "src")],
 observe=["caller-supplied allocator callbacks", "API return codes"])

prop("C36", "All memory comes from the caller's allocator and goes back to it exactly once",
 "Every container that is given an allocator obtains all its memory from that allocator, never touches memory it did not obtain or has returned, returns each block exactly once, and holds none after it is released, reset or destroyed; element release callbacks run exactly once per live element on teardown.",
 [H], "all histories ending in release/reset/destroy, for all allocating containers",
 "Tests use the default allocator and only notice leaks in what they happen to run.",
 ["src/array.c", "src/btree.c", "src/radix.c", "src/hashmap.c", "src/skiplist.c", "src/fifo.c", "src/ringbuf.c", "src/bloom.c", "src/cache/cache.c", "src/mpi.c", "src/matrix.c", "src/fsm.c", "src/segtree.c"],
 [("destroy/release/reset paths", "src")],
 observe=["caller-supplied allocator callbacks"])

prop("C37", "Matrix arithmetic and edit distance equal their definitions",
 "Matrix addition, subtraction, multiplication, transposition, element access, import and copy produce the defined result for every shape and value, also when the destination is an operand, and refuse mismatched shapes and out-of-range positions. The weighted edit distance equals the minimum total cost over all scripts of substitutions, adjacent swaps, additions and deletions that edit no character twice, for every pair of strings and costs.",
 [I], "all shapes, values, aliasings; all string pairs and cost weights",
 "Tests multiply 2x2 matrices and compare one pair of strings.",
 ["src/matrix.c", "include/bfdev/matrix.h", "src/levenshtein.c", "include/bfdev/levenshtein.h"],
 [("row/column loops and result buffer", "src/matrix.c"), ("three-row dynamic programme", "src/levenshtein.c")])

prop("C38", "Hashes and pseudo-random sequences are deterministic and match their definitions",
 "Hash functions depend only on the bytes and seed they are given - not on alignment or surrounding memory - and equal their published definitions; index hashes stay within the requested number of bits. A seeded generator yields exactly the sequence its published algorithm defines, for every seed, whatever mix of draw widths is used, and never starts in a degenerate state.",
 [I, H], "all keys, lengths, seeds, alignments and draw counts",
 "One example prints a few numbers.",
 ["src/jhash.c", "include/bfdev/jhash.h", "src/stringhash.c", "include/bfdev/hash.h", "src/prandom.c", "include/bfdev/prandom.h"],
 [("tail handling and mixing", "src/jhash.c"), ("combined Tausworthe generator", "src/prandom.c")])

prop("C39", "Overflow-checked arithmetic, min/max, math and pointer helpers are exact",
 "Overflow-checked and saturating arithmetic reports overflow exactly when the mathematical result does not fit and otherwise returns it; minimum, maximum, clamp, swap, rounding, alignment, nearest-division, time-comparison and bit-counting helpers return the mathematical result, the value-returning ones evaluating each argument once; error-pointer encoding is lossless and never confuses a valid pointer with an error; do-once constructs run their body once and argument-mapping macros apply the given macro to every argument in order.",
 [I], "all operand values of all integer types",
 "Only the logarithm and once examples touch this area.",
 ["include/bfdev/overflow.h", "include/bfdev/minmax.h", "include/bfdev/math.h", "include/bfdev/errptr.h", "include/bfdev/once.h", "include/bfdev/size.h", "include/bfdev/container.h", "include/bfdev/struct.h", "include/bfdev/mhelper.h"],
 [("overflow detection", "include/bfdev/overflow.h"), ("single evaluation through temporaries", "include/bfdev/minmax.h")])

prop("C40", "No result ever depends on uninitialised memory",
 "No operation of any component branches on, outputs, or uses as an address any value that neither the caller nor the library has initialised, in any legal use (a caller-held bitmap counts as initialised in whole words).",
 [H, I], "all legal operation histories of all components",
 "The tests run with address and undefined-behaviour checks only, which do not see uninitialised reads, and over few inputs.",
 ["src", "include/bfdev"],
 [("explicit initialisation of every structure and temporary buffer", "src")],
 observe=["MemorySanitizer reports on an instrumented build of the whole library and harness"])

prop("C41", "Checked builds report misuse of linked structures and leave them untouched",
 "With the integrity checks built in (the default), adding a list, tree or heap member at the very place it already occupies, adding beside list neighbours that do not point at each other, removing a list, tree or heap member a second time (or one whose links were overwritten by an earlier removal), changing an indexed list whose links are inconsistent, and freeing or resizing an allocator block that is not in use are each reported at error level or above, name an object involved, and change nothing at all. No legal operation on any of these structures is ever reported or refused.",
 [H, I], "all legal histories of each structure with any single misuse inserted at any point",
 "No test ever misuses a structure or looks at the log; a check that never fires, fires on legal use or lets the damage happen goes unnoticed.",
 ["src/list-debug.c", "src/slist-debug.c", "src/hlist-debug.c", "src/ilist.c", "src/rbtree-debug.c", "src/heap-debug.c", "src/memalloc.c", "include/bfdev/poison.h"],
 [("neighbour, self-insertion and poison tests", "src/list-debug.c"), ("links poisoned on removal", "include/bfdev/rbtree.h"), ("in-use test of a block", "src/memalloc.c")],
 observe=["messages given to the log sink", "bytes of heads, members and pool before and after the call"])

prop("C42", "Every way of creating an object yields the same empty, working object",
 "For every structure, the defining macro, the static initialiser, the compound literal and the init function (on memory holding anything) all yield an object that is empty, carries exactly the given parameters (allocator, sizes, callbacks, data), and then behaves identically under the same operations. A reset state machine or rate limiter behaves like a new one.",
 [H, I], "all structures, all creation forms, all parameters, any previous content of the memory, any following operations",
 "The tests use one creation form per structure, nearly always on zeroed memory.",
 ["include/bfdev/array.h", "include/bfdev/fifo.h", "include/bfdev/ringbuf.h", "include/bfdev/hashtbl.h", "include/bfdev/radix.h", "include/bfdev/fsm.h", "include/bfdev/log.h", "include/bfdev/heap.h", "include/bfdev/rbtree.h", "include/bfdev/mpi.h"],
 [("static initialisers", "include/bfdev/fifo.h"), ("init functions", "include/bfdev/hashtbl.h")])

prop("C43", "Generated tree walkers visit every node once, in order, on any tree",
 "The tree-iterator templates, instantiated over a caller's own parent-linked binary tree with any field names, yield walks that visit every node exactly once in in-order (both directions), pre-order and post-order, for any shape including long paths and the empty tree, and in level order on complete trees; a post-order walk no longer needs the nodes it has left behind, so the tree can be released while walking. The leftmost, rightmost and deepest-end helpers return the node their name says.",
 [I], "all binary trees, all starting nodes, all instantiations",
 "No test instantiates the templates or looks at the order of their walks; the built-in users only ever form balanced trees.",
 ["include/bfdev/titer.h"],
 [("climb and descend loops of the templates", "include/bfdev/titer.h")])

prop("C44", "A FIFO shared by one writer and one reader needs no lock",
 "When one thread only puts and another thread only gets, with no lock between them, every element or record the writer put comes out exactly once, whole and in order, for every element type, capacity, record size and counter position. What either side is told can be relied on: room the writer has seen can be written to at once, elements the reader has seen can be read at once, peeked elements are the ones read next, and a side that polls in a loop notices what the other side has done.",
 ["schedules", "histories"], "all interleavings of one writing and one reading thread over all operations legal for each side",
 "The tests use the queue from one thread only, so the ordering between the index and the elements it covers is never at stake.",
 ["include/bfdev/fifo.h", "src/fifo.c"],
 [("index moved after the copy", "src/fifo.c"), ("in-line put, get and length", "include/bfdev/fifo.h")],
 observe=["elements and records read by the reading thread", "lengths and refusals seen by each side"])

prop("C45", "Threads that share no object never affect each other; reads may overlap",
 "Threads that each work on objects of their own, of any kinds and with no lock, get exactly the results each would get alone, and there is no data race between them. Threads that only look at an object nobody is changing (finding, counting, walking, comparing, peeking) may do so at the same time and all get the lone reader's answer. Only the process-wide registries, the default log sink and the per-context state of a running search are shared.",
 ["schedules", "histories"], "all interleavings of threads working on separate objects or reading a common unchanged one, for every structure and algorithm of the library",
 "Every test is single threaded, so a scratch variable that turned static, or a lookup that quietly reorders what it looks at, passes all of them.",
 ["src/", "include/bfdev/"],
 [("functions without static state", "src/mpi.c"), ("lookups that leave the structure alone", "src/hashmap.c"), ("read walks", "include/bfdev/rbtree.h")],
 observe=["threads overlapping in the library, oracle checks in each"])

prop("C46", "Work and storage stay within the classical bounds for any input",
 "Sorting never compares more than a small multiple of n log n; a tree, heap, B+tree, binary search or interval query takes a number of comparisons logarithmic in the members (per result); hash maps and caches with a well-spread hash need a constant number of comparisons per lookup and of rehashes per update, skip lists a logarithmic number on average, and the linear-time text search reads each character a constant number of times. Storage follows the contents: growth is amortised, and deletions give nodes and buckets back.",
 [I, H], "all orders of arrival and removal, all sizes",
 "The tests use a few thousand random keys and never count; a container that has lost its balance, its growth or its pruning still returns the right answers.",
 ["include/bfdev/sort.h", "src/sort.c", "src/list-sort.c", "src/rbtree.c", "src/heap.c", "src/btree.c", "src/hashmap.c", "src/skiplist.c", "src/radix.c", "src/array.c", "src/cache/", "src/textsearch/kmp.c"],
 [("worst-case statement", "include/bfdev/sort.h"), ("growing and shrinking", "src/hashmap.c"), ("pruning", "src/radix.c")],
 observe=["comparison, hash and find callback calls", "blocks and bytes held at the allocator"])

prop("C47", "The same source behaves the same however it is compiled",
 "Whatever compiler, optimisation level, signedness of plain char and combination of the configuration switches (structure diagnostics, CRC loop unrolling) the library and its caller are built with, legal use gives the same results.",
 [I, H], "all workloads, over the supported compilers, optimisation levels and configuration switches",
 "The tests run on one build, with every diagnostic on and sanitizers that themselves suppress optimisations.",
 ["CMakeLists.txt", "include/bfdev/compiler.h", "src/crypto/", "src/", "include/bfdev/"],
 [("configuration switches", "CMakeLists.txt"), ("unrolled loops", "src/crypto/")],
 observe=["digest of everything each case observed, per build"])

prop("C48", "Sizes beyond 4 GiB and the largest counts behave like small ones",
 "Arrays, fifos, ring buffers, memory pools, filters, numbers, matrices, sorted and searched arrays, argument vectors, search patterns, checksums, digests, ciphers, codecs, hashes and string scans whose size, count or index does not fit 32 bits, and bit maps and texts as long as their 32-bit counts allow, behave exactly as they do at small sizes: every result is right, no size is cut down, no loop fails to end and nothing outside the object is touched.",
 [I, H], "all sizes, counts, offsets and shift amounts up to what the types and a 64-bit address space can hold",
 "The tests stay within a few megabytes, where a size kept in an unsigned int loses nothing.",
 ["src/array.c", "src/fifo.c", "src/ringbuf.c", "src/memalloc.c", "src/allocpool.c", "src/mpi.c", "src/bitmap.c", "src/bloom.c", "src/crypto/", "src/textsearch/"],
 [("size arithmetic", "src/"), ("sizes and counts in structures", "include/bfdev/")],
 observe=["results at sizes, counts and positions above 2^32"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
