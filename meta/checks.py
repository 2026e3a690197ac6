"""What each property's check runs.  quick/thorough are case counts."""
CHECKS = {}

def check(prop, runs, rule, technique, **kw):
    if any(r["harness"].startswith("h_many_") for r in runs):
        rule += " A second workload does the same with 66000..136000 (thorough 466000) members or more, past what 16 bits count."
    CHECKS[prop] = dict(runs=runs, rule=rule, technique=technique, **kw)

def R(harness, quick, thorough, variant="asan", **kw):
    return dict(harness=harness, quick=quick, thorough=thorough, variant=variant, **kw)

check("C01", [R("h_lists", 30000, 600000), R("h_lists", 5000, 300000, "nodebug")],
      "Random operation histories over a pool of nodes and several list heads; every walk form is compared with an ideal sequence.",
      "reference-model monitoring of random list histories under ASan/UBSan")

check("C02", [R("h_ilist", 40000, 800000)],
      "Random add/remove/notify histories with few distinct keys over 1..24 nodes.",
      "sorted-model and call-log monitoring of random histories under ASan/UBSan")

check("C03", [R("h_sort", 40000, 800000), R("h_many_sort", 10, 120)],
      "Arrays and lists of 0..400 (thorough 3000) elements in sorted, reversed, constant, organ-pipe, periodic and random order, with random rank functions (few or many classes) and comparison result styles, element sizes 1..100 bytes in exact-size buffers; searches for present and absent values.",
      "permutation/order/stability oracles on sorted output under ASan/UBSan",
      must_see=["many.sort", "sort.big"])
check("C04", [R("h_array", 40000, 800000), R("h_many_array", 10, 120)],
      "Random push/pop/peek/resize/reserve/reset histories with element sizes 1..256, including counts whose byte size overflows, on an accounting, always-moving allocator or the default one.",
      "reference-model monitoring of random histories under ASan/UBSan",
      must_see=["many.array"])
check("C05", [R("h_rbtree", 25000, 500000), R("h_rbtree", 4166, 250000, "nodebug"), R("h_many_rbtree", 10, 120)],
      "Random insert/delete/replace/find histories on plain, cached and augmented (max and count) trees, unique and duplicate keys, sequential/reverse/random/strided key orders, up to 600 (thorough 3200) nodes; red-black rules, parent links, aggregates and all walks re-verified as the history runs.",
      "structural-invariant and sorted-model monitoring of random histories under ASan/UBSan",
      must_see=["many.rbtree", "rbtree.insert", "rbtree.delete", "rbtree.replace", "rbtree.duplicate_refused", "rbtree.propagate", "rbtree.find_last", "rbtree.teardown"])
check("C06", [R("h_segtree", 30000, 600000), R("h_many_segtree", 10, 120)],
      "Random insert/remove histories over up to 200 closed intervals (dense, sparse, extreme coordinates; built-in unsigned and user-defined signed trees) with three queries after every step, through every query form including interrupted walks.",
      "brute-force interval oracle over random histories under ASan/UBSan", must_see=["many.segtree", "segtree.insert", "segtree.delete", "segtree.match", "segtree.query_empty", "segtree.signed_query"])
check("C07", [R("h_heap", 30000, 600000), R("h_heap", 5000, 300000, "nodebug"), R("h_many_heap", 10, 120)],
      "Random insert / delete-any / pop histories over up to 300 members with few or many distinct keys, both orders; structure re-verified as the history runs, then drained.",
      "structural-invariant and multiset-model monitoring of random histories under ASan/UBSan", must_see=["many.heap", "heap.insert", "heap.pop", "heap.delete_inner", "heap.drain", "heap.walk", "heap.find", "heap.walk_released"])
check("C08", [R("h_btree", 9000, 300000), R("h_many_btree", 6, 72)],
      "Random insert/remove/update/lookup/step histories on the three provided layouts and on caller-defined ones (1-3 word keys, 2-9 keys a node), sparse/dense/sequential/extreme keys, with and without clash/remove hooks, small and up to 1000 (thorough 3300) keys; every enumeration form compared with the model.",
      "ordered-map model monitoring of random histories under ASan/UBSan, exact-size nodes", must_see=["many.btree", "btree.insert", "btree.remove", "btree.duplicate", "btree.remove_absent", "btree.height3", "btree.emptied", "btree.custom_layout", "btree.walk"])
check("C09", [R("h_radix", 25000, 500000), R("h_many_radix", 10, 120)],
      "Random alloc/free/find/enumerate/charge/release histories for cell sizes 1..256 (powers of two and not), dense, sparse, block-boundary and extreme indices up to the top of the address range.",
      "index-map model monitoring of random histories under ASan/UBSan", must_see=["many.radix", "radix.alloc", "radix.free", "radix.free_absent", "radix.level3", "radix.full_height", "radix.drain", "radix.charge"])
check("C10", [R("h_hashmap", 20000, 400000), R("h_hashmap", 3333, 200000, "nodebug"), R("h_many_hashmap", 10, 120)],
      "Random add/set/update/append/delete/find histories over up to 700 (thorough 2200) elements with good, degenerate and constant hashes, default and user-defined growth rules, few or many distinct keys; all enumeration forms; bare hash tables of 2..4096 buckets.",
      "multimap-model monitoring of random histories under ASan/UBSan", must_see=["hashtbl.past_64k", "many.hashmap", "hashmap.grown", "hashmap.shrunk", "hashmap.replace", "hashmap.exists", "hashmap.update_absent", "hashmap.append_dup", "hashmap.drain", "hashmap.extend_cb", "hashmap.shrink_cb", "hashtbl.bucket_walk", "hashtbl.drain"])
check("C11", [R("h_skiplist", 20000, 400000), R("h_many_skiplist", 10, 120)],
      "Random insert/delete/find/reset histories with 1..32 levels over up to 800 (thorough 3200) members, unique and duplicate keys; every level checked for order and nesting, all walk forms.",
      "sorted-multiset model monitoring of random histories under ASan/UBSan", must_see=["many.skiplist", "skiplist.insert", "skiplist.delete", "skiplist.delete_absent", "skiplist.duplicate", "skiplist.emptied", "skiplist.level4", "skiplist.reset"])
check("C12", [R("h_fifo", 30000, 600000)],
      "Random put/get/peek/bulk in/out/flush histories on static, dynamic and record queues with element sizes 1..12, capacities 2..131072, record headers of 1..8 elements and counters started anywhere, including just before wrap-around.",
      "bounded-queue model monitoring of random histories under ASan/UBSan, exact-size buffers", must_see=["queue.put", "queue.get", "queue.put_full", "queue.in_partial", "queue.near_wrap", "queue.record_in", "queue.record_refused", "queue.record_too_long", "queue.record_truncated", "queue.full", "queue.flush", "queue.global", "queue.allocated_again", "queue.alloc_refused"])
check("C13", [R("h_ringbuf", 30000, 600000)],
      "Random put/get/peek/bulk in/out/flush histories on static, dynamic and record ring buffers with element sizes 1..12, capacities 2..131072 and counters started anywhere; circular-buffer arithmetic for every size 2..128.",
      "ideal-ring model monitoring of random histories under ASan/UBSan, exact-size buffers", must_see=["queue.overwrite", "queue.get", "queue.near_wrap", "queue.record_in", "queue.record_dropped", "queue.record_oversize", "queue.record_truncated", "queue.full", "queue.flush", "queue.global", "circle.checked", "queue.allocated_again", "queue.alloc_refused"])
check("C14", [R("h_cache", 20000, 400000), R("h_many_cache", 6, 72)],
      "Random obtain/put/commit/delete/rename/reset/find histories on LRU and LFU caches of 2..64 entries, with good, degenerate and constant hashes, every obtain mode and pending limits 0..size+1; all counters and every entry's state compared after every step.",
      "slot-model monitoring of random histories under ASan/UBSan", must_see=["many.cache", "cache.hit", "cache.evict", "cache.from_free", "cache.starved", "cache.starving", "cache.pending_limit", "cache.pending_hit", "cache.put_refused", "cache.del", "cache.del_refused", "cache.rename", "cache.reset", "cache.lfu_choice", "cache.custom_create"])
check("C15", [R("h_bloom", 40000, 800000)],
      "Random push/peek/flush histories on filters of 1..32768 bits (powers of two and not, and capacities at the top of the range), 1..20 hash functions of good, degenerate and constant quality.",
      "set-model monitoring of random histories under ASan/UBSan", must_see=["bloom.past_64k", "bloom.push", "bloom.peek", "bloom.flush", "bloom.false_positive", "bloom.extreme_capacity", "bloom.tells_apart"])
check("C16", [R("h_memalloc", 25000, 500000), R("h_memalloc", 4166, 250000, "nodebug"), R("h_many_memalloc", 10, 120)],
      "Random alloc/free/realloc histories with first/best/worst fit and a caller's own placement rule in pools of 80 bytes..80 kB (thorough 420 kB) that are exact heap blocks; every live byte carries a pattern that is re-verified; absurd sizes up to SIZE_MAX.",
      "live-block shadow monitoring of random histories under ASan/UBSan", must_see=["many.memalloc", "memalloc.alloc", "memalloc.refused", "memalloc.realloc_moved", "memalloc.realloc_grown", "memalloc.realloc_refused", "memalloc.huge", "memalloc.recovered", "memalloc.exhausted", "memalloc.custom_fit"])
check("C17", [R("h_alloc", 60000, 1200000)],
      "Random bump-pool histories with any alignment and size up to SIZE_MAX at any pool address; the allocator layer over recording callbacks, over an accounting heap and over the default heap, including overflowing element counts.",
      "shadow and call-log monitoring of random histories under ASan/UBSan", must_see=["allocpool.alloc", "allocpool.refused", "allocpool.huge", "allocpool.big_align", "allocpool.all_freed", "allocpool.reset", "allocpool.whole", "alloc.routed", "alloc.array_overflow", "alloc.realloc_zero", "alloc.zeroed", "alloc.resized"])
check("C18", [R("h_respool", 40000, 800000), R("h_many_respool", 10, 120)],
      "Random insert/find/remove/release histories over up to 280 tracked resources with few or many keys and three release routines that free the resource; nested scope guards left at six different points; actions re-armed, updated and cleared.",
      "release-log monitoring of random histories under ASan/UBSan", must_see=["many.respool", "respool.insert", "respool.find", "respool.find_absent", "respool.find_remove", "respool.find_release", "respool.release", "respool.remove", "respool.release_all", "guard.handed_on", "guard.cleanup", "action.clear", "action.call"])
check("C19", [R("h_bitmap", 40000, 800000)],
      "Every bitmap operation at 77 compile-time widths (fast paths) and at run-time lengths 0..1200 (thorough 5000), shifts below, at and beyond the length, ranges at constant and arbitrary starts, in place and not, all-set/all-clear/single-bit/random contents with garbage beyond the length, exact-size buffers and canary words.",
      "bit-by-bit definition oracle over generated operands under ASan/UBSan", must_see=["bitmap.past_64k", "bitmap.in_place", "bitmap.constant_width", "bitmap.general", "bitmap.ragged", "bitmap.true", "bitmap.false", "bitmap.tail_bits", "bitmap.replace", "bitmap.alloc"])
check("C20", [R("h_bitwalk", 40000, 800000)],
      "Every search at 77 compile-time widths and at run-time lengths 0..1000 (thorough 4000) from every kind of start, on one and two maps, inverted or not, native and swapped byte order; all twelve walk forms; sparse, dense and random contents with garbage beyond the length.",
      "linear-scan oracle over generated bitmaps under ASan/UBSan", must_see=["bitwalk.past_64k", "bitwalk.none", "bitwalk.found", "bitwalk.constant_width", "bitwalk.swapped", "bitwalk.two_maps", "bitwalk.walk", "bitwalk.visits"])
check("C21", [R("h_bits", 30000, 1000000), R("h_bitsgen", 15000, 600000)],
      "Edge-biased 8/16/32/64-bit operands through every primitive in its builtin and its portable form, literal operands (every power of two and more) through the constant-expression forms, every bit position for single-bit updates in native/LE/BE numbering, every field position and width, mixed-width alignment, all BCD values, unaligned access at every offset of exact-size blocks.",
      "bit-by-bit definition oracle over generated operands under ASan/UBSan", must_see=["bits.word", "bits.literals", "bits.single", "bits.flags", "bits.field", "bits.align", "bits.bcd", "bits.unaligned"])
check("C22", [R("h_mpi", 30000, 800000), R("h_many_mpi", 10, 120)],
      "Random histories over five variables with every aliasing of destination, remainder and operands, values of 0..24 (thorough 60) limbs with all-ones, zero, power-of-two and random limbs and both signs, every operation including machine-word forms; divisions constructed so that quotient-digit estimates are off.",
      "independent base-2^32 reference arithmetic over generated histories under ASan/UBSan, accounting allocator", must_see=["many.mpi", "mpi.aliased", "mpi.zero_operand", "mpi.add", "mpi.sub", "mpi.mul", "mpi.div", "mpi.div_long", "mpi.div_aliased", "mpi.div_zero", "mpi.mod", "mpi.addi", "mpi.subi", "mpi.muli", "mpi.divi", "mpi.modi", "mpi.bitwise", "mpi.shl", "mpi.shr", "mpi.cmp", "mpi.bit", "mpi.release", "mpi.hard_division", "mpi.shl_huge", "mpi.shr_huge", "mpi.bit_far", "mpi.div_single", "mpi.divi_single"])
check("C23", [R("h_dword", 40000, 2000000)],
      "Edge-biased word and half-word operands, dividends at and beside multiples of the divisor, divisors of one and two words with and without the top bit, narrow and wide quotients, results in separate storage or over the operands, each result optional.",
      "128-bit integer oracle over generated operands under ASan/UBSan", must_see=["dword.wide_quotient", "dword.narrow_quotient", "dword.normalised", "dword.single_divisor", "dword.double_divisor", "dword.top_divisor", "dword.in_place", "dword.macros"])
check("C24", [R("h_codec", 30000, 800000)],
      "Contents of every length 0..120 and up to 3000 (thorough 20000) bytes: zeros, ones, zero groups, random; exact-size and canaried output; padded and unpadded encodings; random, truncated and corrupted texts in exact-size buffers.",
      "bit-stream definition oracle over generated inputs under ASan/UBSan, exact-size buffers", must_see=["codec.past_64k", "codec.base64", "codec.base32", "codec.ascii85", "codec.unpadded", "codec.refused", "codec.ascii85_zero", "codec.ascii85_partial"])
check("C25", [R("h_digest", 20000, 600000, flags=["-lm"])],
      "Messages of every length 0..130, around all block boundaries and up to 4000 (thorough 40000) bytes, one 0.5 GB message per digest, cut into pieces in five ways at any alignment in exact-size blocks, contexts full of garbage, reused, abandoned or copied mid-message.",
      "reference-implementation oracle over generated messages under ASan/UBSan", must_see=["digest.past_64k", "digest.many_blocks", "digest.md5", "digest.sha1", "digest.sha224", "digest.sha256", "digest.pieces", "digest.extra_block", "digest.fits_exactly", "digest.reused", "digest.copied", "digest.long", "digest.empty_update"])
check("C26", [R("h_crc", 40000, 1500000), R("h_crc", 10000, 600000, "nodebug")],
      "All ten CRCs, exported and inline, on buffers of 0..200 and up to 3000 (thorough 20000) bytes at every alignment in exact-size blocks, any starting value, cut into pieces; 4-bit CRC at every bit length. Part of it is repeated on the build without loop unrolling.",
      "bit-at-a-time polynomial oracle over generated buffers under ASan/UBSan", must_see=["crc.past_64k", "crc.4", "crc.4_partial", "crc.7", "crc.8", "crc.16", "crc.32", "crc.64", "crc.ccitt", "crc.itut", "crc.t10dif", "crc.rocksoft", "crc.piece", "crc.unrolled"])
check("C28", [R("h_textsearch", 40000, 1500000)],
      "Patterns of 1..300 bytes (random, periodic, over two-letter, mixed-case, high-byte and full alphabets) in texts of 0..3000 (thorough 20000) bytes with planted full, partial and final occurrences, whole or served in separate exact-size blocks, case-folded or not; every occurrence enumerated by all three algorithms, searches abandoned and restarted; registry histories with user algorithms.",
      "naive-match oracle over generated texts under ASan/UBSan, exact-size blocks", must_see=["ts.past_64k", "ts.found", "ts.none", "ts.icase_found", "ts.segmented", "ts.across_blocks", "ts.several", "ts.high_bytes", "ts.reg_dup", "ts.reg_bad", "ts.own_algorithm"])
check("C27", [R("h_arc4", 10000, 300000)],
      "Keys of 1..700 bytes (constant, patterned, random), data of 0..20000 (thorough 200000) bytes cut into pieces, in place or between unaligned exact-size blocks, contexts fresh, re-keyed or copied mid-stream.",
      "reference-implementation oracle over generated streams under ASan/UBSan", must_see=["arc4.past_64k", "arc4.copy", "arc4.in_place", "arc4.empty_piece", "arc4.rekeyed", "arc4.long_key", "arc4.one_byte_key", "arc4.long"])
check("C29", [R("h_libc", 30000, 600000)],
      "All 256 characters, plain and negative, through all 13 classes in run-time, constant and literal form; strings of 0..2000 (thorough 20000) bytes of any value at any alignment in exact-size blocks with every kind of bound; allocation refusals.",
      "C-standard definition oracle over all characters and generated strings under ASan/UBSan", must_see=["libc.past_64k", "libc.ctype", "libc.literals", "libc.negative", "libc.strndup_beyond", "libc.strndup_cut", "libc.diff", "libc.same", "libc.refused"])
check("C30", [R("h_text", 40000, 800000)] + [R("h_logmax%d" % k, 2400, 40000) for k in range(7)],
      "Formats with strings, numbers, widths and precisions into exact-size buffers of every relation to the ideal length; command strings of 0..3000 characters with every separator pattern; all error codes -350..350 and extreme ones; log lines of every level, prefix set, threshold, default and length around the line limit through a recording sink, the level macros under every compile-time ceiling and the default sink; warning and fatal assertions on conditions that hold and that do not, with the abort caught.",
      "ideal-text oracle over generated inputs under ASan/UBSan, exact-size buffers", must_see=["text.past_64k", "text.argv_past_64k", "text.truncated", "text.fits", "text.no_room", "text.failed_format", "text.assert_fatal", "text.assert_warned", "text.assert_silent", "text.many_words", "text.no_words", "text.trailing", "text.argv_refused", "text.errname", "text.errname_unknown", "text.log_line", "text.log_dropped", "text.log_long", "text.log_color", "text.log_level", "text.log_macro", "text.log_list", "text.log_compiled_out", "text.log_bare_soh", "text.sink_stdout", "text.sink_stderr"])
check("C31", [R("h_fsm", 15000, 400000), R("h_many_fsm", 10, 120)],
      "Random machines of 1..9 states with parents, entry states, guards, exception handlers, push/pop and crossing transitions, failing callbacks, an error state or none; event sequences of up to 120 (thorough 400) with resets and forced errors; every callback, its data and order, result, current and previous state and the saved-state stack compared.",
      "reference-interpreter monitoring of callback traces under ASan/UBSan", must_see=["many.fsm", "fsm.changed", "fsm.self", "fsm.finish", "fsm.parent", "fsm.entry", "fsm.push", "fsm.pop", "fsm.pop_empty", "fsm.nested", "fsm.cross", "fsm.exception", "fsm.no_next", "fsm.error_state", "fsm.exit_fails", "fsm.action_fails", "fsm.enter_fails", "fsm.unmatched", "fsm.reset", "fsm.no_state", "fsm.forced_error"])
check("C32", [R("h_limit", 60000, 1500000)],
      "Request sequences of up to 150 (thorough 600) on both limiters with intervals from one tick to a quarter of the clock range, bursts and capacities from none to UINT_MAX, clock steps of zero, around the interval, multiples, 2^32 intervals and arbitrary jumps up to the end of the range, resets and updates.",
      "request-by-request budget oracle over generated clock histories under ASan/UBSan", must_see=["limit.rate_admitted", "limit.rate_refused", "limit.window", "limit.bucket_admitted", "limit.bucket_refused", "limit.capped", "limit.long_idle", "limit.reset", "limit.update"])
check("C33", [R("h_threads", 1500, 40000, "tsan"), R("h_threads", 5000, 120000, "plain"),
             R("h_atomics", 4000, 200000), R("h_atomics", 2000, 100000, "nodebug")],
      "2..6 threads with injected delays over mixed adds, subtracts, exchanges and compare-exchanges of unique values (all observed steps must form one chain from first to last value), sums with monotone readers, disjoint and contended bits of shared words (every change seen by exactly the operation that made it), words whose every update sets, clears or flips one more bit (results must name one order), and reference-counted objects taken, conditionally revived and dropped; under ThreadSanitizer and at full speed; and every operation on edge values sequentially, with what is reported about misuse.",
      "ThreadSanitizer plus offline single-total-order (Eulerian chain) and exactly-once checking of recorded concurrent histories", must_see=["threads.ladder_steps", "threads.ladder_handovers", "threads.chain_steps", "threads.cas_failed", "threads.handovers", "threads.reads", "threads.sum_steps", "threads.bit_steps", "threads.lock_won", "threads.lock_lost", "threads.turns", "threads.ref_zero", "threads.ref_revived", "threads.ref_refused", "atomics.ops", "atomics.cas_hit", "atomics.cas_miss", "refcnt.ops", "refcnt.reports"])

check("C34", [R("h_llist", 1200, 40000, "tsan"), R("h_llist", 2500, 80000, "plain")],
      "2..6 threads with injected delays pushing single entries and batches while one thread pops, or any number take the whole list, entries being pushed again after they are taken; every entry carries plain data that its taker reads; clocked intervals of every operation are recorded; under ThreadSanitizer and at full speed.",
      "ThreadSanitizer plus offline exactly-once, stack-order (real-time intervals) and empty-report conservation checking of recorded concurrent histories", must_see=["llist.pushes", "llist.empty_reports", "llist.removals", "llist.mixed_takes", "llist.pop_empty"])

check("C44", [R("h_spsc", 1200, 60000, "tsan"), R("h_spsc", 2000, 120000, "plain")],
      "a writing and a reading thread with injected delays over static and dynamic queues of 2..128 elements of 1..40 bytes and records of 1..40 elements, index counters started anywhere including just before wrap-around; put, bulk put, get, bulk get, peek, length and fullness reports, emptying by the reader and tight polling loops on both sides; under ThreadSanitizer and at full speed.",
      "ThreadSanitizer plus online stream-integrity, report-truth (seen room/data can be used) and conservation monitors on both ends", must_see=["spsc.passed", "spsc.waited_for_room", "spsc.room_seen_and_used", "spsc.partly_taken", "spsc.polled_for_room", "spsc.waited_for_data", "spsc.data_seen_and_got", "spsc.emptied", "spsc.polled_for_data"])

_TOGETHER = ["h_" + n for n in "alloc arc4 array bitmap bits bitwalk bloom btree cache codec crc digest dword fifo fsm hash hashmap heap helpers ilist libc limit lists matrix memalloc mpi oom owner radix rbtree respool ringbuf segtree skiplist sort static text textsearch titer".split()]
check("C45", [R("h_together", 4000, 150000, "tsan", modules=_TOGETHER), R("h_shared", 3000, 100000, "tsan")],
      "2..4 threads, each running cases of one of %d sequential harnesses (the same in all threads, or a mix) with all their oracles, on objects of its own over one copy of the library; 2..6 threads reading one unchanged tree, interval tree, heap, B+tree, radix array, hash map, skip list, array, filter, bitmap, big number, matrix, compiled search pattern or list, every answer compared with the one a lone reader gets; injected delays; all under ThreadSanitizer." % len(_TOGETHER),
      "ThreadSanitizer over one shared library image plus every sequential oracle run concurrently, and concurrent-versus-alone answer comparison", must_see=["together.overlapped", "together.oracle_checks", "shared.reads"] + _TOGETHER)

check("C37", [R("h_matrix", 3000, 150000), R("h_many_matrix", 10, 120)],
      "random matrices of 1..17 rows and columns with small, edge and random elements, imported, added, subtracted, multiplied, transposed, copied and released in random order with destinations that are operands, against a model; edit distances of strings of 0..40 characters and all-edge costs against a memoised suffix recursion and against scripts of known cost; strings bounded by exact heap blocks.",
      "AddressSanitizer and UBSan plus reference-model differential monitoring and metamorphic (known-script, symmetry) oracles", must_see=["many.matrix", "matrix.imports", "matrix.addsub", "matrix.mul", "matrix.mul_aliased", "matrix.trans", "matrix.trans_aliased", "matrix.refused", "edit.distances", "edit.scripts", "edit.nonzero"])

check("C38", [R("h_hash", 6000, 300000)],
      "keys of 0..400 bytes at every alignment in exact heap blocks with random seeds against lookup3 and PJW reference implementations, index hashes over edge values and widths, generator seeds (edge, weak, random) against the published combined-Tausworthe recurrence, state by state.",
      "AddressSanitizer and UBSan plus reference-implementation differential monitoring", must_see=["hash.past_64k", "hash.jhash", "hash.pjw", "hash.pjw_high_bytes", "hash.index", "prandom.seeded", "prandom.weak_seed", "prandom.default", "prandom.draws"])

check("C39", [R("h_helpers", 2000, 100000)],
      "overflow-checked and saturating add, subtract and multiply over all pairs of 8-bit values and edge/random pairs of the other integer types against 128-bit arithmetic; minimum, maximum, clamp, swap, rounding and alignment of the same values with counted argument evaluations; all error codes and valid pointers; once-only, scope-cleanup, action, container and layout helpers; the expansion of the argument-mapping macros for every count.",
      "UBSan and AddressSanitizer plus exact wide-arithmetic oracle and evaluation counting", must_see=["overflow.fits", "overflow.does_not", "math.div_up", "math.div_closest", "math.round_up", "math.triples", "errptr.errors", "errptr.valid", "once.attempts", "guards.scopes", "layout.checked", "layout.mapped"])
check("C35", [R("h_oom", 12000, 300000), R("h_oom", 1000, 60000, "nodebug")],
      "Random histories on arrays, B+trees, radix arrays, hash maps, skip lists, state-machine stacks, matrices, big integers and every one-call constructor in which each operation is run with its first, second, ... memory request failing (once, or from there on for good) until it succeeds; after each refusal the return code, the held blocks and the whole content are compared with the state before, and big-integer results with the same operation without faults.",
      "systematic fault injection at every allocation point of random histories, model comparison after each refusal, under ASan/UBSan", level="fault_enumeration",
      must_see=["oom.array.push.refused", "oom.btree.insert.refused", "oom.radix.alloc.refused", "oom.hashmap.insert.refused", "oom.skiplist.insert.refused", "oom.fsm.handle.refused", "oom.matrix.mul.refused", "oom.mpi.refused", "oom.cache.create.refused", "oom.bloom.create.refused", "oom.fifo.alloc.refused", "oom.ringbuf.alloc.refused", "oom.textsearch.create.refused"])
_MEMORY = r".*:(foreign-block|[a-z-]*leak|AddressSan-(heap|double|attempting|bad|alloc).*)"
check("C36", [R("h_owner", 40000, 400000)] + [R("h_" + h, q, q * 15, only=_MEMORY) for h, q in [("array", 4000), ("bitmap", 3000), ("bloom", 2000), ("btree", 800), ("cache", 1500), ("fsm", 1500), ("hashmap", 1500), ("libc", 3000), ("matrix", 1000), ("mpi", 3000), ("radix", 1500), ("skiplist", 1500), ("text", 3000), ("textsearch", 3000)]],
      "One to five structures of fourteen kinds at a time, each on its own accounting allocator (always-moving, poisoned on free) or all on the default heap; interleaved random operations, big-integer and matrix operands from other allocators, release, re-creation and double release; every malloc and free seen by the sanitizer hooks while library code runs is attributed to the structure at work. Then the histories of fourteen other workloads, for what their accounting allocators see.",
      "allocator accounting plus sanitizer malloc/free hooks attributing every heap call, release-callback counting, under ASan/UBSan",
      must_see=["owner.own_blocks", "owner.default_blocks", "owner.release_counted", "owner.operands_elsewhere", "owner.reopened", "owner.released_twice", "owner.long_strings"])
check("C41", [R("h_debug", 30000, 600000)],
      "Random legal histories on the three list kinds, indexed lists, plain/cached/augmented trees, heaps and the block heap, mixed with every kind of misuse the checks are for: members linked where they already are, beside neighbours that do not point at each other, removed twice, removed with one dead link, freed or resized after free; all bytes of heads, members and pool compared around each misuse.",
      "monitoring of the diagnostics sink and byte-wise state comparison around injected misuse, under ASan/UBSan",
      must_see=["debug.legal", "debug.refused", "debug.list_add", "debug.list_del", "debug.slist_add", "debug.slist_del", "debug.hlist_add", "debug.hlist_del", "debug.ilist_chain", "debug.ilist_index", "debug.ilist_again", "debug.rb_link", "debug.rb_del", "debug.heap_link", "debug.heap_del", "debug.block_free", "debug.block_realloc"])
check("C42", [R("h_static", 8000, 200000)],
      "Every structure created in every form (defining macro, static initialiser, compound literal over poisoned memory, init function on poisoned memory, file scope for queues), with random parameters, then driven by the same random operations against an exact expectation.",
      "differential monitoring of all creation forms under ASan/UBSan, poisoned memory",
      must_see=["static.reset_like_new"] + ["static." + k for k in "array mpi mpi_zero matrix rb rb_cached heap hashmap btree radix list slist hlist ilist hashtbl fifo fifo_dynamic fifo_record fifo_dynamic_record ringbuf ringbuf_dynamic ringbuf_record ringbuf_dynamic_record allocpool action notifier respool circle refcnt prandom ratelimit tokenbucket log alloc fsm".split()])
check("C43", [R("h_titer", 12000, 300000)],
      "Walkers instantiated (also mirrored) over caller trees of 0..5000 nodes: left and right paths, zigzags, skewed and bushy random trees, complete trees for level order; whole walks, steps from random nodes, walks after pruning, and release of each node as post order leaves it.",
      "comparison of every generated walk with an explicit-stack traversal, under ASan/UBSan",
      must_see=["titer.shape", "titer.empty", "titer.pruned", "titer.level", "titer.teardown"])
_SEQ = [("array", 6000), ("bitmap", 4000), ("bits", 2000), ("bitsgen", 4000), ("bitwalk", 3000), ("bloom", 3000), ("btree", 1200), ("cache", 2500), ("codec", 6000), ("crc", 2000), ("debug", 3000), ("digest", 3000), ("dword", 4000), ("fifo", 5000), ("fsm", 3000), ("hash", 2000), ("hashmap", 2500), ("heap", 3000), ("helpers", 300), ("ilist", 5000), ("libc", 6000), ("limit", 2000), ("lists", 4000), ("matrix", 3000), ("memalloc", 3000), ("mpi", 2500), ("oom", 3000), ("owner", 3000), ("radix", 3000), ("rbtree", 3000), ("respool", 4000), ("ringbuf", 5000), ("segtree", 3000), ("skiplist", 2500), ("sort", 4000), ("static", 2000), ("text", 6000), ("textsearch", 4000), ("titer", 2000), ("alloc", 4000), ("arc4", 2000)]
check("C40", [R("h_" + h, q, q * 15, "msan") for h, q in _SEQ],
      "The random histories of every sequential harness, run on a MemorySanitizer build of the whole library whose allocators hand out memory that counts as uninitialised.",
      "MemorySanitizer on the real code under all behavioural workloads", only=r".*MemorySan")

_PORT = [(h, q * 2) for h, q in _SEQ if h not in ("debug",)]
check("C47", [R("h_" + h, q, q * 15, v) for h, q in _PORT for v in ("gcc-o0", "gcc-o3", "clang-o2", "gcc-os-mixed", "clang-o1-mixed")],
      "Every case of every sequential harness is run on five builds of the library and the harness (gcc -O0; gcc -O3 with unsigned plain char, diagnostics and CRC unrolling off; clang -O2; gcc -Os and clang -O1 with complementary halves of the diagnostics on) and everything the case observed, folded into one value, is compared between them.",
      "cross-build differential monitoring of the observations of all behavioural workloads", compare={("h_alloc", "allocpool"), ("h_digest", "long")},
      must_see=["bits.word", "libc.ctype", "mpi.div", "hash.pjw_high_bytes", "ts.high_bytes", "crc.unrolled", "bitmap.constant_width"])
check("C46", [R("h_cost", 12000, 300000, "plain")],
      "Keys in nine kinds of order (sorted, reversed, constant, organ pipe, interleaved, few classes, strided, periodic, random) into sorts, searches, trees, heaps, B+trees, hash maps, skip lists, caches, interval trees, radix arrays and arrays of 2..6000 (thorough 60000) members, thinned out in three ways and refilled; periodic texts of 4 MB for the linear-time search.",
      "counting monitors on caller callbacks and on the accounting allocator against the classical bounds, plus a CPU-time watchdog",
      must_see=["cost." + k for k in "sort bsearch list_sort rb_insert rb_find rb_thinned heap_insert heap_delete btree_insert btree_lookup btree_remove hashmap_add hashmap_find hashmap_del hashmap_hover skiplist_insert skiplist_find segtree_insert segtree_hits segtree_delete radix_free array_push cache kmp".split()])
check("C48", [R("h_huge", 124, 1500, "plain", jobs=4, cpu=120)],
      "Arrays, queues and record queues, memory pools, filters, searched arrays, sorted elements, numbers, matrices, argument vectors, search patterns, checksums, digests, ciphers, codecs, hashes and string scans of more than 4 GiB (mostly sparse or repeating memory), bit maps and searched texts up to the largest size their counts allow.",
      "the sequential oracles at sizes beyond 32 bits, with guard pages, sparse memory and compositional oracles",
      must_see=["huge." + k for k in "argv_long array array_more queue queue_at_once queue_in_steps memalloc allocpool block refused resized bitmap bitmap_filled bitmap_shift bitmap_alloc bitmap_copy bloom bsearch string crc digest arc4 codec jhash mpi search found argv sort pattern matrix matrix_whole".split()])

# The beyond-32-bit workload of C48 also runs, part by part, in the checks of the properties it touches:
# (part, quick cases, events that must be seen).
HUGE = {
    "C03": ("sort", 8, ["huge.sort", "huge.bsearch"]), "C04": ("array", 6, ["huge.array"]), "C12": ("queue", 6, ["huge.queue"]), "C13": ("queue", 6, ["huge.queue"]),
    "C15": ("bloom", 4, ["huge.bloom"]), "C16": ("memalloc", 6, ["huge.memalloc"]), "C17": ("allocpool", 6, ["huge.allocpool"]),
    "C19": ("bitmap", 8, ["huge.bitmap"]), "C20": ("bitmap", 8, ["huge.bitmap"]), "C22": ("mpi", 4, ["huge.mpi"]), "C24": ("codec", 4, ["huge.codec"]),
    "C25": ("digest", 4, ["huge.digest"]), "C26": ("crc", 10, ["huge.crc"]), "C27": ("arc4", 2, ["huge.arc4"]), "C28": ("search", 8, ["huge.search"]),
    "C29": ("string", 4, ["huge.string"]), "C30": ("argv", 4, ["huge.argv", "huge.argv_long"]), "C37": ("matrix", 4, ["huge.matrix"]), "C38": ("jhash", 2, ["huge.jhash"]),
}
for _p, (_part, _n, _see) in HUGE.items():
    _c = CHECKS[_p]
    _c["runs"].append(R("h_huge_" + _part, _n, _n * 8, "plain", jobs=4, cpu=120))
    _c["rule"] += " A last workload uses objects or inputs of more than 4 GiB (or as long as 32-bit counts allow), in sparse or repeating memory with guard pages."
    _c["must_see"] = _c.get("must_see", []) + _see
