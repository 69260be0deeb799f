#!/usr/bin/env python3
"""Generates properties.jsonl (run from /verif). One entry per property; the text lives here."""
import json
I='include/bss-util/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p('C01','Reader-writer lock: exclusion, attempt semantics and no lost or stuck lock',
 'For every interleaving of threads using the reader-writer lock, a granted write lock excludes every other reader and writer, read locks may be shared, and an attempt succeeds only when the lock could really be granted (a contended attempt may fail spuriously, an uncontended one succeeds). A failed attempt to upgrade leaves the caller holding its read lock; a successful upgrade turns the read lock into an exclusive one; downgrading converts a write lock into a read lock with no window in which another writer can enter. After all holders release, the lock is free again, and a waiting thread is granted the lock once nobody conflicts with it.',
 ['schedules','histories'],'all interleavings of 2-3 threads running any mix of lock, attempt, upgrade, downgrade and unlock calls that follow the documented pairing rules',
 'Tests run a few real threads with timing luck; they cannot enumerate interleavings between the individual atomic operations.',
 [I+'RWLock.h',I+'lockless.h'],[('single atomic word: write bit plus reader count; bit test-and-set, add, compare-exchange',I+'RWLock.h'),('atomic bit operations',I+'lockless.h asmbts/asmbtr')],
 [('lock word','top bit = writer, rest = number of readers',I+'RWLock.h')],['return of every lock call'])

p('C02','Single-producer single-consumer lockless queue is an exactly-once FIFO',
 'With one producer thread and one consumer thread, the lockless queue delivers every pushed item exactly once, in push order, uncorrupted, for every interleaving; a pop that reports empty happens only if at that moment no completed push is unconsumed. A length-tracking queue reports, when quiescent, exactly the number of unconsumed items, and the consumer\'s Peek reports an item exactly when its next pop would return one.',
 ['schedules','histories'],'all interleavings of one producer and one consumer, any pattern of pushes, pops, peeks and clears, node recycling included',
 'The test drives a few real threads through a fixed count; loss or duplication that needs one particular interleaving with node recycling is invisible to it.',
 [I+'LocklessQueue.h'],[('divider/last pointers published after the node is linked; producer reclaims nodes behind the divider',I+'LocklessQueue.h')])

p('C03','Multi-producer multi-consumer queue is a linearizable exactly-once FIFO',
 'With any number of producers and consumers the multi-threaded queue behaves like an atomic FIFO: every pushed item is popped at most once and never invented, items pushed by non-overlapping pushes come out in that order, an empty report is justified by some instant within the call, and no item is lost once all threads finish. Peek never reports anything an atomic queue could not, the length is exact whenever the queue is quiescent, and no operation touches memory of a node already released.',
 ['schedules','histories'],'all interleavings of up to 3 threads pushing and popping concurrently',
 'Linearizability is a property of all interleavings; a stress test with real threads samples a handful.',
 [I+'LocklessQueue.h',I+'BlockAllocMT.h',I+'lockless.h'],[('two spin locks (head and tail) and a dummy node',I+'LocklessQueue.h MicroLockQueue')])

p('C04','Concurrent fixed-size pool never hands out a live block twice',
 'For every interleaving of allocations and deallocations from several threads, the lock-free block pool returns blocks that are disjoint from every block currently allocated, suitably aligned, wholly inside memory the pool owns, and whose contents no other pool operation touches until they are freed; freed blocks are eventually reused rather than lost. Growth of the pool during concurrent use never loses or duplicates a free block.',
 ['schedules','histories'],'all interleavings of 2-3 threads allocating and freeing, including pool growth and ABA reuse patterns',
 'An ABA window needs one exact interleaving of pop/push/pop; tests cannot force it.',
 [I+'BlockAllocMT.h',I+'lockless.h'],[('free list with a tagged pointer swapped by double-width compare-exchange',I+'BlockAllocMT.h'),('grow flag',I+'BlockAllocMT.h')])

p('C05','Ring allocator keeps concurrent live allocations disjoint and intact',
 'For every interleaving of allocations and deallocations, in any freeing order, every live ring allocation is disjoint from every other live allocation, at least as large as requested, suitably aligned and never overwritten by the allocator; memory of a retired buffer is released only after its last allocation is freed and is released at most once.',
 ['schedules','histories'],'all interleavings of 2-3 threads, any sizes (including larger than the current buffer) and any freeing order',
 'Requires wrap-around, buffer growth and out-of-order frees to coincide with particular interleavings.',
 [I+'RingAlloc.h',I+'RWLock.h'],[('atomic ring head, per-node size/free flag, buffer reference count under a reader-writer lock',I+'RingAlloc.h')])

p('C06','Thread pool runs each task exactly as often as asked; Wait is a barrier',
 'Every task submitted to the thread pool is executed exactly as many times as instances were requested, with the argument it was given, whatever the scheduling of submitters and workers; Wait returns only after every task submitted before it, and everything those tasks submitted, has finished, and it does return. Queued work is picked up by idle workers without help from the submitter, so as many instances as there are workers can run at once. Callables passed by value are invoked with their own arguments and destroyed exactly once, and destroying the pool first completes all tasks and then ends its workers.',
 ['schedules','histories'],'all interleavings of one or two submitters and 1-3 workers, with nested submission from tasks',
 'A lost wake-up or a Wait that returns one task early needs a specific schedule.',
 [I+'ThreadPool.h',I+'LocklessQueue.h',I+'Thread.h'],[('task queue plus counting semaphore plus atomic in-flight counters',I+'ThreadPool.h')])

p('C07','Variable-size concurrent allocators keep live allocations disjoint',
 'The greedy (bump) allocator and the caching allocator, used from several threads at once as they permit, always return memory that overlaps no other live allocation, is aligned and large enough, and keeps its contents until freed or cleared; after the greedy allocator is cleared its memory is reusable and never handed out twice, and blocks returned to the caching allocator serve later requests of their size before new memory is taken.',
 ['schedules','histories'],'all interleavings of 2-3 threads, any mix of sizes, allocations and frees',
 'Races in the bump pointer or in chunk growth only appear in particular interleavings.',
 [I+'GreedyAlloc.h',I+'CacheAlloc.h',I+'RWLock.h'],[('bump pointer advanced atomically under a read lock, growth under the write lock',I+'GreedyAlloc.h'),('per-size cache arrays',I+'CacheAlloc.h')])

p('C08','Pool allocators never overlap live blocks and recycle what is freed',
 'In every single-threaded history of allocate, deallocate and clear, each block returned by the block, greedy, greedy-block, ring and caching allocators is aligned, large enough, disjoint from all live blocks and undisturbed until freed; reallocation through an allocator policy preserves the surviving prefix. A freed block is available again, so a workload whose live set is bounded does not grow fixed-size pools without bound.',
 ['histories','configurations'],'all operation histories, all block sizes, initial capacities and alignments',
 'Histories are unbounded; the tests allocate a batch and free it in one or two fixed orders.',
 [I+'BlockAlloc.h',I+'GreedyAlloc.h',I+'GreedyBlockAlloc.h',I+'CacheAlloc.h',I+'RingAlloc.h',I+'Alloc.h'],[('free lists threaded through freed blocks; chunk lists',I+'BlockAlloc.h')])

p('C09','Arrays behave as sequences and balance element lifetimes',
 'Under any history of add, insert, remove, set-length/capacity, append, concatenate, copy, move, clear and assign, the fixed, growable and small-inline arrays hold exactly the sequence of values a mathematical sequence would, copies are independent of their source, and moves transfer the contents and leave the source valid. For element types needing construction, every element is constructed exactly once before use and destroyed exactly once, with no leak or double destruction.',
 ['histories','configurations'],'all operation histories, element types (trivial, constructed, move-only) and the array kinds that support them',
 'The space of operation sequences, growth boundaries and element kinds is unbounded; tests run a fixed script.',
 [I+'Array.h',I+'DynArray.h',I+'CompactArray.h'],[('per-kind move/copy/destroy helpers and growth policy',I+'Array.h'),('length/capacity bookkeeping',I+'DynArray.h')])

p('C10','Bit containers and bit streams store exactly the bits written',
 'A bit array behaves as a sequence of independent booleans under add, insert, remove, set and length changes at any position and size; a bit field\'s masks and single-bit views change only the named bits; and a bit stream reads back exactly the sequence of bit groups written, for any widths, without disturbing neighbouring bits or bytes beyond the requested ones.',
 ['histories','inputs'],'all positions, widths (1 to 64 bits), lengths and histories',
 'Carry across bytes and words depends on alignments and lengths the tests do not enumerate.',
 [I+'DynArray.h',I+'BitField.h',I+'BitStream.h'],[('bit shifting across storage words',I+'DynArray.h DynArray<bool>'),('partial byte buffer',I+'BitStream.h')])

p('C11','Stacks, queues and ring buffers keep order, exactly once',
 'In every history, a stack pops in reverse push order, a queue pops in push order, the circular array acts as a double-ended sequence of bounded capacity (a push into a full one replaces the oldest item) whose indices and iterators address the same items through any wrap-around, removal at either end and growth, and the random queue returns each pushed item exactly once. Nothing is lost, duplicated or reordered, copies are independent, and elements are destroyed exactly once.',
 ['histories'],'all histories of pushes, pops, removals, capacity changes, copies and moves',
 'Wrap-around combined with growth and with removal in the middle is only hit for particular histories.',
 [I+'Stack.h',I+'Queue.h',I+'ArrayCircular.h',I+'RandomQueue.h'],[('modular indexing of a circular buffer',I+'ArrayCircular.h')])

p('C12','Linked containers stay consistent under any insert/remove history',
 'Linked lists keep exactly the inserted elements in the positions requested, walkable identically forwards and backwards, with first/last/size always agreeing; linked arrays additionally keep each element\'s index stable until it is removed and reuse freed indices without disturbing live ones. Intrusive list primitives preserve the same ordering.',
 ['histories'],'all histories of insertion before/after any node, removal of any node, search and clear; copies and moves of linked arrays',
 'Tests insert and remove in one fixed order; pointer-repair errors need specific neighbourhoods (head, tail, single element, freed head of the free list).',
 [I+'LinkedList.h',I+'LinkedArray.h',I+'LLBase.h'],[('prev/next relinking',I+'LLBase.h'),('index free list',I+'LinkedArray.h')])

p('C13','Hash tables implement a map',
 'After any history of insert, set, remove, lookup, resize, copy, move and clear, a hash table contains exactly the keys inserted and not removed, each with its last value; lookup, existence, iteration and length agree; inserting a present key replaces its value, while set changes only keys already present and says whether it did; case-insensitive string tables identify keys that differ only in ASCII case. Growth, shrinkage and tombstones never lose, duplicate or resurrect an entry, and probing always terminates.',
 ['histories','inputs'],'all histories and key patterns, including adversarial collisions and delete-heavy histories',
 'Probe chains through tombstones and rehash paths are only exercised by particular histories.',
 [I+'Hash.h',I+'khash.h'],[('open addressing with empty/deleted flags and in-place rehash',I+'Hash.h')])

p('C14','Search trees and sorted arrays are ordered and balanced',
 'After any history, the AVL, AA and threaded red-black trees contain exactly the inserted-and-not-removed keys (with payloads, and with multiplicity for the multi-tree), traversal visits them in comparator order, lookups including nearest/successor queries answer as an ordered set would, and each tree stays within its balance bound. Sorted arrays and array maps keep their elements sorted with the same set/map meaning, and insert, find, near, remove and replace return the right positions.',
 ['histories'],'all insertion/removal histories over any keys',
 'Rebalancing bugs need particular shapes; the tests insert one permutation and remove another.',
 [I+'AVLTree.h',I+'AATree.h',I+'TRBtree.h',I+'ArraySort.h',I+'Map.h',I+'algo.h'],[('rotations and colour/level repair',I+'TRBtree.h'),('binary search',I+'algo.h')])

p('C15','Heaps and priority queues always serve the extreme element',
 'After any history of insert, pop, remove-at, set (re-prioritise) and construction from an array, the heap property holds everywhere, the multiset of elements is exactly what was inserted minus what was removed, and repeated popping yields priority order. The handle-tracking heap keeps every handle resolving to its own element until removed.',
 ['histories'],'all histories and priorities, including duplicates',
 'Heap corruption after interior removal depends on relative values along two different branches.',
 [I+'BinaryHeap.h',I+'PriorityQueue.h'],[('percolate up/down with move notification',I+'BinaryHeap.h')])

p('C16','Disjoint sets represent exactly the partition generated by the unions',
 'After any sequence of unions, two elements have the same representative iff they are connected by the unions performed, the set count and element listing of a set agree with that partition, and Union reports whether it merged two different sets. The spanning-tree construction returns a minimum spanning forest\'s edges, for any edge set.',
 ['histories','inputs'],'all union/find sequences and weighted edge lists over up to N elements',
 'Path compression mutates during reads, so correctness depends on the whole history.',
 [I+'DisjointSet.h'],[('parent array with union by size and path compression',I+'DisjointSet.h')])

p('C17','Graph adjacency stays consistent and flow/search algorithms are exact',
 'After any history of adding and removing nodes and edges, the outgoing and incoming adjacency views describe the same multigraph, removing a node removes exactly its incident edges, and conversion to and from matrices is faithful. Push-relabel produces a feasible flow of maximum value, circulation reduction preserves feasibility, and breadth-first search visits exactly the reachable nodes once each in non-decreasing distance.',
 ['histories','inputs'],'all small multigraphs, capacities, demands and edit histories',
 'Optimality over all networks is universally quantified; the test has one network.',
 [I+'Graph.h',I+'LinkedArray.h',I+'DisjointSet.h'],[('dual intrusive edge lists',I+'Graph.h'),('FIFO push-relabel',I+'Graph.h MaxFlow_PushRelabel')])

p('C18','Spatial tree queries return exactly the intersecting items',
 'After any history of inserting, removing and re-inserting rectangles (one by one, or in bulk at the root followed by solving), a region query of the k-d tree reports exactly the stored rectangles that intersect the query, touching edges included, each once; rebalancing, whether automatic or asked for, solving and moving the tree never change query results, and traversing everything visits each stored item once.',
 ['histories','inputs'],'all rectangle sets, query rectangles and edit histories',
 'Wrong pruning only shows for specific geometry and after rebalancing.',
 [I+'KDTree.h'],[('per-node total bounds and axis rebalancing',I+'KDTree.h')])

p('C19','Key tries and string tables resolve exactly the stored strings',
 'A trie built from any set of distinct keys resolves each key, and nothing else, to the index it was given (ignoring ASCII case where the trie is told to), for null-terminated and for counted lookups; a string table returns for each index exactly the string appended at that index, through any appends, concatenations, copies, moves and serialisation to and from bytes.',
 ['inputs'],'all key sets (shared prefixes, keys that are prefixes of others, any bytes) and all lookups',
 'The set of key sets is unbounded; tests use one English word list.',
 [I+'Trie.h',I+'StringTable.h'],[('sorted flattened child arrays with range search',I+'Trie.h')])

p('C20','INI storage edits keep memory and file in agreement',
 'After any history of section and entry additions, edits and deletions (including repeated names and names that are prefixes of one another), the stored view answers lookups, counts and iteration as an ordered list of sections of ordered entries would; any text is loaded by the same line rules by which edits find their place in it; and when the edit is ended, reloading the written file gives the same view, with untouched entries and comments unchanged, while a discarded edit leaves the file as it was. Copies and moves of the storage are independent and complete.',
 ['histories','inputs'],'all edit histories over any instance counts and orders',
 'Keeping two representations in step over arbitrary edit histories is not reachable by one scripted file.',
 [I+'INIstorage.h',I+'INIsection.h',I+'INIentry.h','bss-util/INIstorage.cpp','bss-util/INIsection.cpp','bss-util/INIParser.c'],[('parallel linked list + hash + instance arrays + raw text editing','bss-util/INIstorage.cpp')])

p('C21','Documents survive a write/parse round trip in every supported format',
 'For every value expressible in the format, writing it as JSON (compact or pretty) or UBJSON gives a valid document of that format, and parsing any valid document, however it is laid out, yields the value it denotes: same structure and order, keys and strings with any characters and escapes, booleans, null, integers of every width (64-bit signed and unsigned included) and, in UBJSON, floating-point numbers exactly (JSON writes doubles with six significant digits, so only doubles that six digits determine come back equal). Typed records get exactly the members the document names: members the record does not have are skipped whole, members the document does not name keep the value they had. Parsing one value consumes exactly that value, so consecutive values and surrounding members are unaffected.',
 ['inputs'],'all nested values (bounded depth), all strings and integer widths, all layouts of a document',
 'Round-trip is quantified over all documents; the tests parse a few fixed ones.',
 [I+'JSON.h',I+'UBJSON.h','bss-util/UBJSON.cpp',I+'Serializer.h'],[('recursive writer/parser pairs',I+'JSON.h')])

p('C22','Variants, owning pointers and reference counts own objects exactly once',
 'Under any history of construction, copy, move, assignment and reset, a variant holds exactly the value last stored with its right tag; reference-counted objects die exactly when the last reference is dropped and never while one remains; the owner pointer deletes exactly the objects it owns, once; stored/deferred calls run exactly once with the arguments captured. No object is leaked, used after destruction or destroyed twice.',
 ['histories'],'all histories over a few handles and objects, self- and cross-assignment included',
 'Aliasing cases (self-assignment, moving a non-owner) multiply combinatorially.',
 [I+'Variant.h',I+'RefCounter.h',I+'SmartPtr.h',I+'Delegate.h'],[('tagged storage',I+'Variant.h'),('intrusive count',I+'RefCounter.h'),('owner flag',I+'SmartPtr.h')])

p('C23','Scheduled events fire once, in time order, and never early',
 'Each event added to the scheduler fires when and only when its time has come, in order of due time, exactly once unless its callback asks to be rescheduled, in which case it next fires after the interval it returned; adding an event from inside a callback works like adding it from outside, Length reports the pending count, and firing or rescheduling an event affects only that event. Updating with nothing pending does nothing, scheduler time advances by exactly what the clock advanced and never runs backwards, and a copied or moved scheduler carries its pending events with it.',
 ['histories','schedules'],'all sets of events, due times, callback results (negative, zero, positive), additions from inside callbacks, and clock movements',
 'Depends on the order of clock advances and heap contents; the test uses one pattern.',
 [I+'Scheduler.h',I+'BinaryHeap.h',I+'HighPrecisionTimer.h'],[('min-heap by due time',I+'Scheduler.h')])

p('C24','Atomic primitives return the documented result for every operand',
 'Every atomic primitive (exchange, add, increment/decrement, compare-exchange, double-width compare-exchange, bit test-and-set/reset) updates exactly its target word, to exactly the documented value, at every operand width, and returns the documented previous value or success flag, with any compiler optimisation; concurrent uses never lose an update.',
 ['inputs','schedules','configurations'],'all widths, bit indices and operand values; all interleavings of two threads; optimised and unoptimised builds',
 'Tests use one value per width in an unoptimised build.',
 [I+'lockless.h'],[('inline assembly / compiler atomics',I+'lockless.h')])

p('C25','Rational numbers stay exact and in lowest terms',
 'Every arithmetic operation on rationals (with rational or integer operands, compound or binary, on either side) whose cross products fit the integer type yields the exact result in lowest terms with a positive denominator; equality is exact, and order comparisons agree with exact order for terms small enough that the documented double conversion is exact.',
 ['inputs','histories'],'all pairs of small fractions and integers, all operators, and chains of operations',
 'Tests check a handful of fractions; sign and gcd corner cases are an input-space property.',
 [I+'Rational.h'],[('gcd normalisation',I+'Rational.h')])

p('C26','Text is converted, encoded and taken apart without loss or overrun',
 'UTF-8 and UTF-32 conversions, by function or by constructing or assigning string objects, give exactly the characters of the longest well-formed prefix of the given units that fits the destination, replace impossible code points by U+FFFD, never read beyond the given length or terminator nor write beyond the destination, and report a sufficient size when asked; Base64 encoding and decoding invert each other for every byte sequence with exact sizes; integers print correctly in every radix; trimming, replacing, stripping, chunking, tokenising, concatenating and formatting strings, splitting and grouping command lines, counting characters, searching bytes and reversing byte order return what the operation says for every text.',
 ['inputs','histories'],'all byte sequences and code point sequences, source lengths and destination capacities, all integers and radixes, all sequences of string-object operations',
 'A handful of literals cannot cover the malformed sequences, truncation points, empty and all-blank strings and high bytes where these routines go wrong.',
 ['bss-util/ConvertUTF.c','bss-util/bss_util_c.c',I+'Str.h',I+'bss_util.h',I+'algo.h'],[('UTF8toUTF32, UTF32toUTF8','bss-util/ConvertUTF.c'),('StrT',I+'Str.h'),('Base64Encode, Base64Decode',I+'algo.h'),('SafeFormat, ToArgV, strtrim',I+'bss_util.h')])

p('C27','Integer, bit and search utilities are right on their whole domain',
 'For every operand of every width the bit and integer utilities return the mathematically defined result: bit counts, masks over any bit range, bit tests and sets, safe shifts, next powers of two, floor logarithms and square roots, floor division and non-negative remainder, absolute value, sign and negation, the chosen bits of a full-width product, civil dates as day numbers, running mean and variance, and FNV hashes of the full width; the binary searches return the bounds they name in any sorted range, shuffling permutes, and a breadth-first tree walk visits every node once, in level order, until its action asks to stop.',
 ['inputs','configurations'],'all operand values at 8, 16, 32 and 64 bits, signed and unsigned; all sorted sequences and sub-ranges; all tree shapes',
 'The tests use a few small values at one width; these routines fail at high bits, wide types and full rings.',
 [I+'bss_util.h',I+'algo.h'],[('bit and integer templates',I+'bss_util.h'),('BinarySearch*, BreadthFirstTree',I+'algo.h')])

p('C28','Keyframe animations play every frame exactly when due',
 'Frames of a track stay sorted by time however they are added, set or removed, and the length of an animation is its set length or else the latest end of any frame. Advancing a player by any amounts calls every discrete frame whose time has come exactly once and in order, starts every interval once at its start and ends each once, in order of ends, no later than the first advance past its end (and all of them on reset, rewinding or destruction), and gives the smooth track the value of the chosen interpolation between the frames around the current time; a looping animation continues from its loop point with the time left over, and a finished one reports so and changes nothing.',
 ['histories','inputs'],'all frame sets, loop points, step sizes, rewinds, copies and edits between steps',
 'Tests play one animation with a few fixed steps; what goes wrong are steps spanning several frames, overlapping intervals, wrap-around and rewinding.',
 [I+'Animation.h'],[('AniState::Interpolate',I+'Animation.h'),('AniStateInterval, AniDataInterval',I+'Animation.h')])

p('C29','XML documents keep their tree through edits, copies, writing and reading',
 'A document is an ordered tree: adding, grafting, copying, assigning, replacing and removing elements and attributes, by index or by name, changes exactly what it names; looking a name up gives the child of that name added last and from it every other child of that name, and the one attribute of that name, after every history. Reading a well-formed text gives the elements, attributes, joined character data and numeric values it spells, whatever its comments, blanks and references; what is written, plain or pretty, reads back as the same document; and records serialized to XML parse back equal, skipping what names no field.',
 ['inputs','histories'],'all sequences of edits, copies and moves; all well-formed texts with comments, references and blanks; all record values',
 'Tests read two documents and one record; lookups after removals, copies, references in attributes and awkward comments are a matter of histories and inputs.',
 ['bss-util/XML.cpp',I+'XML.h'],[('XMLNode tree edits','bss-util/XML.cpp'),('_parse, _match, _write','bss-util/XML.cpp'),('XMLEngine',I+'XML.h')])

p('C30','Stream adapters and loggers deliver every byte, in order, to every target attached',
 'A stream over an array reads exactly the bytes of its whole elements from where it was told to start, and peeking, putting back and seeking act on that text and nothing outside it (a seek or put-back that would leave it fails and moves nothing); what is written to a growing array is part of it at once, element by element, without disturbing either position; and a converting stream transfers and counts every byte however requests and its buffer line up. What is written to a logger, or to a stream redirected to it, reaches every target attached at that time, once, in order, and at the latest when flushed; an entry is its formatted header (level name, file without path, line, local time) and text on one line, left out exactly when its level is at the limit; and clearing, moving, assigning or destroying loggers loses no text and puts every redirected stream back on its own buffer.',
 ['inputs','histories'],'all sequences of reads, writes, seeks and put-backs over all byte strings, element sizes and buffer sizes; all histories of writing, flushing, redirecting, attaching, moving and destroying; all formats',
 'Tests read one array through and log a few lines without looking at them; positions after growth, bytes above 127, requests spanning buffers and the order of redirections depend on histories.',
 [I+'stream.h',I+'Logger.h','bss-util/Logger.cpp','bss-util/bss_util.cpp',I+'bss_util.h'],[('StreamBufArray, StreamBufDynArray, StreamBufFunction, StreamSplitter',I+'stream.h'),('Logger',I+'Logger.h'),('Logger move, Assimilate, ClearTargets, _logHeader','bss-util/Logger.cpp'),('GetTimeZoneMinutes','bss-util/bss_util.cpp'),('SafeFormat',I+'bss_util.h')])

p('C31','Vectors and matrices compute their definitions in every dimension, scalar type and aliasing',
 'In every dimension, for integer and floating scalars, plain arrays and vector objects alike, and also when an operand is its own result: sums, differences, products and quotients act component by component, with scalars on either side; dot, length, distance, normalization, cross product, swizzles and comparisons are their definitions; matrix products (square and rectangular), row and column transformations, transposes, determinants, inverses, identities, diagonals and outer products obey the algebra of matrices; rotations, translations, affine transformations and quaternions give the matrices of the motions they name; and splines are the product of the powers of t, their basis and the points. The vectorized paths and the plain ones agree.',
 ['inputs'],'all dimensions, scalar types, operand values and aliasing of operands with results',
 'Tests multiply a few fixed 4-vectors and matrices; the specialised code for two, three and four components, the vectorized code and the general code are each wrong or right on their own inputs.',
 [I+'vector.h',I+'sseVec.h'],[('Vector, Matrix, NVectOp, MatrixMultiply, Dot, Cross',I+'vector.h'),('Matrix transformations and FromQuaternion',I+'vector.h'),('GenericBSpline',I+'vector.h')])

p('C32','Packed lanes, fixed-point and dual numbers compute with numbers',
 'An operation on packed lanes gives in each lane what the scalar operation of its width gives: wrap-around, arithmetic and logical shifts, comparisons, minimum and maximum, bitwise operations, conversions, loads, stores, shuffles, sums and roundings. A fixed-point number is an integer multiple of a power of two: conversion from and to numbers and other precisions, addition, subtraction, multiplication, division, remainder, shifts and comparisons are exact where the result is representable and round by their rule otherwise. A dual number carries the value and the derivatives, to its order, of the expression it was computed by: sums, products, quotients, powers, roots and elementary functions obey the rules of differentiation.',
 ['inputs','histories'],'all lane types, bit counts, precisions, orders and operand values; all expressions built from them',
 'Tests try a few values of each; wrapping, signs, odd precisions and higher derivatives depend on the operands.',
 [I+'sseVec.h',I+'FixedPt.h',I+'Dual.h'],[('BSS_SSEVec operators',I+'sseVec.h'),('Fixed arithmetic and conversion',I+'FixedPt.h'),('Dual arithmetic and functions',I+'Dual.h')])

p('C33','Geometric figures contain, meet and measure what they do in the plane',
 'For all positions and sizes: whether a circle, sphere, rectangle, ellipse, sector or polygon contains a point or another figure, and whether two of them, or one and a line, ray or segment, meet, is decided as the plane decides it, whatever the direction, order or slope of their points; the points where lines, segments and circles meet are where they are said to be, in order along the line, and no more or fewer than there are; nearest points, distances, areas, centroids and bounding boxes are those of the figure; and rectangles are united, intersected, inflated, expanded, normalised, compared and moved as the sets of points they stand for. Member functions and free functions agree.',
 ['inputs'],'all positions, sizes, orders of points and slopes',
 'The tests of these headers are empty; special cases (vertical, horizontal and parallel lines, either orientation, points inside and outside of every edge) are a matter of inputs.',
 [I+'Collision.h',I+'Geometry.h'],[('intersections, collisions, nearest points, distances, polygons',I+'Collision.h'),('NSphere, LineN, Rect, Ellipse, CircleSector, Polygon',I+'Geometry.h')])

if __name__=='__main__':
    with open('properties.jsonl','w') as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
    print(len(P))
