PROPS = {}
PROPS['C09'] = dict(
    parts=[dict(name='seq', src='seq.cpp', spec='SeqTrace', shards=14, budget=dict(quick=150, thorough=1500)),
           dict(name='arb', src='arb.cpp', spec='ArbTrace', shards=2, budget=dict(quick=150, thorough=3000))],
    models=[dict(module='SeqSpec', cfg='SeqSpec.cfg'), dict(module='ArbSpec', cfg='ArbSpec.cfg')],
    assumptions=['single-threaded use; indices within bounds; arguments do not alias elements of the array being changed'])
PROPS['C10'] = dict(
    parts=[dict(name='arr', src='bits.cpp', spec='BitArrTrace', shards=4, budget=dict(quick=60, thorough=600), extra=['-DPART=0']),
           dict(name='field', src='bits.cpp', spec='BitFieldTrace', shards=2, budget=dict(quick=100, thorough=1000), extra=['-DPART=1']),
           dict(name='stream', src='bits.cpp', spec='BitStreamTrace', shards=2, budget=dict(quick=600, thorough=6000), extra=['-DPART=2'])],
    models=[dict(module='BitArrSpec', cfg='BitArrSpec.cfg'), dict(module='BitFieldSpec', cfg='BitFieldSpec.cfg'), dict(module='BitStreamSpec', cfg='BitStreamSpec.cfg')],
    assumptions=['single-threaded use; indices within bounds; BitField::Set(bits, mask) with bits inside mask; the stream is flushed (or destroyed) before it is read, and reads stay within the bits written'])
PROPS['C11'] = dict(
    parts=[dict(name='queues', src='queues.cpp', spec='QueueTrace', shards=6, budget=dict(quick=15, thorough=150))],
    models=[dict(module='QueueSpec', cfg='QueueSpec_circ.cfg'), dict(module='QueueSpec', cfg='QueueSpec_stack.cfg')],
    assumptions=['single-threaded use; Pop/Peek only when not empty; a circular array has capacity of at least 1 when pushed to'])
PROPS['C12'] = dict(
    parts=[dict(name='lists', src='lists.cpp', spec='ListTrace', shards=6, budget=dict(quick=25, thorough=250))],
    models=[dict(module='ListSpec', cfg='ListSpec.cfg')],
    assumptions=['single-threaded use; handles passed in are live; elements of trivially copyable type; searches on non-empty lists'])
PROPS['C13'] = dict(
    parts=[dict(name='hash', src='hash.cpp', spec='MapTrace', shards=6, budget=dict(quick=6, thorough=60))],
    models=[dict(module='MapSpec', cfg='MapSpec.cfg')],
    assumptions=['single-threaded use; key and value types relocatable as their array type requires; keys compare consistently with their hash'])
PROPS['C14'] = dict(
    parts=[dict(name='trees', src='trees.cpp', spec='OrdTrace', shards=8, budget=dict(quick=25, thorough=200))],
    models=[dict(module='OrdSpec', cfg='OrdSpec.cfg'), dict(module='OrdSpec', cfg='OrdSpec_unique.cfg')],
    assumptions=['single-threaded use; node handles passed in are live; key replacement from a present key to an absent one; near queries of the threaded tree on non-empty trees'])
PROPS['C15'] = dict(
    parts=[dict(name='heaps', src='heaps.cpp', spec='HeapTrace', shards=8, budget=dict(quick=40, thorough=400))],
    models=[dict(module='HeapSpec', cfg='HeapSpec.cfg')],
    assumptions=['single-threaded use; Pop/Peek on non-empty heaps; handles passed in are live'])
PROPS['C16'] = dict(
    parts=[dict(name='sets', src='sets.cpp', spec='PartTrace', shards=6, budget=dict(quick=40, thorough=400))],
    models=[dict(module='PartSpec', cfg='PartSpec.cfg')],
    assumptions=['single-threaded use; spanning-tree edges are given in non-decreasing weight order, with at least one vertex'])
PROPS['C08'] = dict(
    parts=[dict(name='mem', src='mem.cpp', spec='MemTrace', shards=6, budget=dict(quick=30, thorough=300)),
           dict(name='memrel', src='mem.cpp', spec='MemTrace', shards=6, extra=['-DNDEBUG', '-O2'], budget=dict(quick=20, thorough=300))],
    models=[dict(module='PoolModel', cfg='PoolModel.cfg')],
    assumptions=['single-threaded use; blocks are freed through the allocator that issued them, with their size where the interface takes one; alignments up to 16 for the caching allocator\'s direct allocations; a moved-from allocator is only destroyed'])
PROPS['C24'] = dict(
    parts=[dict(name='o2', src='atom.cpp', spec='AtomTrace', flavour='o2', shards=2, budget=dict(quick=40, thorough=400)),
           dict(name='o0', src='atom.cpp', spec='AtomTrace', flavour='o0', shards=2, budget=dict(quick=15, thorough=200)),
           dict(name='asan', src='atom.cpp', spec='AtomTrace', flavour='asan', shards=2, budget=dict(quick=15, thorough=200))],
    models=[dict(module='AtomModel', cfg='AtomModel.cfg')],
    assumptions=['words naturally aligned (16 bytes for the double-width compare-exchange); bit index inside the word; x86-64'])
PROPS['C25'] = dict(
    parts=[dict(name='rat', src='rat.cpp', spec='RatTrace', shards=4, budget=dict(quick=100, thorough=1000))],
    models=[dict(module='RatModel', cfg='RatModel.cfg')],
    assumptions=['operands and cross products representable in the integer type; no division by zero; order comparisons of two rationals on terms whose cross products stay below 2^30 (the header documents that they go through double)'])
PROPS['C26'] = dict(
    parts=[dict(name='text', src='text.cpp', spec='TextTrace', shards=3, budget=dict(quick=300, thorough=4000), repo_src=['bss-util/ConvertUTF.c', 'bss-util/bss_util_c.c'])],
    models=[dict(module='TextMC', cfg='TextMC.cfg')],
    assumptions=['UTF-32 input has no surrogate code points; UTF-16 conversions are not covered (on Linux wchar_t is not UTF-16); Base64 input uses the alphabet; itoa_r is given room for the whole number; command lines are quoted as the parser documents; char strings without embedded NULs'])
PROPS['C27'] = dict(
    parts=[dict(name='ints', src='ints.cpp', spec='IntTrace', shards=8, chunk=400_000, budget=dict(quick=9, thorough=150))],
    models=[dict(module='IntMC', cfg='IntMC.cfg')],
    assumptions=['arguments inside each operation\'s domain (positive divisors, results representable, minimum of a signed 32/64-bit type excluded where its negation overflows); FNV over ASCII text; floating point only where results are exact'])
PROPS['C28'] = dict(
    parts=[dict(name='ani', src='ani.cpp', spec='AniTrace', shards=4, budget=dict(quick=600, thorough=8000))],
    models=[dict(module='AniMC', cfg='AniMC.cfg')],
    assumptions=['the animation is not edited while a player is in the middle of it; the loop point is before the end; time only moves by non-negative amounts or SetTime; relative interpolation starts with a frame at time zero; times and values chosen so that floating point is exact'])
PROPS['C22'] = dict(
    parts=[dict(name='variant', src='own.cpp', spec='VariantTrace', shards=2, budget=dict(quick=400, thorough=4000), extra=['-DPART=0']),
           dict(name='pointers', src='own.cpp', spec='RefTrace', shards=2, budget=dict(quick=800, thorough=8000), extra=['-DPART=1']),
           dict(name='calls', src='own.cpp', spec='CallTrace', shards=2, budget=dict(quick=400, thorough=4000), extra=['-DPART=2'])],
    models=[dict(module='VariantSpec', cfg='VariantSpec.cfg'), dict(module='RefSpec', cfg='RefSpec.cfg'), dict(module='RefSpec', cfg='RefSpec_own.cfg'), dict(module='CallSpec', cfg='CallSpec.cfg')],
    assumptions=['single-threaded use; a raw pointer is given to one owner only; references are dropped only by those who hold them; deferred calls are not copied; variants are not self-moved'])
PROPS['C23'] = dict(
    parts=[dict(name='sched', src='sched.cpp', spec='SchedTrace', shards=4, budget=dict(quick=120, thorough=1500), repo_src=['bss-util/HighPrecisionTimer.cpp'])],
    models=[dict(module='SchedSpec', cfg='SchedSpec.cfg')],
    assumptions=['delays are not negative; a callback does not update the scheduler that is running it; the order of events due at exactly the same time is unspecified; the machine clock is replaced by a virtual one (including clocks that step back)'])
PROPS['C19'] = dict(
    parts=[dict(name='strs', src='strs.cpp', spec='StrTrace', shards=6, budget=dict(quick=100, thorough=300))],
    models=[dict(module='StrSpec', cfg='StrSpec.cfg'), dict(module='StrSpec', cfg='StrSpec_fold.cfg')],
    assumptions=['at least one key, keys distinct (ignoring ASCII case where the trie does), fewer trie nodes than the index type can address; strings appended to a table do not alias its own storage; a table is read back from a stream with the number of bytes that were written'])
PROPS['C18'] = dict(
    parts=[dict(name='kd', src='kd.cpp', spec='RectTrace', shards=8, budget=dict(quick=150, thorough=800))],
    models=[dict(module='RectSpec', cfg='RectSpec.cfg')],
    assumptions=['rectangles are not inverted; the tree is not changed from inside a query; an item\'s rectangle does not change while it is in the tree; a moved-from tree is only destroyed; coordinates exactly representable'])
PROPS['C17'] = dict(
    parts=[dict(name='graph', src='graph.cpp', spec='GraphTrace', shards=4, budget=dict(quick=60, thorough=800), extra=['-DPART=0']),
           dict(name='flow', src='graph.cpp', spec='FlowTrace', shards=4, budget=dict(quick=300, thorough=4000), extra=['-DPART=1'])],
    models=[dict(module='GraphSpec', cfg='GraphSpec.cfg'), dict(module='FlowSpec', cfg='FlowSpec.cfg')],
    assumptions=['node indices and edges passed in belong to the graph; source and sink differ; capacities are non-negative, initial flows zero and sums of capacities fit in an int; a moved-from graph is only destroyed; the order of adjacency lists is unspecified'])
SC = 'interleavings are sequentially consistent (each memory access is one atomic step); weaker hardware or compiler reorderings are not explored'
PROPS['C01'] = dict(
    parts=[dict(name='rw', src='rwlock.cpp', spec='RWTrace', flavour='sched', shards=8, budget=dict(quick=1, thorough=12))],
    models=[dict(module='RWMC', cfg='RWMC.cfg'), dict(module='RWAlgo', cfg='RWAlgo.cfg')],
    assumptions=[SC, '2-3 threads; each thread releases what it was granted with the matching call and does not take the lock twice'])
PROPS['C02'] = dict(
    parts=[dict(name='spsc', src='cqueue.cpp', spec='FifoTrace', flavour='sched', shards=8, extra=['-DPART=0'], budget=dict(quick=30, thorough=400))],
    models=[dict(module='FifoMC', cfg='FifoMC.cfg'), dict(module='SpscAlgo', cfg='SpscAlgo.cfg')],
    assumptions=[SC, 'one producer and one consumer thread; up to 5 calls each'])
PROPS['C03'] = dict(
    parts=[dict(name='mpmc', src='cqueue.cpp', spec='FifoTrace', flavour='sched', shards=8, extra=['-DPART=1'], budget=dict(quick=30, thorough=400))],
    models=[dict(module='FifoMC', cfg='FifoMC.cfg'), dict(module='MpmcAlgo', cfg='MpmcAlgo.cfg')],
    assumptions=[SC, '2-3 threads, up to 4 calls each'])
T = ('thorough',)
ALGO = {'C04': [dict(module='FreeList', cfg='FreeList.cfg'), dict(module='FreeList', cfg='FreeList_untagged.cfg', expect='reject'), dict(module='FreeList', cfg='FreeList_3.cfg', tiers=T, timeout=1500)],
        'C05': [dict(module='RingModel', cfg='RingModel.cfg'), dict(module='RingModel', cfg='RingModel_3.cfg', tiers=T, timeout=1500)],
        'C07': [dict(module='GreedyAlgo', cfg='GreedyAlgo.cfg'), dict(module='GreedyAlgo', cfg='GreedyAlgo_big.cfg', tiers=T, timeout=1500)]}
for _p, _n, _k in (('C04', 'pool', 0), ('C05', 'ring', 1), ('C07', 'var', 2)):
    PROPS[_p] = dict(
        parts=[dict(name=_n, src='cmem.cpp', spec='MemTrace', flavour='sched', shards=8, extra=['-DPART=%d' % _k], budget=dict(quick=35, thorough=500)),
               dict(name=_n + 'dbg', src='cmem.cpp', spec='MemTrace', flavour='scheddbg', shards=4, extra=['-DPART=%d' % _k], budget=dict(quick=12, thorough=150))],
        models=ALGO[_p],
        assumptions=[SC, '2-3 threads, up to 6 calls each; blocks freed by their own or another thread; Clear and destruction only when nobody else uses the allocator'])
PROPS['C06'] = dict(
    parts=[dict(name='tpool', src='tpool.cpp', spec='TaskTrace', flavour='sched', shards=8, budget=dict(quick=25, thorough=400))],
    models=[dict(module='PoolAlgoMC', cfg='PoolAlgoMC.cfg')],
    assumptions=[SC, '1-4 workers, one or two submitting threads; Wait is not called from inside a task; the pool has at least one worker'])
PROPS['C20'] = dict(
    parts=[dict(name='ini', src='ini.cpp', spec='IniTrace', shards=8, budget=dict(quick=500, thorough=6000), repo_src=['bss-util/INIstorage.cpp', 'bss-util/INIsection.cpp', 'bss-util/INIentry.cpp', 'bss-util/INIParser.c']),
           dict(name='initext', src='initext.cpp', spec='IniTextTrace', shards=8, budget=dict(quick=700, thorough=10000), repo_src=['bss-util/INIstorage.cpp', 'bss-util/INIsection.cpp', 'bss-util/INIentry.cpp', 'bss-util/INIParser.c'])],
    models=[dict(module='IniMC', cfg='IniMC.cfg')],
    assumptions=['names without the characters []=; and values without ; or line breaks, neither starting nor ending in blanks; lines below 1024 characters; a file is edited through one storage at a time'])
PROPS['C21'] = dict(
    parts=[dict(name='json', src='json.cpp', spec='JsonTrace', shards=8, budget=dict(quick=200, thorough=1500)),
           dict(name='ubj', src='ubj.cpp', spec='UbjTrace', shards=8, budget=dict(quick=200, thorough=1500), repo_src=['bss-util/UBJSON.cpp'])],
    models=[dict(module='JsonMC', cfg='JsonMC.cfg'), dict(module='UbjMC', cfg='UbjMC.cfg')],
    assumptions=['targets of a parse are freshly constructed (containers are appended to); JSON keys without NUL; JSON doubles are ones that six significant digits show exactly and that are not whole; a top-level JSON number or literal is alone in its stream'])
PROPS['C29'] = dict(
    parts=[dict(name='xml', src='xml.cpp', spec='XmlTrace', shards=8, budget=dict(quick=150, thorough=1500), repo_src=['bss-util/XML.cpp']),
           dict(name='xmlrec', src='xmlrec.cpp', spec='XmlRecTrace', shards=8, budget=dict(quick=120, thorough=1200), repo_src=['bss-util/XML.cpp'])],
    models=[dict(module='XmlMC', cfg='XmlMC.cfg'), dict(module='XmlMC', cfg='XmlMC_4.cfg', tiers=T, timeout=3000)],
    assumptions=['well-formed texts in which > inside an attribute value is escaped, attribute values are in double quotes and there is no CDATA section or document type; an element is named before it is added; text that is only blanks is not kept by writing; numbers of at most nine digits'])

PROPS['C30'] = dict(
    parts=[dict(name='buf', src='buf.cpp', spec='BufTrace', shards=8, budget=dict(quick=300, thorough=4000)),
           dict(name='logger', src='logger.cpp', spec='LogTrace', shards=8, budget=dict(quick=120, thorough=1500), repo_src=['bss-util/Logger.cpp', 'bss-util/bss_util.cpp'])],
    models=[dict(module='BufMC', cfg='BufMC.cfg'), dict(module='LogMC', cfg='LogMC.cfg')],
    assumptions=['the array under a memory stream is changed only through that stream; a stream is redirected to at most one logger at a time; a level is given a name before it is used and levels are at most 126; targets outlive the logger; a logger that was moved from is only assigned to or destroyed'])

PROPS['C31'] = dict(
    parts=[dict(name='lin', src='lin.cpp', spec='LinTrace', shards=8, budget=dict(quick=150, thorough=2500))],
    models=[dict(module='LinMC', cfg='LinMC.cfg')],
    assumptions=['operands are integers small enough to be exact in every element type; angles are quarter turns; quotients, roots and inverses are those with an exact result (inverses: times 1, 2 or 4)'])


PROPS['C32'] = dict(
    parts=[dict(name='num', src='num.cpp', spec='NumTrace', shards=8, budget=dict(quick=200, thorough=3000))],
    models=[dict(module='NumMC', cfg='NumMC.cfg')],
    assumptions=['lane, fixed-point and derivative values are small enough for the type (8- and 16-bit lanes wrap); right shifts of 16- and 64-bit lanes of non-negative lanes; divisions of 64-bit fixed-point numbers, which the code documents as inexact, are not used; logarithms at 1 and sine, cosine and exponential at 0, where the values are integers'])

PROPS['C33'] = dict(
    parts=[dict(name='geo', src='geo.cpp', spec='GeoTrace', shards=8, budget=dict(quick=120, thorough=2500))],
    models=[dict(module='GeoMC', cfg='GeoMC.cfg')],
    assumptions=['coordinates are small integers (every claim is then exact); lines have two different points, radii are positive, circles to intersect are not concentric; ends of segments exactly on a circle, touching of a segment and a rectangle and points on the outline of a polygon are left open'])
