#!/usr/bin/env python3
"""spec.py - the single source of properties.jsonl and MANIFEST.json (run it after editing; both files are committed)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
MODEL = ('Models are finite, acyclic and stage-indexed (a state occurs at one depth only; the sink may be reached from any '
         'stage), with a merge operator that relaxes, admissible local bounds and a sound dominance test; width at least 1.')
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or []))


T = ['test/test6.cpp and test7.cpp sample a few fixed sets, the other tests a handful of hand-written models']
DDF = ['src/dd.cpp', 'src/dd.hpp', 'src/node.hpp', 'src/node.cpp']
BB = ['src/search.cpp', 'src/search.hpp'] + DDF

prop('E01', 'Branch-and-bound returns the optimum and terminates',
     'For every stage-indexed model, direction of optimisation and width of at least 1, branch-and-bound terminates with the optimal '
     'value as its primal bound. When the model has no solution it ends with the initial bound of that direction and reports no solution. '
     'This holds with or without local bounds and dominance, when the merge operator refuses pairs, and whatever the hash function.',
     ['inputs', 'programs', 'configurations'],
     'all models (tables of states, arcs, costs; knapsack, independent set, tsp, ruler, colouring, scheduling instances) x widths x with/without local bound and dominance x merge policies. ' + MODEL,
     'The tests run the search on no generated model; a lost solution needs a particular cutset, width, tie or dominance pattern.',
     BB + ['src/heap.hpp', 'src/lighthash.hpp'],
     [('search loop, pruning, cutset enqueueing, widening', 'src/search.cpp BAndB::search'), ('relaxation and cutset', 'src/dd.cpp Relaxed'),
      ('restriction', 'src/dd.cpp Restricted'), ('B&B node deduplication', 'src/dd.hpp DDNodeAllocator::cloneNode')],
     'property-based testing: generated models against dynamic programming / brute force',
     'Exploration of tens of thousands of generated models per run (plain and ASan+UBSan builds); trusts the DP / brute-force oracle. Models in which a state occurs at two depths are outside the domain (known finding).')
prop('E02', 'Every reported solution is feasible, worth its value and strictly improving',
     'Every solution handed to a solution callback is a complete feasible sequence of decisions of the model whose cost equals the primal '
     'bound visible in that callback, and it is strictly better than the previous one (or than the primal bound given at the start). All registered '
     'callbacks see the same solutions once each, in the same order. When the search ends, stopped early or not, the primal bound and the printed incumbent are the last solution reported.',
     ['inputs', 'programs', 'histories'], 'all models x widths x initial primal bounds x stopping points. ' + MODEL,
     'No test replays the labels of reported solutions; a wrong label or cost appears only on certain merges, ties and re-expansions.',
     BB, [('best path labels kept with bounds', 'src/dd.cpp computeBest/tighten/compute'), ('publication of incumbents', 'src/dd.hpp DD::update, Bounds::setIncumbent'), ('label vectors', 'src/vec.hpp')],
     'property-based testing: independent replay of every reported solution', 'Replays label sequences on the transition table or the problem data. Same bounds as E01.')
prop('E03', 'A primal bound supplied by the user is respected; searching again is idempotent',
     'Given an initial primal bound, the search ends with the optimum and reports a solution of that value if the optimum is strictly better than the given bound, '
     'and otherwise leaves the bound unchanged and reports nothing. Searching again with the same bounds, with any width, on the same or on a new model object, changes nothing and reports nothing.',
     ['inputs', 'configurations', 'histories'], 'all models x initial bounds equal to / just better / just worse / far from the optimum x widths x repeated searches. ' + MODEL,
     'Tests never supply an initial bound; strict versus non-strict comparisons only matter at equality.',
     BB, [('bounds object', 'src/dd.hpp Bounds'), ('strict improvement tests', 'src/search.cpp, src/dd.cpp apply, src/dd.hpp transition')],
     'property-based testing: relation between initial bound, optimum and outcome', 'Same oracle and bounds as E01.')
prop('E04', 'Restricted diagrams give real solutions and are honest about exactness',
     'Compiling a restricted diagram below the root or any exact node yields either no solution or a feasible one with the announced value, never better than the best completion; '
     'a diagram that declares itself exact holds the best completion that improves the primal bound, and one whose width exceeds the widest layer is exact. Without local bounds it finds some solution whenever no state is a dead end. '
     'Applying it reports exactly one solution and updates the primal bound exactly when it improves.',
     ['inputs', 'programs', 'configurations'], 'all models x widths x primal bounds x start nodes (root, cutset nodes). ' + MODEL,
     'Tests compile restricted diagrams of a couple of fixed models only.', DDF + ['src/queue.hpp', 'src/msort.hpp'],
     [('layer-wise truncated compilation', 'src/dd.cpp Restricted::compute'), ('exactness flag', 'src/dd.cpp'), ('bounds update', 'src/dd.cpp AbstractDD::apply')],
     'property-based testing: restricted compilation against dynamic programming', 'DP over the transition table gives the best completion of every state.')
prop('E05', 'Relaxed diagrams give valid dual bounds and are honest about exactness',
     'Compiling a relaxed diagram below the root or any exact node gives a value at least as good as every completion of that node that improves the primal bound. A diagram that declares itself exact has a feasible incumbent of that very value, '
     'and one whose width is at least the widest layer is exact. Applying it only reports real, improving solutions, and an exact improving diagram sets the primal bound to its value.',
     ['inputs', 'programs', 'configurations'], 'all models x widths x primal bounds x start nodes. ' + MODEL,
     'A dual bound that cuts an optimum by a little is invisible in the tests\' single models.', DDF + ['src/lighthash.hpp'],
     [('merging', 'src/dd.cpp Relaxed::mergeLayer/mergeOne/mergePair'), ('bounds of merged nodes', 'src/dd.hpp DD::merge, src/dd.cpp adjustBounds/tighten')],
     'property-based testing: relaxed compilation against dynamic programming', 'DP oracle; merge operator of the generated models is set union (a correct relaxation by construction).')
prop('E06', 'Exact diagrams hold the optimum and an optimal solution',
     'Compiling an exact diagram gives the optimal value and an incumbent that is a feasible solution of that value, or the initial bound when the model has no solution, and it says it is exact. '
     'This holds with or without a local bound (for optima that improve the primal bound), and applying it reports that solution once.',
     ['inputs', 'programs'], 'all models (layers up to ~600 states), with and without local bound, primal given or not. ' + MODEL,
     'Tests check the exact value of a few toy models without local bound.', DDF + ['src/heap.hpp', 'src/queue.hpp'],
     [('breadth-first compilation', 'src/dd.cpp Exact::compute'), ('longest/shortest path', 'src/dd.cpp AbstractDD::computeBest')],
     'property-based testing: exact compilation against dynamic programming / brute force', 'DP and brute force oracles.')
prop('E07', 'The cutset of a relaxed diagram is a complete, exact frontier',
     'Every node of the cutset is a distinct real state, reached by its own decisions at exactly its own bound, and is never the sink. The best solution below the root is always covered: it was reported already or is a completion of a cutset node. '
     'The value announced for a cutset node (cost so far plus estimate to the end) is at least as good as any completion of it that would improve the primal bound.',
     ['inputs', 'programs', 'histories'], 'all models x widths x primal bounds x start nodes up to several levels below the root. ' + MODEL,
     'The cutset is never inspected by the tests.', DDF + ['src/queue.hpp', 'src/store.hpp'],
     [('exactness propagation', 'src/dd.hpp makeNode, src/dd.cpp mergePair'), ('frontier', 'src/dd.cpp Relaxed::computeCutSet'), ('estimates', 'src/dd.cpp AbstractDD::computeBestBackward')],
     'property-based testing: cutset invariants against the transition table', 'Checks coverage by DP values of the cutset states.')
prop('E08', 'A reused diagram object behaves as a fresh one',
     'Whatever was compiled before in a diagram object (any strategies, widths, start nodes, resets), compiling below a node gives the same value, incumbent, exactness, cutset, reported solutions and effect on the bounds as a fresh copy of the model would. '
     'Diagrams of the same model do not disturb one another.',
     ['histories', 'programs'], 'all histories of compilations in one object and interleaved others. ' + MODEL,
     'Needs histories: leftovers in tables, pools, marks or flags matter only after particular earlier compilations.', DDF + ['src/lighthash.hpp', 'src/store.hpp', 'src/store.cpp'],
     [('reset', 'src/dd.hpp DD::reset'), ('table clearing', 'src/lighthash.hpp LHashtable::clear'), ('pool marks', 'src/store.cpp Pool::clear'), ('root transfer', 'src/dd.hpp DD::makeInitFrom, duplicate')],
     'stateful property-based testing: differential, reused against fresh object', 'Differential oracle at every step of generated histories.')
prop('E09', 'The search can be stopped at any point and resumed',
     'Whenever the limit callback says stop, the search ends at once, the bounds hold the last solution reported (feasible, never better than the optimum) and the summary says that the limit was reached if and only if it stopped the search. '
     'Searching again with the same bounds, as often as it is stopped, still ends with the optimum. The callback receives non-decreasing elapsed milliseconds since the start of the search.',
     ['inputs', 'histories', 'fault_sequences'], 'all models x widths x sequences of stopping points. ' + MODEL,
     'Stopping is not tested at all.', ['src/search.cpp', 'src/search.hpp', 'src/RuntimeMonitor.cpp', 'src/dd.hpp'],
     [('limit polling', 'src/search.cpp BAndB::search'), ('clock', 'src/RuntimeMonitor.cpp')],
     'stateful property-based testing: generated stopping points against the optimum', 'Stops are injected by call count; elapsed times are exact against a virtual clock.')
prop('E10', 'The width is a real bound on every layer',
     'No layer of a restricted diagram, and no layer of a relaxed diagram of a model whose merge operator accepts every pair of states of a stage, expands more different states than the width in force, below any start node and after the width was changed.',
     ['inputs', 'configurations'], 'all models x widths x start nodes. ' + MODEL,
     'Layer sizes are not observed by the tests.', DDF,
     [('restricted stop', 'src/dd.cpp Restricted::compute/estimate'), ('merge loop', 'src/dd.cpp Relaxed::mergeLayer')],
     'property-based testing: expansions counted through the model\'s own callbacks', 'Counts states whose labels are requested per stage.')
prop('E11', 'The answer does not depend on the encoding of the model',
     'Negating all costs and the direction, renaming labels in increasing order, returning the same labels as a bounded set or a range instead of a growable set, scaling costs by a power of two, or changing the hash function leaves the reported solutions and final value unchanged up to that re-encoding.',
     ['inputs', 'programs'], 'all models x re-encodings x widths. ' + MODEL,
     'Metamorphic: needs pairs of runs.', BB + ['src/util.hpp', 'src/lighthash.hpp'],
     [('direction abstraction', 'src/dd.hpp Minimize/Maximize'), ('label conversion', 'src/dd.hpp DD::getLabels, src/util.hpp GNSet'), ('hash tables', 'src/lighthash.hpp')],
     'metamorphic property-based testing', 'Relations are exact on dyadic costs (no rounding).')
prop('E12', 'The user\'s functions are only called where they are defined',
     'Labels are requested only for non-sink states the model produced; transitions only for labels generated for that state; costs only for transitions that exist; merges only for two different, non-sink, non-root states of one stage and only by relaxed diagrams; '
     'dominance never on the sink. The local bound is asked in the diagram context while compiling and in the search context only for real (unmerged) states; every node the search explores was estimated in the search context first.',
     ['inputs', 'programs', 'histories'], 'all models x strategies x widths. ' + MODEL,
     'A stray call is harmless in total test models but undefined in a user\'s partial one.', BB,
     [('expansion', 'src/dd.cpp Exact/Restricted/Relaxed::compute'), ('merging', 'src/dd.cpp Relaxed::mergeOne'), ('dominance', 'src/dd.cpp checkDominance, src/search.cpp'), ('local bound contexts', 'src/dd.hpp DD::transition, src/search.cpp')],
     'property-based testing: call-domain monitor in the model\'s callbacks', 'Every callback invocation is checked against the history of earlier ones.')
prop('E13', 'The search is deterministic',
     'Two searches of the same model with the same width and bounds, in one process with the allocator left in different states, call the user\'s functions with the same arguments in the same order, report the same solutions and print the same report apart from times.',
     ['inputs', 'histories', 'configurations'], 'all models x widths x allocator states. ' + MODEL,
     'Needs pairs of runs under disturbed memory.', BB + ['src/lighthash.hpp', 'src/store.cpp', 'src/heap.hpp'],
     [('no address-dependent order, no uninitialised reads', 'whole engine')],
     'property-based testing: run twice under allocator perturbation', 'malloc perturbation and junk allocations; ASan variant as well.')
prop('E14', 'States are destroyed exactly once and repeated use needs bounded memory',
     'Every state object held by a diagram has been destroyed, once, by the time the diagram is reset or destroyed. Repeating the same compilations in one diagram does not keep taking memory.',
     ['histories', 'programs'], 'all histories of compilations and resets. ' + MODEL,
     'Leaks and double destruction are invisible to value-level tests.', DDF + ['src/store.cpp', 'src/store.hpp', 'src/lighthash.hpp'],
     [('reset', 'src/dd.hpp DD::reset'), ('pool', 'src/store.cpp Pool'), ('table', 'src/lighthash.hpp')],
     'stateful property-based testing: counting live state objects and live heap bytes', 'Counts constructor/destructor pairs of the state type and mallinfo2 of the process; memory the search itself keeps (its node pool) is not claimed.')
prop('E15', 'What the search prints is true',
     'Every progress line shows the elapsed time, a primal bound that held, a dual bound that no solution still to be found beats and their gap relative to the primal bound (never negative); every improvement is printed once with the value the callbacks saw. '
     'The summary shows the width, the final primal bound, consistent node counts (explored at most taken from the queue, which equals the polls of the limit; none dominated when the model has no dominance), exact optimum and total times, and whether the limit stopped the search.',
     ['inputs', 'histories'], 'all models x widths x stopping points. ' + MODEL,
     'Output is never compared by the tests.', ['src/search.cpp', 'src/dd.hpp', 'src/RuntimeMonitor.cpp'],
     [('report', 'src/search.cpp BAndB::search'), ('TIGHTEN lines', 'src/dd.hpp DD::update')],
     'property-based testing: parsing the report against callbacks and dynamic programming', 'Values compared to the printed 6 significant digits; time is a virtual clock the model advances.')
prop('A01', 'The shipped applications solve their problems',
     'Each shipped application (two knapsack, six independent-set, three colouring, five travelling-salesman and three Golomb-ruler programs), run on any valid instance file with any width of at least 1, '
     'ends normally; every solution it reports is one and is worth the value shown, each better than the one before; its own checker accepts them; the bound shown for the root is a bound; the value it ends with is the optimum.',
     ['inputs', 'configurations'],
     'all instance files in the formats the programs read (up to 14 items, 13 vertices, 8 cities, 7 marks) x widths 1 to 64 x the options of the programs',
     'The programs are built and never run by the tests.',
     ['examples'] + BB + ['src/util.hpp', 'src/heap.hpp', 'src/uf.hpp', 'src/msort.hpp', 'src/lighthash.hpp'],
     [('models', 'examples/*.cpp'), ('search', 'src/search.cpp BAndB::search'), ('label ranges and sets', 'src/util.hpp'), ('bounds of the tsp models', 'src/heap.hpp, src/uf.hpp, src/msort.hpp')],
     'property-based testing: generated instance files, the program as a black box against brute force',
     'Runs the real programs (release build and ASan+UBSan with assertions), built so that the listed findings (defects of the programs themselves; examples/ may not be repaired here) do not hide the rest: knapsack2 and tsp_test2 are only tried on the listed inputs, the checkers of the misp programs are ignored, variables tsp_test3, tsp_test4 and tsptw read unset are 0. The time windows of tsptw are read and ignored by the program. The four toy programs without input are not run.')
prop('D01', 'The growable natural-number set is a mathematical set',
     'After any sequence of constructions, insertions, removals, unions, intersections, differences, complements, filters, cut-offs above/below, copies, moves and clears, the growable set of naturals contains exactly the elements a mathematical set would, '
     'iterates them once each in increasing order, and its size, emptiness, membership, equality, minimum, maximum, sums and printed form agree.',
     ['inputs', 'histories'], 'all operation sequences over several interacting sets, values up to 10^5 including word boundaries',
     'test6/test7 sample single operations on small sets; defects sit at word boundaries, different capacities and after moves.',
     ['src/util.hpp'], [('GNSet', 'src/util.hpp class GNSet'), ('fold helpers', 'src/util.hpp sum/min/max/filter/foldl')],
     'stateful property-based testing against std::set', 'Complement is relative to the current capacity; values below 2^20.')
prop('D02', 'The bounded natural-number set is a mathematical set',
     'After any sequence of constructions, insertions, unions, intersections, complements, copies and clears, the bounded set of naturals contains exactly the elements a mathematical subset of its universe would, iterates them in increasing order, and its size, emptiness, membership, largest element, equality, hash, printed form and conversion to the growable set agree.',
     ['inputs', 'histories'], 'all operation sequences, 1 to 5 words', 'test6/test7 sample few operations.', ['src/util.hpp'], [('NatSet', 'src/util.hpp class NatSet')],
     'stateful property-based testing against std::set', 'Ranges up to the last value of the universe.')
prop('D03', 'Reflecting a bounded set by an offset is exact',
     'For every bounded set S and offset at least max(S) and below the capacity, the reflection contains exactly offset - v for each v in S; S is unchanged and reflecting twice gives S back.',
     ['inputs'], 'all sets and offsets, 1 to 5 words', 'test6 checks a few reflections; word-crossing shifts depend on offset and content.', ['src/util.hpp'], [('operator-(int,NatSet)', 'src/util.hpp')],
     'property-based testing against element-wise computation', '1 to 5 words.')
prop('D04', 'Equal states hash equally, however they were built',
     'Two growable sets, fixed arrays or standard sets holding the same value compare equal and have the same hash whatever histories produced them (capacities, insertion order, removed leftovers, copies, moves), and values that differ compare different.',
     ['inputs', 'histories'], 'all pairs of construction histories of one value, and near-miss values', 'Tests build each value one way.', ['src/util.hpp'], [('operator==', 'src/util.hpp'), ('std::hash specialisations', 'src/util.hpp')],
     'property-based testing: two histories of one value', 'Hash quality is not claimed, only consistency.')
prop('D05', 'Ranges enumerate exactly their values',
     'A range built from two ends, open or closed, increasing-only or in either direction, enumerates exactly the integers between them in that direction; its size, membership, reversal, copies and conversion to a label set agree with that enumeration.',
     ['inputs'], 'all pairs of ends in -4..300 x constructors', 'Tests use increasing ranges from 0.', ['src/util.hpp'], [('Range', 'src/util.hpp class Range'), ('GNSet(Range)', 'src/util.hpp')],
     'property-based testing against explicit lists', 'Small integers (overflow not explored).')
prop('D06', 'The priority queue is a faithful priority queue',
     'After any sequence of insertions, bulk builds, extractions, removals and key decreases by handle, growth and clears, the heap holds exactly the elements a multiset would, each handle shows its element, looking an element up finds one of its handles while it is queued and nothing otherwise, and every extraction yields an element of best priority.',
     ['histories', 'inputs'], 'all operation sequences, min and max order, initial capacities 1..64', 'No heap test has removals by handle combined with growth.', ['src/heap.hpp', 'src/store.hpp'], [('Heap', 'src/heap.hpp')],
     'stateful property-based testing against a list of elements', 'Up to ~550 elements at once; ties may come out in any order.')
prop('D07', 'The circular queue is FIFO and loses nothing',
     'Without retractions the queue returns elements first-in first-out across wrap-around and growth, and its size, front, traversal and search agree. With retractions by value or by handle it always holds exactly the elements not yet removed, and handles show their element.',
     ['histories', 'inputs'], 'all operation sequences, initial sizes 1..32, up to thousands of elements', 'Growth while wrapped needs particular sequences.', ['src/queue.hpp'], [('CQueue', 'src/queue.hpp')],
     'stateful property-based testing against std::deque', 'Order after a retraction is not claimed.')
prop('D08', 'The hash tables are maps whatever the hash function',
     'After any sequence of insertions, lookups, located insertions and clears, both hash tables return for each key the value last stored since the last clear (or nothing), with the right size and each entry visited once, for any capacity and any hash function including constant ones.',
     ['histories', 'inputs', 'configurations'], 'all operation sequences x hash functions x capacities', 'Collision chains across lazily cleared buckets need particular histories.', ['src/hashtable.hpp', 'src/lighthash.hpp'], [('Hashtable', 'src/hashtable.hpp'), ('LHashtable', 'src/lighthash.hpp')],
     'stateful property-based testing against std::map', 'Up to 60 keys per history.')
prop('D09', 'The memory pool hands out aligned, disjoint, stable blocks',
     'Every block returned by the pool is 16-byte aligned, does not overlap any live block, and keeps its content until the pool is cleared or returned to a mark taken before it was allocated; blocks may be of any size, larger than a segment included. Standard containers placed in a pool through the STL adapter hold the same elements as ordinary ones, whatever else is allocated from the pool.',
     ['histories', 'inputs'], 'all sequences of allocations, marks, restorations in stack order and clears', 'Segment changes around marks need particular sizes.', ['src/store.hpp', 'src/store.cpp', 'src/stlAllocAdapter.hpp'], [('Pool', 'src/store.cpp'), ('marks', 'src/store.hpp PoolMark'), ('STL adapter', 'src/stlAllocAdapter.hpp StackAdapter')],
     'stateful property-based testing against a shadow list of blocks', 'Segments of 64 to 4096 bytes.')
prop('D10', 'The sequence containers of the diagrams keep their content and order',
     'The pool vector, the layer array and the node list hold exactly the elements of the corresponding mathematical sequence after any sequence of pushes, pops, removals, erasures while iterating, sorts, prefix cuts, copies, moves and clears; sizes, ends and forward, backward and reverse iteration agree.',
     ['histories', 'inputs'], 'all operation sequences', 'Growth, holes and removal interplay only in long histories.', ['src/vec.hpp', 'src/dd.hpp', 'src/node.hpp', 'src/node.cpp'],
     [('Vec', 'src/vec.hpp'), ('NDArray', 'src/dd.hpp'), ('ANList', 'src/node.hpp')],
     'stateful property-based testing against std::vector and std::list', 'As documented: assigning past the end of a Vec makes that index its last.')
prop('D11', 'Merge sort orders a permutation; union-find maintains the partition',
     'Merge sort returns the elements of its input, each once, in the order of the comparison. Union-find answers that two elements are in the same set exactly when a chain of merges connects them, representatives represent themselves and the printed set size is right.',
     ['inputs', 'histories'], 'all arrays up to 600 elements; all sequences of set creations and merges', 'Tests do not touch them with generated data.', ['src/msort.hpp', 'src/uf.hpp'], [('mergeSort', 'src/msort.hpp'), ('UnionFind', 'src/uf.hpp')],
     'property-based testing against permutation/order checks and a partition model', 'Stability of the sort is not claimed.')
prop('D12', 'Fixed arrays and matrices are independent values with exact cells',
     'After any sequence of writes, copies, moves and assignments, a fixed array or matrix holds exactly the values last written to it, copies are independent of their source, equality is by value, and matrix cells, dimensions and printed form are exact for every shape in two and three dimensions.',
     ['histories', 'inputs'], 'all operation sequences; all shapes up to 7x7 and 5x5x5', 'Non-square shapes and moved-from arrays are not tested.', ['src/util.hpp'], [('FArray', 'src/util.hpp'), ('Matrix, FMatrix', 'src/util.hpp')],
     'stateful property-based testing against std::vector', 'Arrays created without a fill value are unspecified until written.')
prop('D13', 'The drawn and printed graph is the diagram',
     'The graph handed to the drawing tool shows every node once with its exactness colour, boxes only the sink at the diagram\'s value, and shows every arc once with its own cost and label between the right nodes; an exact diagram without local bound shows exactly the reachable part of the model, and printing lists the same arcs. '
     'Displaying returns once, in the calling process only, even when the drawing tools are missing.',
     ['inputs', 'programs', 'fault_sequences'], 'all models x strategies x widths x tools present or missing. ' + MODEL, 'Tests never read the graph.', ['src/dd.cpp', 'src/dd.hpp', 'src/node.hpp'],
     [('dot output', 'src/dd.cpp AbstractDD::saveGraph/print'), ('process handling', 'src/dd.cpp AbstractDD::display')],
     'property-based testing: parsing the dot file against the transition table, stub tools', 'dot and open are replaced by stand-ins in a scratch PATH.')
prop('D14', 'The runtime monitor reports the time that passed',
     'For any two instants, from nothing to decades apart, the durations in milliseconds, seconds and microseconds reported by the runtime monitor are the time between them, to one millisecond (one microsecond for the microsecond form), the integer and floating forms agree, a duration "since" an instant ends at the moment of the call, and the clocks it offers advance with the time of the machine.',
     ['inputs', 'histories'], 'all pairs of instants over decades; all sequences of readings and passing time', 'Tests run for milliseconds of real time.', ['src/RuntimeMonitor.hpp', 'src/RuntimeMonitor.cpp'], [('RuntimeMonitor', 'src/RuntimeMonitor.cpp')],
     'property-based testing against integer arithmetic on a virtual clock', 'The virtual clock replaces clock_gettime and gettimeofday; a clock read some other way is not judged.')
prop('D15', 'Pointer handles behave like the pointers they stand for',
     'After any sequence of constructions, copies, moves, assignments and conversions, a handle_ptr or strict_ptr designates exactly the object its raw pointer would, also when a handle to a derived class is converted to a base class at another address; comparisons between handles, null tests and member access agree with the raw pointers; freeing destroys the object once and leaves a null handle.',
     ['histories', 'inputs'], 'all operation sequences over a class with two bases', 'No test touches the handles directly.', ['src/handle.hpp'], [('handle_ptr, strict_ptr', 'src/handle.hpp')],
     'stateful property-based testing against raw pointers', 'A handle whose object was freed through another handle dangles like a pointer: not claimed.')
prop('D16', 'The helpers models are written with compute what they say',
     'For every collection, the helpers sum, min and max (plain and filtered) and filter evaluate the given function on the elements the filter keeps and on no other value, and return the sum, the extremes (the extreme of int for an empty selection) and the kept elements; this holds for natural sets, ranges, vectors, maps and std::sets. The operators on std::sets (union, intersection, difference, membership, least and greatest element, fold, hash, conversion from a range) equal the mathematical ones, and reversing the bits of a byte, word or long gives exactly the mirrored bits. The printed form of a set or vector lists exactly its elements in order.',
     ['inputs', 'programs'], 'all sets up to 700, vectors, maps, ranges, std::sets, machine words; linear terms and modular filters', 'Tests use the helpers on one or two fixed sets.', ['src/util.hpp'], [('sum, min, max, filter', 'src/util.hpp'), ('printing', 'src/util.hpp operator<<')],
     'property-based testing against plain loops and by reading printed forms back', 'Which value a sum or extreme overflows to is not claimed.')


with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
           'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
           'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [],
               'notes': 'No hooks: every check builds /repo/src unmodified. Findings: known-findings.txt. Design: DESIGN.md.'}, f, indent=1)
    f.write('\n')
