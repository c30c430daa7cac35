#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))

p('C01', 'Node sets hold exactly their members, through failures and re-entrancy',
  "A node set (mutable or immutable) contains, by identity, exactly the objects that its completed operations put in it and keeps each member alive exactly once, releasing it when it leaves the set or the set dies. An operation that fails part-way (an iterable that raises, exhausted memory) or is re-entered (an iterable or a destructor that uses the same set, mutation during iteration) never crashes, never yields or exposes a dead object, never loses or duplicates a reference, and leaves a set whose contents are explained by the element-wise steps performed so far.",
  ['histories', 'fault_sequences', 'inputs'],
  'every history of operations on any number of sets, every allocation that can fail, every re-entrant call from an iterable or destructor',
  'the tests run short fixed histories with well-behaved iterables and never fail an allocation or re-enter a set',
  ['src/sets/nodeset.c', 'src/sets/immnodeset.c', 'src/sets/bitset.c', 'guppy/sets/__init__.py'],
  [('mutable node set operations', 'src/sets/nodeset.c'), ('immutable node set merge/hash/identity', 'src/sets/immnodeset.c')])

p('C02', 'Bit sets are exact integer sets and their snapshots are independent',
  "A bit set contains exactly the integers its completed operations put in it, for the whole integer range, dense or sparse, complemented or not. Anything derived from a mutable bit set (copies, immutable versions, iterators, slices, results of operators) is an independent snapshot: no later change to either side is ever visible in the other. An operation that runs out of memory or whose operand raises reports the error, does not crash, and leaves every set unchanged except for whole elements of the interrupted in-place operation.",
  ['histories', 'fault_sequences', 'inputs'],
  'every interleaved history of operations on sets that share structure, every allocation that can fail during them, every failing operand',
  'copy-on-write sharing only shows over interleaved histories of several related sets and under memory exhaustion; the tests exercise one set at a time and never fail an allocation',
  ['src/sets/bitset.c', 'src/sets/sets.c', 'guppy/sets/__init__.py'],
  [('copy-on-write of shared field arrays', 'src/sets/bitset.c: sf_getrange_mut, mutbitset_getrange_mut'), ('current-field cache', 'src/sets/bitset.c: mutbitset_findpos*')])

p('C03', 'Node graphs are exact edge multimaps through failures and re-entrancy',
  "A node graph answers every query (lookup, membership, domain, range, image, restriction, cover tests, iteration) exactly as the set of edges put in by its completed operations, keeps every endpoint alive while it is in the graph and releases it afterwards. Copies and inversions are independent of the original. A failing allocation, a raising or graph-mutating iterable, or a destructor that uses the graph never crashes it, never drops edges that were already in it and never leaks or over-releases an endpoint.",
  ['histories', 'fault_sequences', 'inputs'],
  'every history of graph updates, queries and clears, with every possible failing allocation and re-entrant call',
  'the tests use a handful of fixed graphs; sorting is lazy, so correctness depends on the order of updates and queries, and no test fails an allocation',
  ['src/heapy/nodegraph.c'],
  [('lazy sort and duplicate removal', 'src/heapy/nodegraph.c: ng_sort'), ('edge storage growth and trimming', 'src/heapy/nodegraph.c: NyNodeGraph_AddEdge, ng_trim'), ('item assignment', 'src/heapy/nodegraph.c: ng_ass_sub')])

p('C04', 'The heap snapshot is exactly the reachable, visible objects',
  "At any point of any program history, the heap snapshot and the reachability queries return every object reachable from the chosen root by the program's real references and nothing else: nothing dead, nothing unreachable, nothing reachable only through weak references or through the analyser's own hidden objects, and (for the restricted queries) nothing behind the objects to avoid. This holds whatever happened before: mutation, garbage collections, classes created and destroyed, previous snapshots, hidden objects, and regardless of how deep or cyclic the graph is.",
  ['histories', 'programs', 'schedules'],
  'every history of object graph mutation, collection, class creation and destruction and earlier analyses; every object graph',
  'tests compare sizes of a few fixed structures; per-type traversal tables and hidden-object filtering depend on which types were created, reused and destroyed before',
  ['src/heapy/hv.c', 'src/heapy/stdtypes.c', 'guppy/heapy/View.py'],
  [('per-type traversal table', 'src/heapy/hv.c: hv_new_xt_for_type, xt_*_traverse'), ('hidden object filtering', 'src/heapy/hv.c: hv_is_obj_hidden'), ('reachability', 'src/heapy/hv.c: hv_heap, hv_reachable')])

p('C05', 'Objects held by any thread are visible; the analyser itself is not',
  "Whenever a snapshot is taken while other threads are stopped at arbitrary points of their execution, every object that a live frame of the snapshotting thread's program holds in a local, cell or global variable, and every object in the interpreter's and threads' own state, is in the snapshot and can be named by a path from the root; frames that belong to the analysis itself and their objects are not. Reading the root state never crashes, whatever state the threads are in (just started, blocked, raising, finishing).",
  ['schedules', 'programs'],
  'every interleaving of threads with the analysing thread, every suspension point and call depth',
  'the tests are single threaded apart from one fixed scenario; which frames and thread states exist when the snapshot runs is a scheduling matter',
  ['src/heapy/rootstate.c', 'src/heapy/stdtypes.c', 'src/heapy/hv.c', 'guppy/heapy/View.py'],
  [('thread and frame walk', 'src/heapy/rootstate.c'), ('frame traversal', 'src/heapy/stdtypes.c: frame_traverse'), ('analysis frame limit', 'guppy/heapy/View.py: enter')])

p('C06', 'Referrers, referents and dominators match the object graph',
  "After any history of mutations, collections and earlier queries, the referents, referrers, immediate dominators and dominated sets that are reported equal those of the actual object graph as of the last garbage collection, with cached referrer information never outliving the collection that invalidates it. Owners reported for attribute dictionaries are the objects that own them. A cache invalidation arriving in the middle of a query (a collection at any point) never corrupts or empties the answer.",
  ['histories', 'schedules'],
  'every history of mutations and queries, with a garbage collection at any bytecode of the query code',
  'the referrer cache is valid or stale depending on when collections happen relative to queries; the tests run with one collection schedule',
  ['guppy/heapy/View.py', 'src/heapy/hv.c', 'src/heapy/nodegraph.c', 'guppy/heapy/Classifiers.py'],
  [('referrer graph cache and collection hook', 'guppy/heapy/View.py: referrers, clear_check, clear_callback'), ('retainer graph update', 'src/heapy/hv.c: hv_update_referrers')])

p('C07', 'Shortest paths are real, shortest, complete and correctly labelled',
  "The shortest paths reported from the root (or a given source set) to an object are exactly the shortest chains of references in the object graph: none missing, none longer, each one listed once, each step a real reference with a relation that, when followed on the live objects, leads to the next object. This remains so when edges are excluded, when the graph has changed since an earlier query, and whatever order or index the paths are read in.",
  ['histories', 'programs'],
  'every object graph and history of changes between queries, every way of reading the result',
  'the tests check a few hand-written graphs; relation labels are computed per type and per live object state',
  ['guppy/heapy/Path.py', 'src/heapy/hv.c', 'src/heapy/stdtypes.c'],
  [('breadth-first shortest path step', 'src/heapy/hv.c: hv_shpathstep'), ('relation labelling', 'src/heapy/hv.c: hv_relate; src/heapy/stdtypes.c'), ('path enumeration', 'guppy/heapy/Path.py: PathsIter')])

p('C08', 'Partitions conserve objects and sizes under every classification',
  "Partitioning a set of objects by any classifier puts every object into exactly one class, the one that classifying the object alone gives, so counts and sizes of the rows add up to the totals of the set and selecting a class returns its members. This holds after any history of earlier classifications, collections, dead and recreated types, and failed or interrupted classifications, none of which changes a later answer.",
  ['histories', 'fault_sequences', 'programs'],
  'every set of live objects, every classifier and combination, every history of earlier classifications including failing ones',
  'classifiers memoise kinds, dictionaries owners and type information across calls; tests classify small fixed sets once',
  ['guppy/heapy/Classifiers.py', 'guppy/heapy/Part.py', 'src/heapy/classifier.c', 'src/heapy/hv_cli_rcs.c', 'src/heapy/hv_cli_dictof.c', 'src/heapy/hv_cli_indisize.c', 'src/heapy/hv_cli_prod.c', 'src/heapy/hv_cli_rel.c', 'src/heapy/hv_cli_and.c', 'src/heapy/hv_cli_id.c'],
  [('partition loops', 'src/heapy/classifier.c'), ('memoising classifiers', 'src/heapy/hv_cli_*.c'), ('rows and totals', 'guppy/heapy/Part.py')])

p('C09', 'Relative heaps report exactly the objects created since the reference',
  "After a reference point is set, the relative heap contains exactly the visible objects now in the heap that were not in it then: no object that was in it is reported, and no new object is missed, even when the new object was allocated at the address of one that existed at the reference point and has died since, whatever its type and however it died. Making, using and dropping reference points, in any order and from inside finalizers, never disturbs the others; a horizon keeps no object alive and never changes how or when objects are deallocated.",
  ['histories', 'schedules'],
  'every history of creations, deletions, address reuse and reference points',
  'a miss needs the memory allocator to reuse a particular address, which a test cannot arrange',
  ['src/heapy/horizon.c', 'guppy/heapy/View.py', 'guppy/heapy/Use.py'],
  [('deallocation interception', 'src/heapy/horizon.c'), ('reference heap', 'guppy/heapy/Use.py: setref, setrelheap')])

p('C10', 'Dumped statistics survive: every completed dump loads back exactly',
  "Statistics dumped to a file or stream load back with the same rows, counts, sizes, totals, ordering and derived values, for any sequence of dumps appended to the same file, read back through any access pattern. A dump cut short by a crash, a full disk or a short write never corrupts or hides the dumps completed before it and is never presented as if it were complete; an I/O error is reported and leaves no file handle open.",
  ['crash_points', 'fault_sequences', 'histories', 'inputs'],
  'every sequence of appended dumps, every crash point, torn or failed write and short read',
  'the tests write one or two files on a healthy file system and read them once',
  ['guppy/heapy/Part.py', 'guppy/heapy/Use.py'],
  [('dump format', 'guppy/heapy/Part.py: Stat.dump, dump_to_open_file'), ('loading', 'guppy/heapy/Use.py: load, loadall, dumph; guppy/heapy/Part.py: Stat')])

p('C11', 'Tailing a growing profile file shows each complete sample exactly once',
  "A profile reader that polls a file while another process appends samples to it shows, after every poll, a prefix of the samples that were completely written, each exactly once, in order and with its own values, and after the writer stops and the reader polls again it shows all of them. This holds for every split of the writes, every poll timing, non-ASCII content, and for the file being truncated or replaced by a new one between polls.",
  ['schedules', 'crash_points', 'histories'],
  'every interleaving of writer steps (down to single bytes) with reader polls, every truncation or replacement',
  'no test runs the reader against a file that changes; the outcome depends on where the writer is when the poll happens',
  ['guppy/heapy/Prof.py'],
  [('incremental loading', 'guppy/heapy/Prof.py: Stats.collect, open, loadstr')])

p('C12', 'Interrupting an analysis at any point leaves the analyser correct',
  "An analysis stopped at any point by a keyboard interrupt or an exception raised in the analysed program's own code raises that exception and nothing else, and the next analysis gives exactly the result it would have given had the aborted one never been started. No root, frame limit, lock, cache or hidden object of the aborted analysis remains in effect.",
  ['fault_sequences', 'schedules', 'histories'],
  'every point of every public analysis at which a signal can be delivered, followed by every other analysis',
  'a test cannot place an interrupt at a chosen bytecode or inside a C loop',
  ['guppy/heapy/View.py', 'guppy/heapy/Use.py', 'guppy/heapy/Classifiers.py', 'guppy/heapy/OutputHandling.py', 'guppy/heapy/Part.py', 'src/heapy/hv.c', 'src/heapy/classifier.c'],
  [('frame limit and temporary root', 'guppy/heapy/View.py: enter, heap'), ('referrer lock', 'guppy/heapy/View.py: referrers, call_with_referrers'), ('signal checks', 'src/heapy/hv.c: xt_hd_traverse')])

p('C13', 'Memory exhaustion in the analyser is an error, never a wrong answer',
  "When any allocation made by the analyser's compiled code fails, the operation raises a memory error (or completes correctly without that memory): it never crashes, never returns a wrong or partial answer as if it were complete, and never corrupts, leaks or over-releases the objects it was looking at. Repeating the operation once memory is available gives the right answer.",
  ['fault_sequences', 'programs'],
  'every allocation of every heap view, classifier, horizon and relation operation, failing singly or in bursts',
  'the tests never make an allocation fail',
  ['src/heapy/hv.c', 'src/heapy/classifier.c', 'src/heapy/hv_cli.c', 'src/heapy/hv_cli_rcs.c', 'src/heapy/hv_cli_rel.c', 'src/heapy/hv_cli_dictof.c', 'src/heapy/hv_cli_indisize.c', 'src/heapy/hv_cli_prod.c', 'src/heapy/hv_cli_findex.c', 'src/heapy/horizon.c', 'src/heapy/stdtypes.c', 'src/heapy/rootstate.c'],
  [('error paths of every heap view operation', 'src/heapy/*.c')])

p('C14', 'Observation is neutral: analysing never changes the analysed program',
  "Taking snapshots, classifying, computing paths, referrers, sizes and statistics leaves the analysed objects as they were: their reference counts return to their previous values once the results are dropped, weak references and finalizers fire exactly when they would have fired without the analysis, no container is mutated, and no analysed object is kept alive. Repeating the same analysis any number of times on an unchanged program gives the same answer and does not accumulate objects.",
  ['histories', 'programs', 'schedules'],
  'every program history with analyses interleaved at arbitrary points',
  'a leaked or stolen reference shows only as a changed lifetime later in the history of the analysed program',
  ['src/heapy/hv.c', 'src/heapy/stdtypes.c', 'src/heapy/classifier.c', 'src/heapy/nodegraph.c', 'src/sets/nodeset.c', 'guppy/heapy/View.py', 'guppy/heapy/UniSet.py', 'guppy/heapy/Use.py'],
  [('reference ownership of results', 'src/heapy/*.c, src/sets/*.c'), ('hidden analyser objects', 'guppy/heapy/View.py')])

p('C15', 'Paged output shows every row exactly once, however it is read',
  "Reading a report page by page (more, all, prev, top, in any order, from several reports interleaved, with changes of the page length in between) shows every row of the report exactly once in order, says correctly which rows are shown and how many remain, and agrees with reading it all at once. If producing or showing a page is interrupted, what can be read afterwards is still the complete report.",
  ['histories', 'fault_sequences', 'configurations'],
  'every sequence of paging requests on interleaved reports of any length, every point at which producing a row can fail',
  'tests print first pages of a few reports; line positions are lazily computed and cached across requests',
  ['guppy/heapy/OutputHandling.py', 'guppy/heapy/Part.py', 'guppy/heapy/Path.py', 'guppy/heapy/UniSet.py'],
  [('lazy line cache', 'guppy/heapy/OutputHandling.py: line_at, lines_from'), ('page state', 'guppy/heapy/OutputHandling.py: get_str, MorePrinter')])

p('C16', 'Lazily created session parts are created once, whole, or not at all',
  "Every lazily created part of a session is created at most once per session and every access, by whatever route and in whatever order, yields that same part. If its creation fails or is interrupted at any point the error reaches the caller, nothing half-made is kept, and a later access creates it properly. Two sessions never share or disturb each other's state.",
  ['schedules', 'fault_sequences', 'histories'],
  'every order of first accesses, every failing or interrupted creation step, every interleaving of two sessions',
  'creation happens once per process in one order in the tests, and never fails',
  ['guppy/etc/Glue.py', 'guppy/__init__.py', 'guppy/heapy/Use.py', 'guppy/heapy/View.py', 'guppy/heapy/Classifiers.py'],
  [('attribute resolution and caching', 'guppy/etc/Glue.py: Share.getattr2, getattr3, setattr')])

p('C17', 'Generated files are written completely or the previous version is kept',
  "When a document run writes files, each target ends with exactly its generated contents and the version it replaced is kept under the backup name; if anything fails on the way (no space, a short write, a failing rename, a crash) the previous contents of every target are still found intact under the target or the backup name. No file other than the named targets and their backups is touched.",
  ['crash_points', 'fault_sequences', 'histories'],
  'every sequence of document runs over the same targets, every I/O call failing or being the last one before a crash',
  'one test writes two files on a healthy disk',
  ['guppy/gsl/Filer.py', 'guppy/gsl/FileIO.py'],
  [('backup and write', 'guppy/gsl/Filer.py: WriteFile.write'), ('file system seam', 'guppy/gsl/FileIO.py')])

p('C18', 'Set algebra and lattice laws of kinds',
  "Unions, intersections, differences, complements and comparisons of kinds (classes of objects) and of identity sets obey the laws of set algebra with respect to membership of actual objects.",
  ['inputs'],
  'every pair of kinds and sets built from the public constructors',
  'the space of kind expressions is unbounded; tests check chosen identities',
  ['guppy/heapy/UniSet.py', 'guppy/heapy/Classifiers.py'],
  [('kind operators', 'guppy/heapy/UniSet.py')])

p('C19', 'The etc algorithms (regular expressions, Knuth-Bendix, Kan extensions) are sound',
  "Automata, regular expression simplification, Knuth-Bendix completion and Kan extension computations return results equivalent to their inputs.",
  ['inputs'],
  'every input presentation or expression',
  'unbounded inputs, a few samples in the tests',
  ['guppy/etc/FSA.py', 'guppy/etc/RE.py', 'guppy/etc/KnuthBendix.py', 'guppy/etc/KanExtension.py', 'guppy/etc/Cat.py'],
  [('completion', 'guppy/etc/KnuthBendix.py')])

p('C20', 'Document rendering preserves the source structure',
  "Rendering a specification document to HTML, LaTeX or text preserves its text and structure and resolves every internal link.",
  ['inputs'],
  'every source document',
  'unbounded inputs, a few sample documents in the tests',
  ['guppy/gsl/Document.py', 'guppy/gsl/Html.py', 'guppy/gsl/Latex.py', 'guppy/gsl/Text.py', 'guppy/gsl/XHTML.py', 'guppy/gsl/SpecNodes.py'],
  [('renderers', 'guppy/gsl/*.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=True) + '\n')
    print(len(P), 'properties')
