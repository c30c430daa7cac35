"""What each check runs and how its evidence is described."""

ARENA = 'memory allocator of the MEM and OBJ domains (simrt arena: fixed addresses, poisoning, seeded reuse, injected failures)'

NOT_APPLICABLE = {
    'C18': 'kind algebra is a pure function of the kinds given: no schedule, clock, fault or history in it to simulate '
           '(the history-dependent side, memoised classification, is C08)',
    'C19': 'the etc algorithms are pure functions of their input with no I/O, time, concurrency or fault surface',
    'C20': 'rendering is a pure function of the document; the file writing around it is C17',
}

SPECS = {}

SPECS['C01'] = dict(
    technique='histories of node set operations against a reference model, with failing allocations and re-entrant iterables and destructors',
    note='seeded sampling, not enumeration; trusts the reference model in sim/prop_c01.py and the simrt allocator',
    runs=(6000, 120000),
    rule='one seed = one history of node set operations with its allocator mode, fault plan, re-entrant scripts; '
         'distinct = distinct event logs (operation results and contents of every set after every step)',
    states='(operation, kind and size class of the first sets, fault fired)',
    real=['src/sets/nodeset.c', 'src/sets/immnodeset.c', 'src/sets/bitset.c', 'guppy/sets/__init__.py', 'CPython interpreter'],
    stub=[ARENA],
    assumptions=['allocation failures are injected only inside calls into the extension, in runs without Python callbacks'],
)

SPECS['C02'] = dict(
    technique='histories of bit set operations that share storage, against exact integer sets, with failing allocations and disturbing iterables',
    note='seeded sampling, not enumeration; trusts the reference model in sim/prop_c02.py and the simrt allocator',
    runs=(8000, 200000),
    rule='one seed = one history of bit set operations over a universe of integers (dense, sparse, at the ends of the integer range), '
         'with allocator mode and fault plan; distinct = distinct event logs (contents of every set after every step)',
    states='(operation, kind, complementedness and size class of the first sets, fault fired)',
    real=['src/sets/bitset.c', 'guppy/sets/__init__.py', 'CPython interpreter'],
    stub=[ARENA],
    assumptions=['segment splitting is made frequent through the _splitting_size attribute in some histories'],
)

SPECS['C03'] = dict(
    technique='histories of node graph operations against a reference model of edges and lifetimes, with failing allocations and re-entrant iterables and destructors',
    note='seeded sampling, not enumeration; trusts the reference model in sim/prop_c03.py and the simrt allocator',
    runs=(6000, 120000),
    rule='one seed = one history of node graph operations with its allocator mode, fault plan, re-entrant scripts; '
         'distinct = distinct event logs (edges of every graph after every step)',
    states='(operation, kind, size class and sortedness of the first graphs, fault fired)',
    real=['src/heapy/nodegraph.c', 'src/heapy/heapyc.c (iteration)', 'src/sets/*.c', 'CPython interpreter'],
    stub=[ARENA],
    assumptions=['allocation failures are injected only inside calls into the extension, in runs without Python callbacks'],
)

SPECS['C04'] = dict(
    technique='histories of changes to a world of real objects, snapshots compared with an independent reading of the object graph; collections, class churn at reused addresses and aborted snapshots as faults',
    note='seeded sampling; trusts gc.get_referents and the interpreter structures read by simrt',
    runs=(3000, 60000),
    rule='one seed = one history of world mutations, collections, class churn, hidden objects and queries; '
         'distinct = distinct event logs (operations and sizes of every answer)',
    states='(query, size class of the answer, initials of the types in it)',
    real=['src/heapy/hv.c', 'src/heapy/stdtypes.c', 'src/heapy/rootstate.c', 'src/heapy/nodegraph.c', 'src/sets/*.c', 'guppy/heapy/View.py',
          'guppy/heapy/UniSet.py', 'CPython interpreter and its collector'],
    stub=[ARENA],
    assumptions=['the collector runs only where a history says so'],
)

SPECS['C05'] = dict(
    technique='generated call stacks in several threads, each stopped at a point the seed chooses, against a model of what every frame and thread state holds; asynchronous exceptions, ending and not yet started threads, other interpreters as faults',
    note='seeded sampling; threads are handed the interpreter by locks, so the points they stop at are those of the script; trusts the model of what a frame holds and sys._current_frames',
    runs=(1000, 20000),
    rule='one seed = the scripts of all threads (frames pushed and popped, points where they stop) and what the main thread does in between; '
         'distinct = distinct event logs',
    states='(query, states of the other threads, depth or way the object is held)',
    real=['src/heapy/rootstate.c', 'src/heapy/stdtypes.c', 'src/heapy/hv.c', 'guppy/heapy/View.py', 'guppy/heapy/Path.py', 'CPython interpreter and its threads'],
    stub=[ARENA, 'the point at which a thread stops and another goes on (locks handed on; the switch interval is out of reach)'],
    assumptions=['the collector runs only where a script says so'],
)

SPECS['C06'] = dict(
    technique='object graph histories with referrer, dominator and dict owner queries, collections forced at chosen points inside the queries, against an independent graph reading',
    note='seeded sampling, not enumeration; answers are compared exactly when no change happened since the last collection; trusts sim/graphworld.py as reading of the object graph',
    runs=(3000, 60000),
    rule='one seed = one history of mutations, collections and queries, with the safepoints (line events of guppy code) at which a collection runs; '
         'distinct = distinct event logs',
    states='(query, changes since the last collection, collection inside the query, log2 of the result size)',
    real=['src/heapy/hv.c', 'src/heapy/nodegraph.c', 'src/heapy/hv_cli_dictof.c', 'src/heapy/stdtypes.c', 'guppy/heapy/View.py', 'guppy/heapy/Classifiers.py', 'CPython interpreter'],
    stub=[ARENA, 'the point at which the garbage collector runs (sys.monitoring line events)'],
    assumptions=['a collection happens only where the simulator puts it'],
)

SPECS['C07'] = dict(
    technique='object graph histories with path queries against an independent breadth first search, every label followed on the live objects; collections and interrupts inside the queries',
    note='seeded sampling, not enumeration; beyond 150 paths only chosen ones are compared; labels are required only for kinds that have a relation function',
    runs=(1800, 40000),
    rule='one seed = one history of mutations, collections and path queries (from the root, from sources, avoiding nodes and edges, at levels, for several sets), '
         'with the safepoint at which a collection or interrupt comes; distinct = distinct event logs',
    states='(query, number of paths, length of the paths)',
    real=['src/heapy/hv.c', 'src/heapy/stdtypes.c', 'src/heapy/nodegraph.c', 'guppy/heapy/Path.py', 'guppy/heapy/UniSet.py', 'guppy/heapy/OutputHandling.py', 'CPython interpreter'],
    stub=[ARENA, 'the point at which a signal or a collection arrives (sys.monitoring line events)'],
    assumptions=['a collection happens only where the simulator puts it'],
)

SPECS['C08'] = dict(
    technique='partitions of simulated object graphs under generated classifications against an independent classification, with failing and interrupted uses and earlier kinds used again later',
    note='seeded sampling, not enumeration; the internal identity-set classifier only at top level; whole-heap sets are cut to 300 objects',
    runs=(1300, 30000),
    rule='one seed = one history of mutations, class churn, collections, classifications and selections by kinds made earlier, with the safepoint at which a '
         'collection or interrupt comes and the objects whose size cannot be had; distinct = distinct event logs',
    states='(classification, number of objects, number of rows) and (kind used to select, its parts)',
    real=['src/heapy/classifier.c', 'src/heapy/hv_cli*.c', 'src/heapy/hv.c', 'src/heapy/stdtypes.c', 'src/heapy/nodegraph.c', 'src/sets/*.c', 'guppy/heapy/Classifiers.py', 'guppy/heapy/Part.py', 'guppy/heapy/UniSet.py', 'guppy/heapy/ImpSet.py', 'CPython interpreter'],
    stub=[ARENA, 'the point at which a signal or a collection arrives (sys.monitoring line events)'],
    assumptions=['a collection happens only where the simulator puts it'],
    expect_probes=['again', 'retype'],
)

SPECS['C09'] = dict(
    technique='histories of creations, deaths and address reuse with horizons and reference points made and dropped in any order, against a model with serial numbers',
    note='seeded sampling, not enumeration; whether an object that left the world came back as another is judged only for kinds of objects that are certainly fresh',
    runs=(2600, 60000),
    rule='one seed = one history over a pool of objects of 60 types (static, C heap types, Python classes, deep chains, finalizers and weak reference callbacks that use horizons) '
         'and over a world of linked objects, with the failing allocations and the safepoints of collections and interrupts; distinct = distinct event logs',
    states='(news or heap, number of new objects, number known, horizons alive)',
    real=['src/heapy/horizon.c', 'src/sets/nodeset.c', 'src/heapy/hv.c', 'guppy/heapy/View.py', 'guppy/heapy/Use.py', 'guppy/heapy/UniSet.py', 'CPython interpreter'],
    stub=[ARENA, 'the point at which a signal or a collection arrives (sys.monitoring line events)'],
    assumptions=['a collection happens only where the simulator puts it'],
    expect_probes=['reused'],
)

SPECS['C12'] = dict(
    technique='analyses interrupted at a chosen line of guppy, at a chosen allocation in C or in __sizeof__ of the program, and everything after them compared with a twin of the process, forked before, in which they were never started',
    note='seeded sampling, not enumeration; objects of equal sizes are not told apart where a report orders them by address',
    runs=(1000, 30000),
    rule='one seed = one world, the analyses interrupted (35 kinds) with the point where the interrupt comes, and the mutations, collections and analyses after them; distinct = distinct event logs',
    states='(last interrupted analysis and how, analysis after it)',
    real=['guppy/heapy/*.py', 'guppy/etc/Glue.py', 'src/heapy/*.c', 'src/sets/*.c', 'CPython interpreter'],
    stub=[ARENA, 'the point at which the signal arrives (sys.monitoring line events, allocations)'],
    assumptions=['a collection happens only where the simulator puts it', 'signal handlers run where CPython runs them: between bytecodes and in PyErr_CheckSignals'],
)

FSSTUB = 'the file system (sim/simfs.py: open(), os.stat and friends in memory, with faults and crashes at chosen system calls and bytes)'

SPECS['C10'] = dict(
    technique='dumps and loads over a simulated file system with crashes, full disks, I/O errors and short writes at chosen bytes, against the statistics as they were',
    note='seeded sampling, not enumeration; what a dump cut short and appended to looks like afterwards is only required not to be shown as complete; a file that is not valid text any more may be refused as a whole',
    runs=(5000, 120000),
    rule='one seed = one history of making statistics (synthetic, of sets, differences, slices), dumping them to up to 3 files and reading them back in 7 ways, with the byte or call at which a fault comes; distinct = distinct event logs',
    states='(way of reading or dumping, fault, number of dumps in the file, whether one is torn)',
    real=['guppy/heapy/Part.py', 'guppy/heapy/Use.py', 'guppy/heapy/OutputHandling.py', 'guppy/heapy/UniSet.py', 'guppy/heapy/Classifiers.py', "CPython's io module"],
    stub=[FSSTUB, 'the clock'],
    assumptions=['what reached the file system before a crash stays; nothing else does'],
)

SPECS['C11'] = dict(
    technique='a profile browser on a simulated screen and simulated timers polling a file on a simulated file system, whose writer appends, empties, replaces and removes it at chosen bytes and system calls',
    note='seeded sampling, not enumeration; the widgets are stubs that remember their contents (there is no Tk here); rewriting a file in place within one tick of its modification time, with the same size, cannot be noticed and is not simulated; nor is a writer that appends to a sample it left incomplete',
    runs=(20000, 400000),
    rule='one seed = one history of writes of chosen lengths, polls with writes and read errors before chosen system calls, cleared caches, truncations, replacements, removals, other files opened, graph types and markers; distinct = distinct event logs',
    states='(system calls in the poll, written during it, failed, cache, samples complete)',
    real=['guppy/heapy/Prof.py', 'guppy/heapy/Use.py', 'guppy/heapy/Part.py', "CPython's io module"],
    stub=[FSSTUB, 'tkinter (sim/faketk.py: widgets, canvases, texts, timers)', 'the writing process'],
    assumptions=['a poll is atomic with respect to truncation and replacement (appends come anywhere in it)'],
    expect_probes=['failed_poll', 'reopened'],
    time_unit='seconds of simulated screen time',
)

SPECS['C15'] = dict(
    technique='reports of nine kinds read page by page in any order, several at a time, with the page length changed and pages interrupted, or failing in the making of a row, at a chosen point, against a model of the pages over the rows of an identical report read at once',
    note='seeded sampling, not enumeration; whether a page that was interrupted counts as shown is left open by the oracle',
    runs=(2500, 60000),
    rule='one seed = a world, 1-3 reports made of it (statistics, dumps, sets, partitions, paths, reference patterns, clients of its own), and the paging requests, page lengths and points of interruption; distinct = distinct event logs',
    states='(kind of report, way of showing, first page or not, lines on the page, last page or not, page length)',
    real=['guppy/heapy/OutputHandling.py', 'guppy/heapy/Part.py', 'guppy/heapy/Path.py', 'guppy/heapy/RefPat.py', 'guppy/heapy/UniSet.py', 'guppy/heapy/Use.py', 'src/heapy/*.c', 'src/sets/*.c', 'CPython interpreter'],
    stub=[ARENA, FSSTUB, 'the point at which the signal arrives (sys.monitoring line events, allocations)'],
    assumptions=['the objects reported on do not change between two pages', 'signal handlers run where CPython runs them'],
)

SPECS['C16'] = dict(
    technique='sessions whose parts are first accessed in chosen orders and by chosen routes, by up to 11 threads under a scheduler that preempts at chosen lines, with imports and creations failing or interrupted at a chosen line, against a session of its own that nothing happened to',
    note='seeded sampling, not enumeration; threads only get parts, analyses run in one thread',
    runs=(700, 15000),
    rule='one seed = 1-3 sessions and the accesses (over 400 parts, 128 routes), first analyses, settings, threads with their preemption points, and faults; distinct = distinct event logs',
    states='(part or analysis accessed, how it ended, fault) and (threads, part, switches)',
    real=['guppy/etc/Glue.py', 'guppy/__init__.py', 'guppy/heapy/*.py', 'src/heapy/*.c', 'src/sets/*.c', 'CPython threads and interpreter'],
    stub=['the lock of guppy.etc.Glue (prop_c16.SimLock)', 'which thread runs (prop_c16.Sched)', '__import__ in guppy.etc.Glue, when an import is to fail', 'the point at which a signal or failure arrives (sys.monitoring line events)', ARENA],
    assumptions=['threads are switched between lines of guppy', 'the modules of guppy have been imported into the process before'],
)

SPECS['C17'] = dict(
    technique='histories of document runs over a simulated file system on which every system call may fail, write less or be the last one before a crash, against the files there were before and what a session of its own generates',
    note='seeded sampling, not enumeration; a crash ends the process, what system calls wrote survives it',
    runs=(3000, 100000),
    rule='one seed = a history of up to 14 runs (files given directly, packages with documents of four output modes), edits, permissions and sessions, each run with a fault; distinct = distinct event logs',
    states='(kind of run, targets, fault, how it ended, files there are)',
    real=['guppy/gsl/Filer.py', 'guppy/gsl/FileIO.py', 'guppy/gsl/Main.py', 'guppy/gsl/Document.py', 'guppy/gsl/{Html,XHTML,Latex,Tester,SpecNodes,DottedTree}.py', 'the io layers of CPython'],
    stub=['the os functions and raw files given to FileIO (sim/simfs.py, prop_c17.OS)', 'time.localtime'],
    assumptions=['a crash loses what is buffered in the process, not what was written', 'no target is the backup of another one', 'errors of os.access are reported as False'],
)

SPECS['C13'] = dict(
    technique='every compiled operation of heap views, classifiers and the root object on generated worlds with chosen allocations failing singly or in bursts; the answer, the answer afterwards, the reference count of every object and the number of blocks allocated are compared with those of the same operation without failures',
    note='seeded sampling of allocations and worlds, not enumeration',
    runs=(4000, 150000),
    rule='one seed = a world (mutations of 37 kinds of objects) and up to 6 operations, each with up to 8 failing allocations or bursts; distinct = distinct event logs',
    states='(operation, classifier, size of world, number of failures)',
    real=['src/heapy/*.c', 'src/sets/*.c'],
    stub=[ARENA + ', whose allocations fail when told'],
    assumptions=['operations that call back into Python code are not combined with failing allocations, where the interpreter itself may lose an error'],
)

SPECS['C14'] = dict(
    technique='histories of a program with analyses at arbitrary points (with collections, and with the program going on in the middle of them, at chosen points); what refers to what, the reference counts of all objects, deaths, answers and memory are compared with what they were',
    note='seeded sampling of histories, not enumeration',
    runs=(1200, 40000),
    rule='one seed = a history of up to 60 mutations of 37 kinds of objects with up to 6 analyses (34 kinds of 1 to 8 repetitions, some whose results are held for a while); distinct = distinct event logs',
    states='(analysis, size of world, collections or mutations in it, how it ended)',
    real=['src/heapy/*.c', 'src/sets/*.c', 'guppy/heapy/*.py'],
    stub=[ARENA],
    assumptions=['that the interpreter makes the dict of an instance when it is looked at is no change', 'the program is collected before and after'],
)
