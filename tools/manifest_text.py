_T = "deterministic simulation: seeded search over %s; checked against %s"
_N = "%s. Seeded sampling: it can miss schedules, faults and inputs it did not draw."
TECH = {
    "C01": (_T % ("schedules, delays and pipe capacities of lockstep-forked worker processes",
                  "the sequential filter of an identical GraphFrame"),
            _N % "GraphFrames up to 24 nodes, up to 40 workers; workers switch at hatchet lines and pipe operations"),
    "C02": (_T % ("worker schedules with kills, exceptions, exits, stalls and failing forks and pipes",
                  "the complete result or an error, and termination in simulated time"),
            _N % "Workers die at lines of hatchet code or at pipe operations, also within a transfer"),
    "C03": (_T % ("generated HPCToolkit databases, pool schedules, process counts and listing orders",
                  "the values the generator stored"),
            _N % "Databases up to 12 files and about 12 nodes in the format of the 2021 releases"),
    "C04": (_T % ("truncations, libc open/read errors, vanishing files and pool worker faults",
                  "raises or returns the complete stored values, and a clean load afterwards"),
            _N % "Damage that keeps every file's length is out of scope; one known finding (dead pool worker)"),
    "A01": (_T % ("interrupts and MemoryErrors at any line, raising callbacks and failing writes in every operation",
                  "the operands' deep snapshots and the result of the same operation on fresh operands"),
            _N % "GraphFrames up to 9 nodes; exceptions at lines of hatchet code, not within pandas"),
    "A02": (_T % ("histories of arithmetic over a pool of related GraphFrames under simulated node addresses",
                  "a reference model on call-path-keyed rows"),
            _N % "Operands with the same metrics, ranks and threads"),
    "A03": (_T % ("histories of filters and squashes under simulated node addresses",
                  "a reference model of squash on plain trees"),
            _N % "Up to 14 nodes; graphs with shared children are checked for conservation and structure only"),
    "A04": (_T % ("histories that derive GraphFrames from one another and change them in place",
                  "deep snapshots of every other live GraphFrame after each step"),
            _N % "Pools of up to 6 GraphFrames of up to 6 nodes, up to 14 steps"),
    "A05": (_T % ("histories of reads, operations, round trips and injected MemoryErrors over a pool of GraphFrames",
                  "structural invariants of every live GraphFrame after each step"),
            _N % "Acyclic graphs of up to 8 nodes, up to 14 steps"),
    "A06": (_T % ("histories of recomputations, interruptions and changes under simulated node addresses",
                  "a reference model computed from the values before each recomputation"),
            _N % "Up to 10 nodes (a few runs up to 300), up to 8 steps; every node has at least one row"),
    "T01": (_T % ("histories of phases, scopes, raising bodies and injected exceptions on a virtual clock",
                  "a model of the phase intervals"),
            _N % "Up to 20 operations on two timers; the clock is not set while a phase is active"),
    "S04": (_T % ("dump histories with clock jumps, libc write and open faults, full disks and concurrent threads",
                  "the bytes of every earlier file and the calls the workload made"),
            _N % "Up to three profilers, 12 steps and three concurrent dumps"),
    "D01": (_T % ("node addresses, hash seeds and earlier histories under the same sequence of operations",
                  "the outcome of the same sequence in a plain world"),
            _N % "GraphFrames up to 10 nodes, up to 12 operations; order is compared as well as content"),
    "D02": (_T % ("listing orders, hash seeds, node addresses, pool schedules and earlier failed or foreign loads",
                  "one snapshot of the same bytes loaded in a plain world"),
            _N % "Profiles of about 12 nodes in every format the installed packages allow"),
    "Q01": (_T % ("histories of queries with raising, querying and interrupted predicates and changing tables",
                  "a path matcher written from the definition of the query language"),
            _N % "Graphs up to 8 nodes, patterns up to 4 query nodes, conditions that fit their column's type"),
    "Q02": (_T % ("line-level interleavings of two to four threads of non-modifying operations on shared GraphFrames",
                  "the outcome of each operation alone, and deep snapshots of the shared GraphFrames"),
            _N % "Calls into pandas and PyTables are atomic; up to 3 GraphFrames of up to 6 nodes"),
    "Q03": (_T % ("line-level interleavings of two to four threads that load profiles of 15 formats",
                  "the same load alone, and the values the generator stored"),
            _N % "Calls into pandas and other libraries are atomic; up to 4 profiles of up to 10 nodes"),
    "R01": (_T % ("notebook sessions against a simulated page that runs the real roundtrip.js: when outputs, kernel requests, "
                  "module callbacks, timers, clicks and cell runs happen",
                  "the value handed over, compared where and when it arrives"),
            _N % "Up to three visualisations; the notebook, its kernel channel and the DOM are stand-ins"),
    "S01": (_T % ("histories of operations, saves under several keys, overwriting saves and restarts",
                  "the GraphFrame as it was when it was last saved under the key"),
            _N % "GraphFrames up to 8 nodes with rows; a restart is a fork of a process that only imported hatchet"),
    "S03": (_T % ("histories of operations, JSON writes, restarts, cuts at decided lengths and exceptions at any line",
                  "the GraphFrame that was written; cut text must be rejected"),
            _N % "GraphFrames up to 8 nodes with rows; numbers, text and missing values as cells"),
    "S02": (_T % ("write, open, truncate and close failures, full disks, exceptions, cuts and crash images during saves",
                  "raises or restores exactly, here and in a new process, and saving again works"),
            _N % "GraphFrames up to 8 nodes, up to 4 saves; a dying process leaves its writes in order"),
    "F02": (_T % ("start failures, exit statuses, signals, short output, delays, pieces and pipe sizes of a simulated cali-query",
                  "raises, or gives what the complete output gives, and leaves no program unreaped"),
            _N % "Profiles of up to 7 nodes, up to 4 loads; the program is a script of delays and writes in virtual time"),
    "F01": (_T % ("libc open/read errors, missing, unreadable and vanishing files in every reader",
                  "raises or returns the complete stored values, and a clean load afterwards"),
            _N % "One fault per load; a missing file the format does not announce is out of scope"),
}
NA = {
    "N01": "pure function of query text and data: no schedule, fault, clock or history it depends on, so a simulator decides nothing that plain input generation would not",
    "N02": "pure function of one GraphFrame: renderings depend on no schedule, fault, clock or history",
    "N03": "pure function of one file's bytes: fidelity of parsing depends on no schedule or fault (failing storage is F01, failing converters F02, listing order and earlier loads D02)",
    "N04": "the view's event handlers run one after the other in one thread, on layouts of a drawing library (D3) and a browser's DOM that cannot run here, from a bundle that cannot be rebuilt offline; what a sequence of clicks should show is stated nowhere, so there is no reference to compare with (the data the view gets, and the queries it hands over, are R01)",
}
