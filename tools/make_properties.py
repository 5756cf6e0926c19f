"""Writes /verif/properties.jsonl (kept as a script because long JSON lines are hard to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

GF="hatchet/graphframe.py"; G="hatchet/graph.py"; N="hatchet/node.py"

prop("C01","Parallel filtering equals sequential filtering under every schedule",
 "Filtering a GraphFrame with a user-supplied callable in several worker processes gives the same GraphFrame as filtering it in one process: the same rows with the same values in the same order, indexed by the same node objects of the graph, and after squashing the same graph and metrics. This holds for every number of workers (also more workers than rows) and whatever order or speed the workers run and deliver in.",
 ["schedules","inputs","configurations"],
 "Every GraphFrame (single and multi index), every deterministic predicate, every worker count, and every interleaving of worker start, work, delivery and exit.",
 "The tests filter a few small frames on an idle machine, where workers practically always deliver in start order, and only compare sums or node sets; the delivery orders a loaded machine produces are never seen.",
 [GF],[("worker fan-out and collection of partial frames",GF+" filter()"),("per-worker row selection",GF+" parallel_apply()"),("grouping of selected rows",GF+" squash()")],
 [("partial frames","what each worker selected, in the order the parent receives it")],["the GraphFrame returned by filter()"])

prop("C02","A failing worker makes a parallel filter fail promptly, never hang or drop rows",
 "When a worker of a parallel filter raises, is killed, or dies before it has handed over its whole result, the filter call ends by raising an error; it never waits forever and never returns a GraphFrame that lacks rows the predicate selects. Slow or stalled workers only delay the answer, results larger than any pipe buffer are delivered completely, and the filtered GraphFrame is left unchanged either way.",
 ["fault_sequences","schedules","crash_points"],
 "Every subset of workers failing, at every point between start and exit, under every interleaving, together with arbitrary delays and result sizes.",
 "No test kills a worker or lets a predicate raise inside one; a hang would only be visible as a test timeout.",
 [GF],[("worker start, result transfer and join",GF+" filter()"),("worker body",GF+" parallel_apply()")],
 None,["termination and outcome of filter()"])

prop("C03","HPCToolkit loading is complete and independent of worker schedule",
 "Loading an HPCToolkit database yields, for every calling-context node, rank and thread, exactly the metric values stored for that node in that rank's and thread's metric file (less the statement children's exclusive share), with rank and thread labels matching the file they came from. The result is identical whatever number of reader processes is used, in whatever order they run, and in whatever order the directory lists its files.",
 ["schedules","inputs","configurations"],
 "Every database (ranks x threads x nodes x metrics, CPU and GPU-stream threads), every assignment and interleaving of reader workers, every directory listing order.",
 "The tests load two recorded databases and check sizes and a few values, with whatever schedule the machine happens to produce.",
 ["hatchet/readers/hpctoolkit_reader.py","hatchet/cython_modules/reader_modules.pyx"],
 [("parallel metric-file reading into one shared array","hpctoolkit_reader.py read_all_metricdb_files(), read_metricdb_file()"),("placement of a rank's and thread's block","hpctoolkit_reader.py read_metricdb_file()"),("statement metric subtraction","reader_modules.pyx subtract_exclusive_metric_vals")],
 [("shared metrics array","one row per node, rank and thread")],["GraphFrame.from_hpctoolkit()"])

prop("C04","Damaged or unreadable HPCToolkit data is rejected, never filled in",
 "If any metric file of an HPCToolkit database is shorter than the node and metric counts require, cannot be opened or read, or a reader worker fails while processing it, loading ends with an error. It never returns metric values that are not in the files, never silently leaves values out, and never waits forever.",
 ["fault_sequences","crash_points","inputs"],
 "Every metric file truncated at every length, every open or read failing in any worker, every worker failing at any point, under every worker schedule.",
 "No test loads a damaged database; there are arbitrarily many truncation points and failing workers.",
 ["hatchet/readers/hpctoolkit_reader.py"],
 [("metric file read","hpctoolkit_reader.py read_metricdb_file()"),("worker pool","hpctoolkit_reader.py read_all_metricdb_files()")],None,["GraphFrame.from_hpctoolkit()"])

prop("S01","An HDF5 checkpoint restores the GraphFrame that was saved",
 "Saving a GraphFrame to HDF5 and loading it again, also in a fresh process, gives back an equal GraphFrame: the same graph shape, frames, depths and traversal order, the same rows, columns and values under the same index, the same metric lists and default metric, with the table indexed by the nodes of the restored graph. This holds after any sequence of analysis operations, of saves under other keys and of overwriting saves, and saving never changes the GraphFrame being saved.",
 ["histories","inputs","crash_points"],
 "Every GraphFrame reachable by analysis operations (trees and DAGs, single and multi index, unsquashed filters, merged graphs), every history of saves and loads with process restarts between them.",
 "One test round-trips one small single-index GraphFrame; shapes, multi-index frames and histories of saves are never combined.",
 ["hatchet/writers/dataframe_writer.py","hatchet/writers/hdf5_writer.py","hatchet/readers/dataframe_reader.py","hatchet/readers/hdf5_reader.py",GF],
 [("flattening graph edges into columns","dataframe_writer.py _fill_children_and_parents()"),("rebuilding edges from node ids","dataframe_reader.py _reconstruct_graph()")],
 [("children/parents columns","ids of the neighbours of each row's node")],["GraphFrame.to_hdf()","GraphFrame.from_hdf()"])

prop("S02","HDF5 checkpoint failures are reported, never read back as data",
 "If the storage fails while a checkpoint is being written (full disk, I/O error, interruption), the save raises, the in-memory GraphFrame is unchanged, and a later save to a healthy location works. A checkpoint file cut short at any length, or otherwise left incomplete by an interrupted first save, is either rejected when loaded or gives exactly the GraphFrame that was being saved, never a different one.",
 ["crash_points","fault_sequences","histories"],
 "Every failing write during a save, every truncation length of a written file, every interruption point of a save, within histories of saves and loads.",
 "The tests write to a healthy temporary directory only.",
 ["hatchet/writers/dataframe_writer.py","hatchet/writers/hdf5_writer.py","hatchet/readers/dataframe_reader.py",GF],
 [("checkpoint write","hdf5_writer.py _write_dataframe_to_file()"),("working copy that is flattened","dataframe_writer.py write()")],None,["GraphFrame.to_hdf()","GraphFrame.from_hdf()"])

prop("S03","A JSON checkpoint restores the GraphFrame, and a torn one is rejected",
 "Writing a GraphFrame as JSON text and reading it back, also in a fresh process, gives an equal graph (shape, frames, depths, node ids), the same rows and values under the same index, and the same inclusive and exclusive metric lists; a further round trip changes nothing. Text cut short at any point is rejected with an error instead of giving a smaller GraphFrame, and writing never changes the GraphFrame.",
 ["histories","inputs","crash_points"],
 "Every GraphFrame reachable by analysis operations whose cell values JSON can represent (trees and DAGs, several roots, single and multi index), every truncation point, every number of round trips with restarts between them.",
 "Two tests round-trip one literal graph; multi-rooted graphs, shared children and multi-index frames are not covered.",
 [GF,"hatchet/readers/json_reader.py"],
 [("graph and table serialisation",GF+" to_dict(), to_json()"),("node table and edge reconstruction","json_reader.py read()")],None,["GraphFrame.to_json()","GraphFrame.from_json()"])

prop("S04","The profiler never overwrites or loses a profile it has written",
 "Every profile dump creates a new file that holds exactly the profile collected at that moment, and no dump changes or replaces a file that already exists, whatever the clock reads: several dumps within one second, a clock stepped backwards, or the same time on another day. If writing fails, the caller gets an error and earlier files keep their content.",
 ["histories","schedules","fault_sequences"],
 "Every sequence of start, stop, reset and write calls with any file names (including already existing ones), any clock readings, and any failing write.",
 "The tests dump once or twice into a clean directory at real time; a third dump in the same second never happens.",
 ["hatchet/util/profiler.py"],
 [("output name from wall-clock time","profiler.py write_to_file()")],[("output directory","the set of profile files and their contents")],["files in the working directory"])

prop("T01","The phase timer accounts every phase's elapsed time exactly once",
 "The time reported for each phase is the sum of all intervals during which that phase was the active one, where starting a phase ends the one that was active: time already recorded for a phase is never discarded when the phase is entered again or replaced by another phase, and no interval is counted twice or for another phase. A scoped phase whose body raises is closed with its time recorded, and the exception reaches the caller.",
 ["histories","schedules","fault_sequences"],
 "Every sequence of starting, ending and scoped phases with repeated names, any clock readings between them, and bodies that raise.",
 "The timer has no tests of its own, and it reads the real clock, so exact sums cannot be asserted.",
 ["hatchet/util/timer.py"],
 [("phase switch and accumulation","timer.py start_phase(), end_phase(), phase()")],[("times","accumulated duration per phase name")],["str(timer) and its per-phase totals"])

prop("D01","Analysis results do not depend on memory addresses or hash seeds",
 "The same sequence of analysis operations on the same input gives the same result in every run: graphs with the same nodes, node ids and traversal order, tables with the same rows, row order, columns and values, and the same metric lists in the same order. In particular the result does not depend on the memory addresses at which nodes were allocated or on the interpreter's hash randomisation.",
 ["schedules","configurations","histories"],
 "Every assignment of memory addresses to nodes (including reuse), every hash seed, every history of construction, filter, query, squash, union, arithmetic, copy, aggregation and serialisation.",
 "The tests run under one fixed hash seed and one allocator history; an order that depends on addresses shows only now and then.",
 [N,G,GF,"hatchet/query/engine.py"],
 [("tie-breaking by address",N+" traversal_order()"),("choice of merge target",G+" find_merges()"),("node maps keyed by address",G+" union()"),("metric lists built from sets",GF+" update_inclusive_columns(), generate_exclusive_columns()")],None,["results of all GraphFrame operations"])

prop("D02","A loaded profile does not depend on listing order, hash seed or earlier loads",
 "Reading the same profile data gives the same GraphFrame every time: the order in which the operating system lists a profile's directory, the interpreter's hash seed, and what the process has read before (including reads that failed) do not change its graph, table, column order, metric lists or default metric.",
 ["configurations","histories","schedules"],
 "Every directory listing order, every hash seed, every history of earlier successful and failed loads in the same process, for every multi-file and single-file profile reader.",
 "Each test reads fixture files once per format under one file system order and one hash seed.",
 ["hatchet/readers/hpctoolkit_reader.py","hatchet/readers/tau_reader.py","hatchet/readers/timemory_reader.py","hatchet/readers/spotdb_reader.py","hatchet/readers/caliper_reader.py","hatchet/readers/caliper_native_reader.py"],
 [("directory listing","tau_reader.py, timemory_reader.py, hpctoolkit_reader.py"),("metric column sets","spotdb_reader.py"),("module-level counters and variables","caliper_reader.py, hpctoolkit_reader.py")],None,["GraphFrame.from_*()"])

prop("Q01","A query's answer depends only on the query and the data",
 "Applying a call-path query to a GraphFrame returns exactly the nodes on paths of the graph that match the query's pattern, and compound queries return exactly the intersection, union, symmetric difference or complement of their parts. The answer is the same whatever queries ran before on the same GraphFrame or on others, whether earlier ones failed part-way, and whether a predicate itself runs further queries.",
 ["histories","fault_sequences","inputs"],
 "Every history of queries (object, string, base and compound form) on any GraphFrames with changing tables, with predicates that raise at any evaluation or run queries themselves.",
 "The tests run each query once on a fresh GraphFrame; caches carried over from failed or nested queries are never exercised.",
 ["hatchet/query/engine.py","hatchet/query/compound.py","hatchet/query/compat.py","hatchet/query/object_dialect.py","hatchet/query/string_dialect.py",GF],
 [("per-engine match cache keyed by node id","engine.py _cache_node(), reset_cache()"),("set combination of sub-results","compound.py _apply_op_to_results()"),("module-level engine for old-style queries","compat.py COMPATABILITY_ENGINE")],
 [("search cache","which query nodes each graph node matches")],["GraphFrame.filter() and query apply()"])

prop("Q02","Read-only analyses of a shared GraphFrame can run in concurrent threads",
 "When several threads run operations that do not modify their input (queries, filters, squash, copies, arithmetic, rendering and export) on the same GraphFrames at the same time, each gets exactly the result it would get alone and the shared GraphFrames are unchanged afterwards. This holds for every interleaving of the threads.",
 ["schedules"],
 "Every interleaving, at source-line granularity, of two or more threads each running a sequence of non-modifying operations on shared GraphFrames.",
 "No test uses threads, and the windows in which an operation temporarily changes shared state are far too short to be hit by accident.",
 [GF,"hatchet/query/engine.py","hatchet/query/compat.py","hatchet/external/console.py"],
 [("query cache shared by all uses of a GraphFrame","engine.py search_cache"),("temporary index reset on the operand",GF+" squash()")],None,["results and operands of the operations"])

prop("Q03","Profiles can be loaded in concurrent threads",
 "When several threads load profiles at the same time, of the same or of different formats, the same or different files, each load gives exactly the GraphFrame it would give alone: the same graph and frames, rows, values, metric lists and metadata. This holds for every interleaving of the threads.",
 ["schedules"],
 "Every interleaving, at source-line granularity, of two or more threads each loading a sequence of profiles with any of the readers.",
 "No test loads profiles in threads; state that readers would share by accident is overwritten for moments only.",
 ["hatchet/readers/hpctoolkit_reader.py","hatchet/readers/caliper_reader.py","hatchet/readers/tau_reader.py","hatchet/readers/timemory_reader.py",GF],
 [("state of a load","hpctoolkit_reader.py parse_xml_node(); the other readers' instances"),("process pool per load","hpctoolkit_reader.py read_all_metricdb_files()")],None,["GraphFrame.from_*() in threads"])

prop("A01","An operation that fails leaves the GraphFrames it was given unchanged",
 "If an operation that returns a new object (filter, squash, copy, add, sub, mul, div, queries, group-by aggregation, rendering, export and saving) ends with an error, for instance because a user-supplied function raises, memory runs out or the user interrupts it at any point, all GraphFrames it was given have the same graph, table, index and metric lists as before and remain usable. In-place arithmetic never changes its right operand, and dropping index levels with a failing aggregation function leaves the GraphFrame unchanged.",
 ["crash_points","fault_sequences","inputs"],
 "Every operation, every GraphFrame, every point in the operation at which an exception can be raised (user callback, allocation failure, keyboard interrupt).",
 "Tests only run operations to completion or make them fail at argument checks; the number of interruption points is far beyond what tests enumerate.",
 [GF,G],
 [("temporary in-place index changes",GF+" squash(), drop_index_levels()"),("working copies",GF+" add(), sub(), copy(), deepcopy()")],None,["operands after a failed call"])

prop("A02","GraphFrame arithmetic gives the right values and preserves its operands",
 "Adding, subtracting, multiplying or dividing two GraphFrames gives a GraphFrame over the union of their call paths in which every row of a call path present in both has exactly the element-wise result of each metric, call paths only in the left operand keep their values, call paths only in the right operand have missing metrics, and one-sided call paths are flagged as missing on the other side (for operands with the same metrics, ranks and threads). The operands are not modified, also when they share a graph or are copies of one another; the in-place forms give the same result in the left operand and never modify the right one.",
 ["histories","inputs"],
 "Every pair of GraphFrames reached by any history of operations (shared graphs, shallow and deep copies, same object twice, disjoint, overlapping, single and multi index), every operator, repeated in any sequence.",
 "The tests use freshly built separate GraphFrames; operands with a common history (same graph object, copy of the other) are not covered.",
 [GF,G,"hatchet/cython_modules/graphframe_modules.pyx"],
 [("graph union and node mapping",G+" union(), "+GF+" unify()"),("missing rows",GF+" _insert_missing_rows(), graphframe_modules.pyx"),("operator application",GF+" _operator()")],None,["add/sub/mul/div and operators"])

prop("A03","Filter and squash keep exactly the selected call paths and conserve metrics",
 "Squashing a filtered tree-shaped GraphFrame keeps exactly the selected nodes: each retained node's nearest retained ancestor becomes its parent, nodes that end up with the same call path are merged, merged rows carry the sums of their metrics and the other columns of the first merged row, and nothing else is lost, duplicated or moved. Summed over all rows, exclusive metrics are unchanged by squashing, and inclusive metrics are recomputed as the sums over the new subgraph when requested and otherwise only merged.",
 ["histories","inputs"],
 "Every tree-shaped GraphFrame (also several roots, equal sibling frames, multi index, missing values), every selection, every number of filter and squash steps in sequence, and for shared-children graphs the conservation part.",
 "The tests check a few literal graphs; cascading merges across levels and histories of filters are not covered.",
 [GF,G],
 [("transitive rewiring",GF+" squash() rewire"),("merging equal siblings",G+" find_merges(), merge_nodes()"),("row aggregation",GF+" squash()")],None,["filter() and squash() results"])

prop("A04","GraphFrames derived from one another are independent afterwards",
 "Changing a GraphFrame that an operation returned (assigning or adding columns, changing cells, metric lists or metadata, in-place arithmetic, adding exclusive or inclusive columns, dropping index levels) never changes the GraphFrame it was derived from, any other GraphFrame derived from it, or any unrelated GraphFrame, and the other way round. A deep copy and a squashed, filtered, combined or reloaded GraphFrame share no changeable state with their origin; a shallow copy shares only the graph and the stored cell values, an unsquashed filter arithmetic on GraphFrames over one graph and the timesteps of one Caliper file share only that graph, and what is exported (literals, dictionaries, metric listings) shares nothing.",
 ["histories"],
 "Every history that interleaves deriving GraphFrames from one another with modifying operations on any of them.",
 "Tests look at the object an operation returns, not at what a later change to it does to its relatives.",
 [GF],
 [("metric lists and metadata handed on by reference",GF+" filter(), squash(), groupby_aggregate(), __init__()"),("partially shallow copy",GF+" copy(), deepcopy()")],
 [("exc_metrics, inc_metrics, metadata, dataframe","per-GraphFrame state")],["all live GraphFrames after each operation"])

prop("A05","Graph and table stay consistent through every history of operations",
 "After any sequence of reading, filtering, squashing, copying, combining, aggregating, serialising and reloading, the graph's parent and child links match without repetitions and its roots have no parents (except that squashing a graph with shared children may keep a node both as a root and as a child, and that groups of aggregated nodes may call each other), node ids are distinct, in a tree every node is one level deeper than its parent, every table row belongs to a node of that graph, no two rows have the same labels, and every row can be looked up by its node. Every listed metric is a column of the table.",
 ["histories"],
 "Every history of operations of any length on any GraphFrames, also histories in which some operations failed.",
 "Tests check single operations on small graphs; broken links or stale ids appear only after certain sequences.",
 [GF,G,N],
 [("renumbering nodes that are hash keys of the table's index",G+" enumerate_traverse()"),("relinking on merge, copy, union and squash",G+" merge_nodes(), copy(), union(), "+GF+" squash()")],None,["graph, dataframe and metric lists of every result"])

prop("A06","Inclusive and exclusive metrics stay consistent with the graph",
 "Recomputing inclusive columns gives every row the sum of the exclusive metric over its node and all distinct descendants, separately for each rank and thread, with missing values counting as nothing unless all are missing; on graphs with shared children each node counts once. Generating exclusive columns from inclusive ones and recomputing the inclusive columns afterwards gives the original values back on trees, and repeating either step changes nothing. Dropping the index levels leaves exactly one row per node, which holds the requested aggregate of each metric over the rows of the node.",
 ["inputs","histories"],
 "Every tree and DAG, every metric assignment with missing values, single and multi index (also ranks lacking some nodes only where the operation supports it), every sequence of recomputations in place or into new columns.",
 "The tests compare a handful of literal graphs with hand-written numbers.",
 [GF],
 [("post-order accumulation",GF+" subtree_sum()"),("subgraph accumulation",GF+" subgraph_sum()"),("metric generation",GF+" generate_exclusive_columns(), update_inclusive_columns()"),("aggregation over ranks and threads",GF+" drop_index_levels()")],None,["metric columns after the calls"])

prop("F01","Storage failures while loading a profile are raised, never swallowed",
 "If a profile file cannot be opened or a read of it fails at any point (missing file, permission, I/O error, file vanishing between listing and opening), every reader raises an error to the caller; it never returns nothing and never returns a GraphFrame built from part of the data. After the failure the same process can load intact profiles correctly.",
 ["fault_sequences","crash_points"],
 "Every file reader, every file it opens, every open and read call failing, in histories that mix failing and successful loads.",
 "Tests read intact fixture files; an I/O error at the n-th read is never produced.",
 [GF,"hatchet/readers/timemory_reader.py","hatchet/readers/tau_reader.py","hatchet/readers/caliper_reader.py","hatchet/readers/caliper_native_reader.py","hatchet/readers/pyinstrument_reader.py","hatchet/readers/gprof_dot_reader.py","hatchet/readers/cprofile_reader.py","hatchet/readers/hpctoolkit_reader.py"],
 [("error handling around readers",GF+" from_timemory()"),("file opening and parsing","hatchet/readers/*.py")],None,["GraphFrame.from_*()"])

prop("F02","A failing cali-query conversion is reported, never taken for a profile",
 "When a Caliper file is converted by the external cali-query program and that program cannot be started, exits with an error, is killed, or stops after part of its output, loading raises an error rather than returning a GraphFrame built from incomplete output. A program that is merely slow or delivers its output in small pieces yields the same GraphFrame as a fast one, and no converter process is left behind unreaped.",
 ["fault_sequences","schedules","crash_points"],
 "Every exit status, every amount of output delivered before the program ends, every chunking and delay of its output.",
 "cali-query is not installed where the tests run, so the tests of this path are skipped.",
 ["hatchet/readers/caliper_reader.py"],
 [("converter pipe","caliper_reader.py read()")],None,["GraphFrame.from_caliper(file, query)"])

prop("R01","Data exchanged with notebook visualisations arrives unchanged",
 "A value handed to a notebook visualisation through the bridge arrives in the page as exactly that value, also when its text contains quotes, backslashes, line breaks or other special characters, and a value the page stores for Python is read back as exactly that value. A Python variable bound to page variables reaches each of them, converted as that binding says, when a cell assigns to it, and a value the page stores in a variable bound both ways reaches the Python variable. Values sent for different visualisations or at different times are not mixed up, whatever order the page processes them in, and the code of each visualisation works on its own place of the page.",
 ["inputs","schedules","histories"],
 "Every text content of the data, every sequence of sends and fetches by several visualisations, every order in which the page side handles messages.",
 "The bridge tests check that a few plain strings were registered; they never evaluate the generated page code on awkward data.",
 ["hatchet/external/roundtrip/roundtrip/manager.py","hatchet/external/roundtrip/roundtrip/roundtrip.js","hatchet/vis/loader.py"],
 [("assignment statements generated for the page","manager.py"),("return path from the page to Python","manager.py")],None,["the page's variables; the Python variables"])

# properties this family does not address
prop("N01","String-dialect and object-dialect queries are equivalent",
 "A query written in the string dialect and the same query written in the object dialect select the same nodes of every GraphFrame.",
 ["inputs","programs"],"Every well-formed query of the string language and every GraphFrame.",
 "The tests compare a fixed list of query pairs.",
 ["hatchet/query/string_dialect.py","hatchet/query/object_dialect.py"],[("grammar and predicate generation","string_dialect.py"),("attribute filters","object_dialect.py")])
prop("N02","Renderings show exactly the GraphFrame's nodes and values",
 "The tree, DOT and flame-graph renderings of a GraphFrame contain every node of its graph once per call path position, in traversal order, with the metric value of the requested rank and thread.",
 ["inputs"],"Every GraphFrame and every combination of rendering options.",
 "The tests look for a few substrings.",
 ["hatchet/external/console.py","hatchet/util/dot.py",GF],[("tree rendering","console.py"),("dot export","dot.py"),("folded stacks",GF+" to_flamegraph()")])
prop("N03","Single-file profile formats are parsed faithfully",
 "Reading a pstats, pyinstrument, gprof2dot, Caliper or timemory file gives one node per recorded calling context with the recorded caller-callee relations and metric values.",
 ["inputs"],"Every well-formed file of each format.",
 "The tests read one or a few recorded files per format.",
 ["hatchet/readers/cprofile_reader.py","hatchet/readers/pyinstrument_reader.py","hatchet/readers/gprof_dot_reader.py","hatchet/readers/caliper_native_reader.py","hatchet/readers/timemory_reader.py"],[("format parsing","hatchet/readers/*.py")])
prop("N04","The interactive calling context view shows the GraphFrame faithfully",
 "Whatever a user clicks in the notebook's calling context view (collapsing, expanding, pruning by metric ranges, switching metrics), the view shows every node of the GraphFrame once, by itself or within one aggregate, and the query it exports selects the nodes that are shown.",
 ["inputs","histories"],"Every GraphFrame and every sequence of interactions.",
 "No test runs the view's code.",
 ["hatchet/vis/scripts/cct/cct_model.js","hatchet/vis/scripts/cct/cct_repr.js","hatchet/vis/static/cct_bundle.js"],[("model of the view","cct_model.js"),("aggregation","cct_repr.js")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
