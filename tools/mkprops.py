#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

T = "pipit/trace.py"
prop("C01", "Enter and Leave events are paired exactly",
 "Matching pairs every Leave row with the latest still unpaired earlier Enter row of the same function on the same process (and same thread, when the trace has threads), and leaves it unpaired if there is none. Pairing is symmetric: both rows of a pair record the other's row number and timestamp. Enter/Leave rows without a partner and rows of every other event type record no match.",
 ["inputs"], "every events table in time order with rows numbered 0..n-1: any number of processes and threads, any names, any interleaving, unmatched Enters and Leaves, ties, instant events, empty tables",
 "the one test looks at one well-nested ping-pong trace in which all calls but main are leaf calls; orphan Leaves, crossings, recursion, threads and interleavings are never reached",
 [T], [("Trace._match_events: per-location stack searched from the top", T)],
 [("_matching_event / _matching_timestamp", "row number and timestamp of the partner, null if none", T)],
 ["columns _matching_event and _matching_timestamp of Trace.events"])
prop("C02", "Depth, parent and children describe the call nesting",
 "For calls that are properly nested on each process/thread, every matched Enter row's parent is the innermost matched call open on its process/thread when it is entered (none for an outermost call), its depth is the number of matched calls then open, and its children are exactly the row numbers of its direct callees, in order of entry (none if it has no callees). Leave rows, unmatched rows and rows of other event types record no depth, no parent and no children.",
 ["inputs"], "every events table in time order, rows 0..n-1, whose matched calls nest properly per process/thread; arbitrary unmatched events, other event types, interleavings, nesting depths",
 "the test counts non-null parents and children on one two-process trace of depth 1",
 [T], [("Trace._match_caller_callee: per-location stack of open matched Enters", T)],
 [("_depth, _parent, _children", "call-tree structure of Enter rows", T)],
 ["columns _depth, _parent, _children of Trace.events"])
prop("C03", "Inclusive metrics are Leave value minus Enter value",
 "For each requested numeric column (all numeric columns of the trace if none is requested), the inclusive metric of every matched Enter row is the column's value at its matching Leave row minus its value at the Enter row, and every other row has no value. It is stored as time.inc for the timestamp column and as <column>.inc for any other, listed once among the trace's inclusive metrics, and computing metrics changes no existing column.",
 ["inputs"], "every events table, any set of numeric columns, any requested subset, in any number of calls",
 "no test asserts any value of an inclusive metric other than indirectly through one time profile",
 [T], [("Trace.calc_inc_metrics", T), ("Trace._match_events", T)],
 [("inc_metrics", "names of the computed inclusive columns", T)], ["*.inc columns of Trace.events", "Trace.inc_metrics"])
prop("C04", "Exclusive metrics subtract the direct callees only",
 "For each requested numeric column, the exclusive metric of every matched Enter row is its inclusive metric minus the sum of the inclusive metrics of its direct callees, and every other row has no value; so on each process/thread the exclusive values add up to the inclusive values of the outermost calls. It is stored as time.exc or <column>.exc and listed once among the trace's exclusive metrics.",
 ["inputs"], "every events table whose matched calls nest properly per process/thread, any call-tree shape, any numeric columns",
 "only one trace of depth 1, through time_profile; deeper nesting, several children, unmatched rows and other metric columns are not reached",
 [T], [("Trace.calc_exc_metrics", T), ("Trace._match_caller_callee", T)], [("exc_metrics", "names of the computed exclusive columns", T)],
 ["*.exc columns of Trace.events", "Trace.exc_metrics"])
prop("C05", "The calling context tree has one node per distinct call path",
 "Building the calling context tree of a trace with properly nested calls creates exactly one node for every distinct call path (the sequence of names of the functions open on a process/thread, ending with the one entered), shared by all processes and threads, each with a different id. A node's parent is the node of the path without its last function, its level is the path's length minus one, and it is listed exactly once, among its parent's children or, at level 0, among the roots. Every Enter row refers to the node of its own call path; every other row refers to none.",
 ["inputs"], "every events table in time order whose calls nest properly per process/thread (calls may be cut off at either end: Leaves without an Enter, Enters never left); any function names, including names that contain any characters; any number of locations",
 "no test builds a calling context tree from events",
 ["pipit/util/cct.py", "pipit/graph.py", T], [("create_cct: call-path map and per-location stacks", "pipit/util/cct.py"), ("Node/Graph", "pipit/graph.py")],
 [("Graph_Node", "node of each Enter row", "pipit/util/cct.py")], ["Trace.cct.roots, Node.children/parent/level", "column Graph_Node"])
prop("C06", "Tree node queries agree with the tree",
 "A node's level is its number of ancestors. The intersection of two nodes is their deepest common ancestor, where a node counts as its own ancestor, and is none if they lie in different trees or if the other node is none. The node list for a minimum level is the node followed by its ancestors in upward order, restricted to levels above that minimum.",
 ["inputs"], "every forest of nodes with distinct ids, every pair of nodes, every minimum level",
 "no test calls these operations directly; the HPCToolkit reader test reaches a few pairs of one tree",
 ["pipit/graph.py"], [("Node.get_intersection, get_node_list, _calculate_level, __eq__", "pipit/graph.py")], [], ["return values of Node methods"])
prop("C07", "The communication matrix accounts for every message once",
 "For a trace whose processes are numbered 0..P-1, comm_matrix is a P x P table whose entry [s][r] is the total size in bytes ('size') or the number ('count') of the blocking and non-blocking point-to-point send events recorded on process s whose receiver is r; no other event contributes. comm_by_process reports, for every process, its row total as Sent and its column total as Received.",
 ["inputs"], "every events table: any number of processes, any mix of MpiSend, MpiIsend and other events, any sizes, repeated pairs, self-messages",
 "the test has one symmetric two-process trace with blocking sends only, so sender and receiver swapped, self-messages or non-blocking sends would not show",
 [T], [("Trace.comm_matrix, Trace.comm_by_process", T)], [], ["returned matrix and table"])
prop("C08", "Message histograms place every message in exactly one bin",
 "comm_over_time divides the whole time span of the trace (first to last event of any kind) into the requested number of equal intervals and adds each blocking or non-blocking send (or receive, if asked) to the interval of its timestamp, with its size in bytes or as 1 for 'count'; so the bins add up to the total over all such events. message_histogram counts every blocking or non-blocking send once, by its size.",
 ["inputs"], "every events table with message events, either output, either direction, any bin count; extra numpy histogram arguments passed through",
 "the test uses five bins on one trace where all messages fall into the last bin, and message_histogram is not tested",
 [T], [("Trace.comm_over_time, Trace.message_histogram (numpy.histogram is trusted)", T)], [], ["returned histogram and edges"])
prop("C09", "Flat profiles aggregate every call once",
 "With per_process set, flat_profile gives, for each group and each process on which the group occurs, the sum of the metric over the group's Enter rows on that process, ignoring rows without a value. Otherwise it gives for each group the mean of these per-process sums over the processes on which the group occurs. Metrics may be one name or a list of names, and groups may be formed by one column or by a list of columns.",
 ["inputs"], "every events table, metric(s) among the available ones, grouping by one or several columns, both modes",
 "no test calls flat_profile",
 [T], [("Trace.flat_profile", T), ("calc_inc_metrics / calc_exc_metrics", T)], [], ["returned table"])
prop("C10", "Load imbalance is maximum over mean across processes",
 "For every function that has Enter rows, load_imbalance reports the mean over the processes executing it of the function's total metric per process, the ratio of the largest of these totals to that mean, and the requested number of processes with the largest totals in descending order (all of them if there are fewer). Functions are listed by descending mean.",
 ["inputs"], "every events table with positive metric totals, any number of processes and functions, any requested number of ranks, time.inc or time.exc",
 "no test calls load_imbalance",
 [T], [("Trace.load_imbalance", T), ("Trace.flat_profile", T)], [], ["returned table"])
prop("C11", "Idle time sums the idle functions of each process",
 "idle_time reports for every process of the trace, once, the sum of the inclusive times of its Enter rows whose function is one of the idle functions ('Idle' by default), to which MPI_Wait, MPI_Waitall and MPI_Recv are added only when MPI events are requested in that call. The result does not depend on earlier calls, and a list passed by the caller is not changed.",
 ["inputs", "histories"], "every events table, every list of idle functions, with and without MPI events, every sequence of such calls",
 "no test calls idle_time",
 [T], [("Trace.idle_time, Trace._calculate_idle_time_for_process", T)], [], ["returned table", "the caller's list"])
prop("C12", "Time profiles divide all time among functions and idle time",
 "time_profile splits the trace's span into num_bins equal intervals; a function's value in an interval is the part of that interval spent in its matched calls but not in their direct callees, summed over all processes, and idle_time is the width times the number of processes that enter any function, minus the sum of all functions' values. So each function's values add up to its total exclusive time. Values below 0.01 ns are reported as 0, and with normalized every value is divided by that same width times number of processes.",
 ["inputs"], "every events table of single-threaded processes with properly nested calls and a positive time span, any number of bins, any alignment of calls and bins",
 "one trace, one number of bins; no nesting deeper than one and no call boundaries on interval edges",
 [T], [("Trace.time_profile: four overlap cases and per-bin subtraction of callees", T)], [], ["returned table"])
prop("C13", "Multi-run analysis lines up the runs' flat profiles",
 "multirun_analysis returns one row per trace, in the order given and labelled with the trace's number of processes; each entry is that trace's flat-profile value (mean over processes of the exclusive metric's per-process sum) for the group, and is missing where the group does not occur in that trace. The columns are exactly the groups that occur in any of the traces, by descending total over the traces.",
 ["inputs"], "every list of traces, any overlap of function names and process counts, any numeric metric column",
 "no test calls multirun_analysis",
 [T], [("Trace.multirun_analysis", T)], [], ["returned table"])
prop("C14", "Analyses never alter the trace or each other's results",
 "Whatever analyses were run on a trace before, in any order and any number of times, an analysis returns what it returns on a freshly read copy of the trace. No analysis or export changes a value, the order, the number or the row numbers of the original events; they only add derived columns.",
 ["histories", "inputs"], "every sequence of matching, metrics, calling-context-tree, communication, profile, idle-time, time-profile and export calls on every well-formed events table",
 "the tests run each analysis on a fresh trace and never compare the trace before and after",
 [T, "pipit/util/cct.py", "pipit/writers/chrome_writer.py"],
 [("'if column not in self.events.columns' caches; frame of every method", T)],
 [("derived columns", "a derived column, once present, holds its specified values", T)], ["Trace.events", "all return values"])
prop("C15", "Configuration options always hold valid values",
 "An option's value is its default until set or after it is reset, and otherwise the value it was last successfully set to. Setting an option to a value it does not accept (log_level accepts only the five level names, notebook_url only http:// and https:// URLs), or naming an option that does not exist, raises an error and changes no option; a successful call changes only the named option, and resetting 'all' restores every default.",
 ["histories", "inputs"], "every sequence of get, set and reset calls with arbitrary keys and values",
 "the tests try a handful of keys and values and never reset; they do not look at other options after a call",
 ["pipit/util/config.py"], [("get_option, set_option, reset_option and the validators", "pipit/util/config.py")],
 [("global_config", "current option values", "pipit/util/config.py")], ["get_option results, raised errors"])
prop("C16", "Reading a CSV trace keeps every event, in time order",
 "Every record of the file becomes exactly one row with all its values, timestamps given in seconds being converted to nanoseconds. Rows are in order of increasing timestamp, records with equal timestamps keep their order in the file, and rows are numbered from 0.",
 ["inputs"], "every CSV file with the documented columns in any row order, with any ties, in seconds or nanoseconds, with or without further columns",
 "no test reads a CSV trace",
 [T], [("Trace.from_csv", T)], [], ["Trace.events"])
prop("C17", "Parallel reading does not depend on the number of workers",
 "Reading an OTF2 or Projections trace gives the same events table whatever number of worker processes is requested (including none, more than there are locations, or invalid numbers): every location's (or processor log's) events are read exactly once, none is lost or duplicated, and events with equal timestamps keep their recorded order.",
 ["configurations", "inputs"], "every number of locations / processor logs and every requested worker count",
 "the tests read two-location traces with the default number of workers only",
 ["pipit/readers/otf2_reader.py", "pipit/readers/projections_reader.py"],
 [("division of locations: per_process, remainder, begin_int, end_int", "pipit/readers/otf2_reader.py"), ("same in ProjectionsReader._read_log_file", "pipit/readers/projections_reader.py")],
 [], ["Trace.events"])
prop("C18", "Every Projections log record becomes the right row",
 "Each begin/end record (idle, pack, unpack, processing, computation, interrupt, trace, user event pair) becomes one Enter/Leave row, a bracketed note one Enter and one Leave row, and each creation, multicast creation, message receive, enqueue, dequeue, user event, user event pair summary, memory usage, user-supplied value, user note and user stat record one Instant row: on the process of its log, at its time in microseconds times 1000 (-1 for a user-supplied value, which has none), named by its fixed label or by the name its entry, user event or user stat has in the sts file, with the record's fields as attributes (none on the Leave row of a processing record). Lines of every other kind, broadcast creations included, add nothing. A log whose last row is not a computation row gets a closing Computation Leave at the time of that row.",
 ["inputs"], "every well-formed sts file and set of logs, any mix of record kinds and field values, truncated logs",
 "the sample trace contains 10 of the 28 record kinds, and tests check names and a few counts, never times, processes or attributes",
 ["pipit/readers/projections_reader.py"], [("ProjectionsReader._read_log_file, _add_to_trace_dict", "pipit/readers/projections_reader.py"), ("STSReader", "pipit/readers/projections_reader.py")], [], ["Trace.events"])
prop("C19", "Every OTF2 event becomes the right row",
 "Each Enter or Leave event of a CPU thread becomes one row of that type named after its region, and each other event except metrics one Instant row named after its kind; its timestamp is (ticks - offset) x 10^9 / resolution, its process the location's group, its thread the location's number counted from its process's lowest. Rows other than Leave rows carry the event's attributes. Metric values go to the row of the same location and time, in the metric's own column, and rows without metrics have none.",
 ["inputs"], "every OTF2 archive of CPU-thread locations: any processes, threads, regions, messages, metric definitions, clock offset and resolution",
 "tests count events, names and processes of one archive; no timestamps, threads or metrics are checked",
 ["pipit/readers/otf2_reader.py"], [("OTF2Reader.events_reader, read_definitions, read_events, handle_data, field_to_val", "pipit/readers/otf2_reader.py")], [], ["Trace.events, Trace.definitions"])
prop("C20", "HPCToolkit samples become properly nested calls",
 "For each trace line, replaying its rows in order gives at every sample exactly the call path of the sample's context (from its entry point down, line and instruction contexts standing for their enclosing call or loop), an idle sample leaving nothing open; at the end of the line everything still open is closed at the trace's last timestamp. Between two samples only calls not shared by both paths are closed (innermost first) or opened (outermost first), at the later sample's time relative to the trace's first, and loops use their own Loop Enter/Loop Leave types.",
 ["inputs", "histories"], "every context tree and every sequence of samples per trace line, including idle samples, repeated contexts and contexts in different trees",
 "one sample database; the test compares counts only",
 ["pipit/readers/hpctoolkit_reader.py", "pipit/graph.py"], [("TraceReader.__read_single_trace_header", "pipit/readers/hpctoolkit_reader.py"), ("Node.get_intersection / get_node_list", "pipit/graph.py")], [], ["Trace.events"])
prop("C21", "HPCToolkit database fields are decoded as documented",
 "Names, source files, source lines, load modules, call relations and lexical types of contexts, identifier tuples of profiles, and the string tables are decoded from meta.db, profile.db and trace.db as the format description in FORMATS.md says: little-endian unsigned fields at the documented offsets, arrays traversed with the stored element sizes, strings in UTF-8. So every row carries the rank, thread, core, host, function, file and line that the database records.",
 ["inputs"], "every well-formed version 4 database, any section placement, any (larger) stored element size, any UTF-8 strings, any field values in range",
 "one database, all ASCII, standard element sizes and section order, small line numbers",
 ["pipit/readers/hpctoolkit_reader.py"], [("MetaReader, ProfileReader, TraceReader section readers", "pipit/readers/hpctoolkit_reader.py")], [], ["Trace.events, Trace.cct, MetaReader.get_information_from_context_id"])
prop("C22", "Every Nsight record becomes one Enter and one Leave",
 "Every record of an Nsight report becomes exactly one Enter row at its start time and one Leave row at its end time, both with the record's name and all its other columns. Rows are in order of increasing timestamp, rows with equal timestamps keeping record order with Enters before Leaves, and are numbered from 0. With several processes each gets its own number from 0 up, and when thread ids differ from process ids the threads of each process are numbered distinctly from 0 up.",
 ["inputs"], "every report: any number of records, processes, threads, ties, zero-length records",
 "no test reads an Nsight report",
 ["pipit/readers/nsight_reader.py"], [("NsightReader.read", "pipit/readers/nsight_reader.py")], [], ["Trace.events"])
prop("C23", "Chrome export writes one faithful record per event",
 "The export contains exactly one record per event, in order, with its name, its phase (B for Enter, E for Leave, i for Instant), its time in whole microseconds (nanoseconds divided by 1000, fraction dropped), its process, its thread if the trace has threads and its attributes if the trace has them. It is returned as text, or written to the named file if one is given, and the trace is left unchanged.",
 ["inputs"], "every events table with non-negative timestamps, with and without threads and attributes",
 "no test exports a trace",
 ["pipit/writers/chrome_writer.py", T], [("ChromeWriter.write", "pipit/writers/chrome_writer.py"), ("Trace.to_chrome", T)], [], ["exported JSON"])
prop("C24", "Detected patterns are the best repeats of the metric sequence",
 "The patterns detect_pattern returns are the windows of the start event's metric sequence that repeat with least distance, taken from between the event's first Enter and last Leave.",
 ["inputs"], "every trace with a repeated start event, every window size and number of iterations",
 "no test calls detect_pattern; optimality is over all windows of the sequence",
 [T], [("Trace.detect_pattern (stumpy.stump / stumpy.motifs)", T)], [], ["returned list of tables"])
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
