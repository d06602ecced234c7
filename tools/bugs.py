T, C, G = "pipit/trace.py", "pipit/util/cct.py", "pipit/graph.py"
OT, PJ, HP, NS, CW = ("pipit/readers/otf2_reader.py", "pipit/readers/projections_reader.py", "pipit/readers/hpctoolkit_reader.py", "pipit/readers/nsight_reader.py", "pipit/writers/chrome_writer.py")
BUGS = {}


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw)


bug("match-drop-inner", "C01", [(T, "                            del stack[i + 1]\n\n                            # Fill", "                            del stack[i + 1 :]\n\n                            # Fill")],
    "a call left while a call entered later on the same process is still open (interleaved, not nested)",
    "the Leave of the inner function finds no Enter and both rows stay unmatched",
    '''
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (2, "L", "a", 0), (3, "L", "b", 0)])
t._match_events()
check([val(x) for x in t.events["_matching_event"]], [2, 3, 0, 1], "pairs")
''')
bug("inc-listed-twice", "C03", [(T, "                self.inc_metrics.append(metric_col_name)", "            self.inc_metrics.append(metric_col_name)")],
    "inclusive metrics asked for twice", "the metric is listed twice among the trace's inclusive metrics",
    '''
t = trace([(0, "E", "a", 0), (5, "L", "a", 0)])
t.calc_inc_metrics()
t.calc_inc_metrics()
check(list(t.inc_metrics).count("time.inc"), 1, "times time.inc is listed")
''')
bug("exc-clamped", "C04", [(T, "                self.events[metric_col_name] = exc_values\n", "                exc_values = [0.0 if v < 0 else v for v in exc_values]\n                self.events[metric_col_name] = exc_values\n")],
    "a numeric column other than the timestamp that decreases during a call, or a callee's value larger than its caller's",
    "negative exclusive values become 0",
    '''
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (2, "L", "b", 0), (3, "L", "a", 0)], mem=[10.0, 10.0, 40.0, 20.0])
t.calc_exc_metrics(["mem"])
check([val(x) for x in t.events["mem.exc"]], [-20.0, 30.0, None, None], "mem.exc")
''')
bug("exc-corrupts-inc", "C14", [(T, "                exc_values = self.events[inc_col_name].to_list()\n                inc_values", "                exc_values = self.events[inc_col_name].values\n                inc_values")],
    "looking at an inclusive metric after exclusive metrics were computed",
    "the inclusive column is overwritten by exclusive values",
    '''
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (2, "L", "b", 0), (5, "L", "a", 0)])
t.calc_inc_metrics()
t.calc_exc_metrics()
check([val(x) for x in t.events["time.inc"]], [5.0, 1.0, None, None], "time.inc")
check([val(x) for x in t.flat_profile(metrics=["time.inc"])["time.inc"]], [5.0, 1.0], "flat profile")
''')
bug("cct-leaked-stack", "C05", [(C, "        # stacks used to iterate through the trace and add nodes to the cct\n        functions_stack, nodes_stack = [], []\n", ""),
                               (C, "    node_id = 0  # each node has a unique id\n", "    node_id = 0  # each node has a unique id\n\n    # stacks used to iterate through the trace and add nodes to the cct\n    functions_stack, nodes_stack = [], []\n")],
    "a trace cut off while calls are still open on some process, and another process with calls",
    "call paths of later processes start with the functions still open on an earlier one",
    '''
t = trace([(0, "E", "a", 0), (1, "E", "a", 1), (2, "E", "b", 1)])
t.create_cct()
n = list(t.events["Graph_Node"])
check(n[0]._pipit_nid, n[1]._pipit_nid, "node of the call path (a)")
check(len(t.cct.roots), 1, "roots")
check([c._pipit_nid for c in n[0].children], [n[2]._pipit_nid], "children")
''')
bug("intersection-of-trees", "C06", [(G, "        while node1 != node2:\n            node1 = node1.parent\n            node2 = node2.parent\n", "        while node1 != node2 and node1.parent is not None:\n            node1 = node1.parent\n            node2 = node2.parent\n")],
    "two nodes of different trees", "their intersection is a root instead of none",
    '''
from pipit.graph import Node
a, b = Node(0, None), Node(1, None)
check(a.get_intersection(b), None, "intersection")
''')
bug("comm-no-isend", "C07", [(T, '        # filter the dataframe by MPI Send and Isend events\n        sender_dataframe = self.events.loc[\n            self.events["Name"].isin(["MpiSend", "MpiIsend"]),', '        # filter the dataframe by MPI Send and Isend events\n        sender_dataframe = self.events.loc[\n            self.events["Name"].isin(["MpiSend"]),')],
    "a trace with non-blocking sends", "non-blocking sends are missing from the communication matrix",
    '''
t = trace([(0, "I", "MpiIsend", 0), (1, "I", "MpiSend", 1)], Attributes=[{"receiver": 1, "msg_length": 5}, {"receiver": 0, "msg_length": 7}])
check(t.comm_matrix().tolist(), [[0.0, 5.0], [7.0, 0.0]], "matrix")
''')
bug("hist-no-irecv", "C08", [(T, 'else ["MpiRecv", "MpiIrecv"]', 'else ["MpiRecv"]')],
    "a trace with non-blocking receives, histogram of receives", "non-blocking receives are missing",
    '''
t = trace([(0, "E", "a", 0), (50, "I", "MpiIrecv", 0), (60, "I", "MpiRecv", 0), (100, "L", "a", 0)], Attributes=[None, {"msg_length": 5}, {"msg_length": 7}, None])
h, e = t.comm_over_time(message_type="receive", bins=2)
check(list(h), [0, 12], "bins")
''')
bug("profile-skips-missing", "C09", [(T, "                .sum()\n                .groupby(groupby_column)\n", "                .sum(min_count=1)\n                .groupby(groupby_column)\n")],
    "a function all of whose calls on one process lack a value (never left) while it has values on another",
    "the process is left out of the mean instead of counting as 0",
    '''
t = trace([(0, "E", "a", 0), (4, "L", "a", 0), (5, "E", "a", 1)])
check([val(x) for x in t.flat_profile(metrics=["time.inc"])["time.inc"]], [2.0], "mean per process")
''')
bug("idle-processes", "C11", [(T, '        for process in set(self.events["Process"]):\n            idle_times', '        for process in set(\n            self.events.loc[self.events["Event Type"] == "Enter", "Process"]\n        ):\n            idle_times')],
    "a process without any Enter event", "that process is missing from the idle times",
    '''
t = trace([(0, "E", "Idle", 0), (1, "I", "x", 1), (4, "L", "Idle", 0)])
r = t.idle_time()
check(sorted(zip(r["Process"], r["Idle Time"])), [(0, 4.0), (1, 0.0)], "idle times")
''')
bug("timeprofile-processes", "C12", [(T, '        total_bin_duration = bin_size * len(events["Process"].unique())', '        total_bin_duration = bin_size * len(self.events["Process"].unique())')],
    "a process that records only instant events", "idle time counts processes that enter no function",
    '''
t = trace([(0, "E", "a", 0), (1, "I", "x", 1), (4, "L", "a", 0)])
check([float(x) for x in t.time_profile(num_bins=2)["idle_time"]], [0.0, 0.0], "idle_time")
''')
bug("multirun-order-by-mean", "C13", [(T, "        function_sums = combined_df.sum()\n", "        function_sums = combined_df.mean()\n")],
    "traces that do not all contain the same functions", "columns are ordered by mean instead of total",
    '''
a = trace([(0, "E", "f", 0), (3, "L", "f", 0)])
b = trace([(0, "E", "f", 0), (3, "L", "f", 0), (3, "E", "g", 0), (7, "L", "g", 0)])
check(list(Trace.multirun_analysis([a, b]).columns), ["f", "g"], "columns")
''')
bug("csv-duplicates", "C16", [(T, "        events_dataframe = pd.read_csv(filename, skipinitialspace=True)\n", "        events_dataframe = pd.read_csv(filename, skipinitialspace=True)\n        events_dataframe = events_dataframe.drop_duplicates()\n")],
    "two records that agree in every field (two threads without a thread column, say)", "one of them is lost",
    '''
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "t.csv")
    open(p, "w").write("Timestamp (ns),Event Type,Name,Process\\n1,Enter,a,0\\n1,Enter,a,0\\n5,Leave,a,0\\n5,Leave,a,0\\n")
    t = Trace.from_csv(p)
    check(len(t.events), 4, "rows")
finally:
    shutil.rmtree(d)
''')
bug("chrome-rounds", "C23", [(CW, 'df["ts"] = (events["Timestamp (ns)"] / 1e3).astype(int)', 'df["ts"] = (events["Timestamp (ns)"] / 1e3).round().astype(int)')],
    "timestamps that are not whole microseconds", "times are rounded instead of truncated",
    '''
import json
t = trace([(1600, "E", "a", 0), (2700, "L", "a", 0)])
check([r["ts"] for r in json.loads(t.to_chrome())], [1, 2], "ts")
''')

# ---------------------------------------------------------------- second round
PROJ = '''
import gzip
def projections(logs, chares=1, workers=1):
    d = tempfile.mkdtemp()
    try:
        open(os.path.join(d, "a.sts"), "w").write("PROCESSORS %d\\nTOTAL_CHARES 1\\nTOTAL_EPS 1\\nTOTAL_MSGS 0\\nCHARE 0 \\"C\\" 1\\nENTRY CHARE 0 \\"e\\" 0 0\\nEVENT 3 ev\\nEND\\n" % len(logs))
        for i, l in enumerate(logs):
            with gzip.open(os.path.join(d, "a.%d.log.gz" % i), "wt") as f:
                f.write("PROJECTIONS-RECORD\\n" + "\\n".join(l) + "\\n")
        return Trace.from_projections(d, num_processes=workers)
    finally:
        shutil.rmtree(d)
'''
bug("pack-from-pe", "C18", [(PJ, '                    _add_to_trace_dict(data, "Pack", "Leave", time, pe_num, details)', '                    _add_to_trace_dict(data, "Pack", "Leave", time, pe, details)')],
    "an END_PACK record whose PE field is not the number of the log it is in", "the Leave row is on the process named in the record",
    PROJ + '''
t = projections([["6 0", "16 1 1", "17 4 1", "7 9"], ["6 0", "7 9"]])
p = t.events[t.events["Name"] == "Pack"]
check([int(x) for x in p["Process"]], [0, 0], "processes of the pack rows")
''')
bug("partition-ceil", "C17", [(PJ, '''        per_process = int(self.num_pes // size)
        remainder = int(self.num_pes % size)

        if rank < remainder:
            begin_int = rank * (per_process + 1)
            end_int = (rank + 1) * (per_process + 1)
        else:
            begin_int = (rank * per_process) + remainder
            end_int = ((rank + 1) * per_process) + remainder
''', '''        per_process = round(self.num_pes / size)

        begin_int = rank * per_process
        end_int = self.num_pes if rank == size - 1 else (rank + 1) * per_process
''')],
    "a number of workers for which logs per worker rounds up so far that the last worker has none left (6 logs, 4 workers)", "reading raises",
    PROJ + '''
if (os.cpu_count() or 1) >= 4:
    n, w = 6, 4
    try:
        t = projections([["6 0", "14 1 %d" % i, "15 2 %d" % i, "7 9"] for i in range(n)], workers=w)
    except ValueError as e:
        print("raises", e)
        sys.exit(1)
    check(sorted(int(x) for x in t.events["Process"]), sorted(list(range(n)) * 4), "processes of the rows")
''')
bug("nsight-tids", "C22", [(NS, '                tid = set(self.df[mask]["TID"])', '                tid = set(self.df["TID"])')],
    "several processes whose threads have different ids", "the threads of a process are not numbered from 0",
    '''
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "t.csv")
    open(p, "w").write("Start (ns),End (ns),Name,PID,TID\\n1,2,a,10,10\\n3,4,b,10,12\\n5,6,c,20,20\\n7,8,d,20,23\\n")
    t = Trace.from_nsight(p)
    for q in (0, 1):
        check(sorted(set(int(x) for x in t.events.loc[t.events["Process"] == q, "Thread"])), [0, 1], "threads of process %d" % q)
finally:
    shutil.rmtree(d)
''')
HPCT = '''
import struct
def hpct(change):
    d = tempfile.mkdtemp()
    try:
        for f in ("meta.db", "profile.db", "trace.db"):
            shutil.copy(os.path.join(os.getcwd(), "pipit/tests/data/ping-pong-hpctoolkit", f), d)
        b = bytearray(open(os.path.join(d, "trace.db"), "rb").read())
        sec, = struct.unpack_from("<Q", b, 24)
        ptr, n, size = struct.unpack_from("<QIB", b, sec)
        prof, _, start, end = struct.unpack_from("<IIQQ", b, ptr)
        b = change(b, sec, ptr, n, size, start, end) or b
        open(os.path.join(d, "trace.db"), "wb").write(b)
        return Trace.from_hpctoolkit(d)
    finally:
        shutil.rmtree(d)
'''
bug("hpct-idle-return", "C20", [(HP, "            last_node = current_node\n            last_id = context_id\n", "            last_node = current_node\n            last_id = context_id or last_id\n")],
    "a thread that is idle and afterwards is sampled in the context it was in before", "the calls after the idle time are missing",
    HPCT + '''
def change(b, sec, ptr, n, size, start, end):
    t, c = struct.unpack_from("<QI", b, start)
    i = start
    while c == 0:
        i += 12
        t, c = struct.unpack_from("<QI", b, i)
    for k, ctx in enumerate((c, 0, c)):
        struct.pack_into("<QI", b, start + 12 * k, t + k, ctx)
    struct.pack_into("<Q", b, ptr + 16, start + 36)
    struct.pack_into("<I", b, sec + 8, 1)
t = hpct(change)
e = t.events[t.events["Event Type"].isin(["Enter", "Loop Enter"])]
check(len(e) > 0 and len(set(e["Timestamp (ns)"])), 2, "times at which calls are entered")
''')
bug("hpct-stride", "C21", [(HP, "            header_pointer = trace_headers_pointer + (i * trace_header_size)", "            header_pointer = trace_headers_pointer + (i * 24)")],
    "a trace.db whose trace headers are larger than 24 bytes (a later minor version of the format)", "headers after the first are read from the wrong place",
    HPCT + '''
def change(b, sec, ptr, n, size, start, end):
    new = len(b)
    for i in range(n):
        b += b[ptr + i * size:ptr + i * size + 24] + bytes(16)
    struct.pack_into("<Q", b, sec, new)
    struct.pack_into("<B", b, sec + 12, 40)
try:
    a, t = hpct(lambda *x: None).events, hpct(change).events
except Exception as e:
    print("raises", e)
    sys.exit(1)
check(a.drop(columns="Node").equals(t.drop(columns="Node")), True, "same events")
''')
bug("imbalance-mean", "C10", [(T, "            imbalance_dict[mean_metric].append(curr_series.mean())\n            imbalance_dict[imb_metric].append(top_n.values[0] / curr_series.mean())\n", "            mean = curr_series.sum() / num_ranks\n            imbalance_dict[mean_metric].append(mean)\n            imbalance_dict[imb_metric].append(top_n.values[0] / mean)\n")],
    "a function that some process does not execute", "the mean is taken over all processes",
    '''
t = trace([(0, "E", "f", 0), (4, "L", "f", 0), (4, "E", "g", 1), (6, "L", "g", 1), (7, "E", "f", 1), (9, "L", "f", 1)])
r = t.load_imbalance(metric="time.exc", num_processes=2)
check(float(r.loc["g", "time.exc.mean"]), 2.0, "mean of g")
check(float(r.loc["g", "time.exc.imbalance"]), 1.0, "imbalance of g")
''')
bug("config-case", "C15", [("pipit/util/config.py", '    if value.startswith("http://") or value.startswith("https://"):', '    if value.split(":")[0] in ("http", "https"):')],
    "a value that starts with http: or https: but not with http:// or https://", "a notebook URL that is neither http:// nor https:// is accepted",
    '''
from pipit.util import config
for u in ("file://x", "http:/x", "https:x"):
    try:
        config.set_option("notebook_url", u)
    except ValueError:
        check(config.get_option("notebook_url"), "http://localhost:8888", "value")
    else:
        print("accepted", u)
        sys.exit(1)
''')
bug("multirun-label", "C13", [(T, '        combined_df.index = [len(set(trace.events["Process"])) for trace in traces]', '        combined_df.index = [\n            len(set(trace.events.loc[trace.events["Event Type"] == "Enter", "Process"]))\n            for trace in traces\n        ]')],
    "a trace with a process that enters no function", "the row is labelled with fewer processes than the trace has",
    '''
a = trace([(0, "E", "f", 0), (1, "I", "x", 1), (3, "L", "f", 0)])
check(list(Trace.multirun_analysis([a]).index), [2], "label")
''')
bug("profile-edge", "C12", [(T, '''                (in_bin["Timestamp (ns)"] >= start)
                & (in_bin["_matching_timestamp"] <= end),
                "inc_time_in_bin",''', '''                (in_bin["Timestamp (ns)"] >= start)
                & (in_bin["_matching_timestamp"] < end),
                "inc_time_in_bin",''')],
    "a call that starts inside an interval and ends exactly at its end", "the whole interval is counted from its start",
    '''
t = trace([(0, "E", "a", 0), (3, "L", "a", 0), (3, "E", "b", 0), (5, "L", "b", 0), (6, "E", "a", 0), (10, "L", "a", 0)], cat=True)
r = t.time_profile(num_bins=2)
check([float(x) for x in r["b"]], [2.0, 0.0], "b")
check([float(x) for x in r["a"]], [3.0, 4.0], "a")
''')
bug("hist-range", "C08", [(T, '''            range=[
                self.events["Timestamp (ns)"].min(),
                self.events["Timestamp (ns)"].max(),
            ],''', '''            range=[
                self.events["Timestamp (ns)"].iloc[0],
                timestamps.max(),
            ],''')],
    "events after the last message", "the intervals do not reach to the end of the trace",
    '''
t = trace([(0, "E", "a", 0), (50, "I", "MpiSend", 0), (100, "L", "a", 0)], Attributes=[None, {"msg_length": 5}, None])
h, e = t.comm_over_time(bins=2)
check([float(x) for x in e], [0.0, 50.0, 100.0], "edges")
''')
bug("csv-process-width", "C16", [(T, '        events_dataframe = events_dataframe.astype({"Process": "int32"})', '        events_dataframe = events_dataframe.astype({"Process": "int16"})')],
    "process numbers above 32767", "the process of a record wraps around",
    '''
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "t.csv")
    open(p, "w").write("Timestamp (ns),Event Type,Name,Process\\n1,Enter,a,40000\\n5,Leave,a,40000\\n")
    check([int(x) for x in Trace.from_csv(p).events["Process"]], [40000, 40000], "process")
finally:
    shutil.rmtree(d)
''')
bug("chrome-threads", "C23", [(CW, '        if "Thread" in events.columns:\n            df["tid"]', '        if "Thread" in events.columns and events["Thread"].nunique() > 1:\n            df["tid"]')],
    "a trace with threads in which only one thread number occurs", "records have no thread",
    '''
import json
t = trace([(1600, "E", "a", 0, 3), (2700, "L", "a", 0, 3)], thread=True)
check([r.get("tid") for r in json.loads(t.to_chrome())], [3, 3], "tid")
''')
bug("comm-ranks", "C07", [(T, '        ranks = set(self.events["Process"])\n', '        ranks = set(\n            self.events.loc[self.events["Event Type"] == "Enter", "Process"]\n        ) or set(self.events["Process"])\n')],
    "a process without Enter events besides others that have some", "the matrix has too few rows and columns",
    '''
t = trace([(0, "E", "a", 0), (1, "I", "MpiSend", 0), (2, "I", "MpiRecv", 1), (3, "L", "a", 0)], Attributes=[None, {"receiver": 0, "msg_length": 5}, {"sender": 0, "msg_length": 5}, None])
check(t.comm_matrix().tolist(), [[5.0, 0.0], [0.0, 0.0]], "matrix")
''')
bug("otf2-lowest-thread", "C19", [(OT, "                        elif location_num < self.process_threads_map[process_num]:\n                            self.process_threads_map[process_num] = location_num\n", ""), (OT, "                    if (\n                        key == \"_locations\"\n                        and str(def_object.type) == \"LocationType.CPU_THREAD\"\n                    ):\n", "                    if key == \"_locations\":\n")],
    "a process whose first location is not a CPU thread (a GPU stream, say)", "threads are numbered from that location",
    '''
import otf2
from otf2.enums import LocationType
d = tempfile.mkdtemp()
try:
    with otf2.writer.open(os.path.join(d, "a"), timer_resolution=10**9) as w:
        D = w.definitions
        g = D.location_group("g", system_tree_parent=D.system_tree_node("root"))
        D.location("gpu", group=g, type=LocationType.GPU)
        l = D.location("cpu", group=g, type=LocationType.CPU_THREAD)
        f = D.region("f")
        e = w.event_writer_from_location(l)
        e.enter(5, f)
        e.leave(6, f)
    t = Trace.from_otf2(os.path.join(d, "a"), num_processes=1)
    check([int(x) for x in t.events["Thread"]], [0, 0], "threads")
finally:
    shutil.rmtree(d)
''')
bug("callers-unmatched", "C02", [(T, '''            enter_leave_df = self.events.loc[
                (
                    self.events["Event Type"].isin(["Enter", "Leave"])
                    & (self.events["_matching_event"].notnull())
                )
            ]
''', '''            enter_leave_df = self.events.loc[
                (
                    self.events["Event Type"].isin(["Enter", "Leave"])
                    & (
                        self.events["_matching_event"].notnull()
                        | (self.events["Event Type"] == "Enter")
                    )
                )
            ]
''')],
    "an Enter whose Leave was not recorded, with calls after it", "the unmatched call counts as a level of the call tree",
    '''
t = trace([(0, "E", "lost", 0), (1, "E", "a", 0), (2, "L", "a", 0)])
t._match_caller_callee()
check([val(x) for x in t.events["_depth"]], [None, 0, None], "depth")
check([val(x) for x in t.events["_parent"]], [None, None, None], "parent")
''')
bug("cct-thread-merge", "C05", [(C, '                & (enter_leave_df["Thread"] == curr_thread)', '                & (enter_leave_df["Thread"].isin([curr_thread, 0]))')],
    "a process with threads other than 0 besides thread 0", "events of thread 0 are replayed with those of other threads",
    '''
t = trace([(0, "E", "a", 0, 0), (1, "E", "b", 0, 1), (2, "L", "b", 0, 1), (3, "L", "a", 0, 0)], thread=True)
t.create_cct()
check(len(t.cct.roots), 2, "roots")
''')
bug("numeric-cols-grow", "C14", [(T, "                self.inc_metrics.append(metric_col_name)", "                self.inc_metrics.append(metric_col_name)\n                if metric_col_name not in self.numeric_cols:\n                    self.numeric_cols.append(metric_col_name)")],
    "metrics of all numeric columns asked for twice, or after another analysis", "metrics of metrics are computed, so the result depends on the analyses run before",
    '''
a = trace([(0, "E", "a", 0), (4, "L", "a", 0)])
b = trace([(0, "E", "a", 0), (4, "L", "a", 0)])
a.flat_profile()
a.calc_inc_metrics()
b.calc_inc_metrics()
check(sorted(a.inc_metrics), sorted(b.inc_metrics), "inclusive metrics")
''')
bug("exc-visible-children", "C04", [(T, "                    for child_idx in curr_children:\n                        # subtract", "                    for child_idx in sorted(set(curr_children))[:1000]:\n                        # subtract")],
    "a call with more than a thousand direct callees", "callees after the first thousand are not subtracted",
    '''
rows = [(0, "E", "m", 0)]
for i in range(1500):
    rows += [(2 * i + 1, "E", "f", 0), (2 * i + 2, "L", "f", 0)]
rows.append((3002, "L", "m", 0))
t = trace(rows)
t.calc_exc_metrics()
check(float(t.events["time.exc"].iloc[0]), 1502.0, "time.exc of m")
''')
bug("inc-first-column", "C03", [(T, '                ] = (\n                    self.events[col][enter_df["_matching_event"]].values\n                    - enter_df[col].values\n                )', '                ] = (\n                    enter_df["_matching_timestamp"].values - enter_df[col].values\n                    if col == columns[0]\n                    else self.events[col][enter_df["_matching_event"]].values\n                    - enter_df[col].values\n                )')],
    "a metric other than time asked for first", "the time of the Leave is used instead of the metric's value there",
    '''
t = trace([(0, "E", "a", 0), (5, "L", "a", 0)], mem=[10.0, 12.0])
t.calc_inc_metrics(["mem"])
check([val(x) for x in t.events["mem.inc"]], [2.0, None], "mem.inc")
''')
