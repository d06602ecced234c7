"""Executable postconditions of C17 (workers), C18 (Projections), C19 (OTF2), C20/C21 (HPCToolkit).
The generators write real trace files in a scratch directory and the real readers read them."""
import gzip, itertools
from core import *
import core
from p_trace import Prop
from p_misc import scratch

PROPS = {}
def register(cls):
    PROPS[cls.id] = cls
    return cls

# ============================================================================= Projections
FIXED = {14: ("Idle", "Enter"), 15: ("Idle", "Leave"), 16: ("Pack", "Enter"), 17: ("Pack", "Leave"), 18: ("Unpack", "Enter"), 19: ("Unpack", "Leave")}
ALLKINDS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 26, 27, 28, 29, 32, 98, 99, 100]
ENTRYN = ["main", "dummy_thread_ep", "CkArray::x(const T &y)", "Idle", "a b  c".replace("  ", " "), "recv<int>(a, b)", "f", "->", "12", "Pack", "\u00e9t\u00e9"]

def gen_sts(rng):
    nc = rng.choice([1, 2, 3, 5])
    return {"chares": [[rng.choice(["Chare", "Main", "A b", "Group"]), rng.choice([-1, 0, 1, 1, 2, 3, 6])] for _ in range(nc)],
            "entries": {str(i): [rng.choice(ENTRYN), rng.randrange(nc)] for i in rng.sample(range(200), rng.choice([1, 2, 4, 8]))},
            "events": {str(i): rng.choice(["ev", "my event", "a  b".replace("  ", " "), "Trace", "x:y"]) + rng.choice(["", str(i)]) for i in rng.sample(list(range(20)) + [100, 10**6], 3)},
            "stats": {str(i): rng.choice(["stat", "my stat"]) + str(i) for i in rng.sample(range(50), 2)},
            "papi": rng.choice([0, 0, 0, 1, 2, 3]), "blank": rng.random() < .2}

def gen_record(rng, sts, t, kinds):
    k = rng.choice(kinds)
    I = lambda hi=5000: rng.choice([0, 1, rng.randint(0, 9), rng.randint(0, hi)])
    ent = lambda: int(rng.choice(list(sts["entries"])))
    evt = lambda: int(rng.choice(list(sts["events"])))
    papi = lambda: [I() for _ in range(sts["papi"])]
    words = lambda: " ".join(rng.choice(["note", "a", "x1", "12", "z"]) for _ in range(rng.randint(1, 4)))
    if k in FIXED: return [k, t, I()]
    if k == 1: return [k, I(40), ent(), t, I(), I(), I(), I()]
    if k == 21:
        n = rng.choice([0, 1, 2, 5, 12])
        return [k, I(40), ent(), t, I(), I(), I(), I(), n] + [I() for _ in range(n)]
    if k == 20: return [k, I(40), ent(), t, I(), I(), I(), I(), I()]
    if k == 2:
        e = ent()
        d = sts["chares"][sts["entries"][str(e)][1]][1]
        return [k, I(40), e, t, I(), I(), I(), I()] + [I() for _ in range(d if d >= 0 else 4)] + [I()] + papi()
    if k == 3: return [k, I(40), ent(), t, I(), I(), I(), I()] + papi()
    if k in (4, 5): return [k, I(40), t, I(), I()]
    if k in (6, 7, 11, 12): return [k, t]
    if k in (8, 9): return [k, t, I(), I()]
    if k == 10: return [k, I(40), t, I(), I(), I()]
    if k == 13: return [k, evt(), t, I(), I()]
    if k in (98, 99, 100): return [k, evt(), t, I(), I(), I()]
    if k == 26: return [k, rng.choice([0, 5, -3, 17])]
    if k == 27: return [k, I(10**9), t]
    if k == 28: return [k, t, words()]
    if k == 29: return [k, t, t + rng.choice([0, 0, 1, 5, 1000]), evt(), words()]
    if k == 32: return [k, t, I(), rng.choice(["1.5", "0", "2", "-3.25", "1e3"]), I(), int(rng.choice(list(sts["stats"])))]
    return [k, t, I(), I()]       # a kind the reader does not know

def sts_text(s, npes):
    L = ["PROJECTIONS_ID ", "VERSION 11.0", 'MACHINE "x"', "PROCESSORS %d" % npes, 'COMMANDLINE "./a.prj"', "TIMESTAMP 2022-11-11T16:12:02Z",
         "TOTAL_CHARES %d" % len(s["chares"]), "TOTAL_EPS %d" % len(s["entries"]), "TOTAL_MSGS 1", "TOTAL_PSEUDOS 0", "TOTAL_EVENTS %d" % len(s["events"])]
    L += ['CHARE %d "%s" %d' % (i, c[0], c[1]) for i, c in enumerate(s["chares"])]
    if s["blank"]: L.append("")
    L += ['ENTRY CHARE %s "%s" %d 0' % (i, e[0], e[1]) for i, e in s["entries"].items()]
    L += ["MESSAGE 0 64"]
    L += ["EVENT %s %s" % x for x in s["events"].items()]
    L += ["TOTAL_STATS %d" % len(s["stats"])] + ["STAT %s %s" % x for x in s["stats"].items()]
    if s["papi"]:
        L += ["TOTAL_PAPI_EVENTS %d" % s["papi"]] + ["PAPI_EVENT %d PAPI_%d" % (i, i) for i in range(s["papi"])]
    return "\n".join(L + ["END"]) + "\n"

def write_projections(d, case):
    s = case["sts"]
    open(os.path.join(d, "app.prj.sts"), "w", encoding="utf-8").write(sts_text(s, len(case["logs"])))
    for pe, log in enumerate(case["logs"]):
        L = ["PROJECTIONS-RECORD %d" % len(log)] + [" ".join(map(str, r)) if isinstance(r, list) else r for r in log]
        with gzip.open(os.path.join(d, "app.prj.%d.log.gz" % pe), "wt", compresslevel=1, encoding="utf-8") as f:
            f.write("\n".join(L) + "\n")

def words(x):
    return str(x).replace('"', "").split()

def rows_projections(case):
    """[ts, type, name, pe, attributes] in log order, one list per log; names of events and stats are word lists"""
    s, out = case["sts"], []
    ename = lambda i: s["entries"][str(i)][0]
    for pe, log in enumerate(case["logs"]):
        R = []
        for r in log:
            if not isinstance(r, list):
                continue
            k = r[0]
            if k in FIXED: R.append([r[1] * 1000, FIXED[k][1], FIXED[k][0], pe, {"From PE": r[2]}])
            elif k == 26: R.append([-1, "Instant", "User Supplied", pe, {"User Supplied": str(r[1])}])
            elif k == 28: R.append([r[1] * 1000, "Instant", "User Supplied Note", pe, {"Note": r[2]}])
            elif k == 29:
                a = {"Event ID": r[3], "Event Name": s["events"][str(r[3])], "Note": r[4]}
                R.append([r[1] * 1000, "Enter", "User Supplied Bracketed Note", pe, a])
                R.append([r[2] * 1000, "Leave", "User Supplied Bracketed Note", pe, a])
            elif k == 27: R.append([r[2] * 1000, "Instant", "Memory Usage", pe, {"Memory Usage": r[1]}])
            elif k == 1: R.append([r[3] * 1000, "Instant", ename(r[2]), pe, {"From PE": r[5], "MType": r[1], "Entry Type": "Create", "Message Length": r[6], "Event ID": r[4], "Send Time": r[7] * 1000}])
            elif k == 21: R.append([r[3] * 1000, "Instant", ename(r[2]), pe, {"From PE": r[5], "Message Type": r[1], "Entry Type": "Multicast", "Message Length": r[6], "Event ID": r[4], "Send Time": r[7] * 1000, "Destinatopn PEs": r[9:9 + r[8]]}])
            elif k == 2:
                d = s["chares"][s["entries"][str(r[2])][1]][1]
                d = d if d >= 0 else 4
                R.append([r[3] * 1000, "Enter", ename(r[2]), pe, {"From PE": r[5], "Message Type": r[1], "Entry Type": "Processing", "Event ID": r[4], "Message Length": r[6], "Receive Time": r[7], "ID List": r[8:8 + d], "CPU Start Time": r[8 + d], "perf counts list": r[9 + d:]}])
            elif k == 3: R.append([r[3] * 1000, "Leave", ename(r[2]), pe, None])
            elif k in (11, 12): R.append([r[1] * 1000, "Enter" if k == 11 else "Leave", "Trace", pe, None])
            elif k in (6, 7): R.append([r[1] * 1000, "Enter" if k == 6 else "Leave", "Computation", pe, None])
            elif k == 10: R.append([r[2] * 1000, "Instant", "Message Receive", pe, {"From PE": r[4], "Message Type": r[1], "Event ID": r[3], "Message Length": r[5]}])
            elif k in (4, 5): R.append([r[2] * 1000, "Instant", "Enque" if k == 4 else "Deque", pe, {"From PE": r[4], "Message Type": r[1], "Event ID": r[3]}])
            elif k in (8, 9): R.append([r[1] * 1000, "Enter" if k == 8 else "Leave", "Interrupt", pe, {"From PE": r[3], "Event ID": r[2]}])
            elif k == 13: R.append([r[2] * 1000, "Instant", words(s["events"][str(r[1])]), pe, {"From PE": r[4], "Event ID": r[3], "Event Type": "User Event"}])
            elif k == 100: R.append([r[2] * 1000, "Instant", words(s["events"][str(r[1])]), pe, {"From PE": r[4], "Event ID": r[3], "Nested ID": r[5], "Event Type": "User Event Pair"}])
            elif k in (98, 99): R.append([r[2] * 1000, "Enter" if k == 98 else "Leave", "User Event Pair", pe, {"From PE": r[4], "Event ID": r[3], "Nested ID": r[5], "User Event Name": s["events"][str(r[1])]}])
            elif k == 32: R.append([r[1] * 1000, "Instant", words(s["stats"][str(r[5])]), pe, {"From PE": r[4], "User Time": r[2] * 1000, "Stat": float(r[3]), "Event Type": "User Stat"}])
        if R and R[-1][2] != "Computation":
            R.append([R[-1][0], "Leave", "Computation", pe, None])
        out.append(R)
    return out

TEXTY = ("Note", "Event Name", "User Event Name")
def same_attrs(g, w):
    if w is None or g is None or isnull(g):
        return w is None and (g is None or isnull(g))
    if set(g) != set(w):
        return False
    return all(words(g[k]) == words(w[k]) if k in TEXTY else (same(g[k], w[k]) and isinstance(g[k], str) == isinstance(w[k], str)) for k in w)

def same_name(g, w):
    return words(g) == w if isinstance(w, list) else g == w

def check_projections(case, workers):
    import pipit.trace
    want = sorted([r for log in rows_projections(case) for r in log], key=lambda r: r[0])
    if not want:
        return
    with scratch() as d:
        write_projections(d, case)
        for w in workers:
            t = pipit.trace.Trace.from_projections(d) if w == "default" else pipit.trace.Trace.from_projections(d, num_processes=w)
            ev, tag = t.events, "with %r workers: " % (w,) if len(workers) > 1 else ""
            expect(len(ev) == len(want), "%s%d rows, expected %d", tag, len(ev), len(want))
            expect(list(ev.index) == list(range(len(want))), "%srows are not numbered from 0", tag)
            check_col(ev, "Timestamp (ns)", [r[0] for r in want], tag + "time")
            check_col(ev, "Process", [r[3] for r in want], tag + "process")
            check_col(ev, "Event Type", [r[1] for r in want], tag + "type")
            check_col(ev, "Name", [r[2] for r in want], tag + "name", cmp=same_name)
            check_col(ev, "Attributes", [r[4] for r in want], tag + "attributes", cmp=same_attrs)

@register
class C18(Prop):
    id = "C18"
    def gen(self, rng, npes=None):
        s = gen_sts(rng)
        logs = []
        kinds = ALLKINDS + [0, 22, 25, 31, 33, 101, 1000] if rng.random() < .7 else rng.sample(ALLKINDS, rng.choice([1, 3, 6]))
        h = core.hints()
        kinds = kinds + [i for i in h.new_ints if 0 <= i < 2000]
        for pe in range(npes or rng.choice([1, 1, 2, 3])):
            t, L = rng.choice([0, 5, 77991]), []
            for _ in range(core.size(rng, 120)):
                t += rng.choice([0, 0, 1, 3, 100])
                L.append(gen_record(rng, s, t if rng.random() < .9 else max(0, t - rng.randint(0, 50)), kinds))
                if rng.random() < .02: L.append(rng.choice(["", "PROJECTIONS-RECORD 3", "# x", "   "]))
            if rng.random() < .6: L = [[6, 0]] + L + [[7, t + 1]]
            if rng.random() < .2: L = L[:rng.randint(0, len(L))]      # truncated
            logs.append(L)
        return {"sts": s, "logs": logs}
    def small(self):
        import random
        for k in ALLKINDS + [0, 22, 1000]:
            for j in range(4):
                rng = random.Random("%d/%d" % (k, j))
                s = gen_sts(rng)
                yield {"sts": s, "logs": [[gen_record(rng, s, 5 + j, [k])]]}
                yield {"sts": s, "logs": [[[6, 1], gen_record(rng, s, 5 + j, [k]), gen_record(rng, s, 6 + j, [k]), [7, 90]], [gen_record(rng, s, 7, [k])]]}
    def check(self, case):
        check_projections(case, [1])

# ============================================================================= OTF2
KINDS = ["Enter", "Leave", "MpiSend", "MpiRecv", "MpiIsend", "MpiIrecv", "MpiIsendComplete", "MpiIrecvRequest", "ThreadFork", "ThreadJoin", "ParameterInt", "Metric"]

def gen_otf2(rng, nloc=None):
    ngrp = rng.choice([1, 1, 2, 3])
    nloc = nloc or rng.choice([1, 2, 2, 3, 5, 9])
    grp = sorted(rng.randrange(ngrp) for _ in range(nloc)) if rng.random() < .6 else [rng.randrange(ngrp) for _ in range(nloc)]
    cpu = [rng.random() < .88 for _ in range(nloc)]
    cpu[rng.randrange(nloc)] = True
    nreg = rng.choice([1, 2, 4])
    nmem = rng.choice([0, 0, 1, 3, 12])
    classes = []
    if nmem:
        for _ in range(rng.choice([1, 2, 3])):
            classes.append(rng.sample(range(nmem), rng.choice([1, min(2, nmem)])))
    ev = []
    for l in range(nloc):
        t, L, stack = rng.choice([100, 100, 101, 500]), [], 0
        for _ in range(core.size(rng, 60)):
            t += rng.choice([0, 0, 1, 2, 50])
            k = rng.choice(["Enter", "Leave", "Enter", "Leave"] + KINDS)
            if classes and k == "Metric":
                ms, used = [], set()
                for c in rng.sample(range(len(classes)), rng.choice([1, 1, min(2, len(classes))])):
                    if used & set(classes[c]): continue          # one value per member and time
                    used |= set(classes[c])
                    ms.append([c, [rng.choice([0, rng.randint(-9, 10**6)]) for _ in classes[c]]])
                t += 1                                            # a new time: the values belong to the next event
                L += [[t, "Metric", c, v] for c, v in ms]
                L.append([t, rng.choice(["Enter", "Leave"]), rng.randrange(nreg), 0])
            elif k != "Metric":
                L.append([t, k, rng.randrange(nreg) if k in ("Enter", "Leave") else rng.randrange(8), rng.choice([0, 1, 8, 4096, 2**33])])
        ev.append(L)
    return {"grp": grp, "cpu": cpu, "ngrp": ngrp, "regions": rng.sample(["main", "foo", "MPI_Send", "bar()", "\u00e9"], nreg), "members": ["M%d" % i if rng.random() < .8 else "PAPI %d" % i for i in range(nmem)],
            "classes": classes, "events": ev, "offset": rng.choice([0, 0, 1, 99]), "resolution": rng.choice([10**9, 10**9, 10**6, 1, 2500000000, 3]), "base": rng.choice([0, 10**6, 10**12]),
            "order": rng.random() < .8}

def write_otf2(d, case):
    import otf2
    from otf2.enums import GroupType, Paradigm, ParameterType, Type, MetricType, MetricMode, LocationType
    arch = os.path.join(d, "a")
    with otf2.writer.open(arch, timer_resolution=case["resolution"]) as w:
        D = w.definitions
        root = D.system_tree_node("root")
        groups = [D.location_group("g%d" % i, system_tree_parent=root) for i in range(case["ngrp"])]
        locs = [D.location("l%d" % i, group=groups[g], type=LocationType.CPU_THREAD if case["cpu"][i] else LocationType.GPU) for i, g in enumerate(case["grp"])]
        regs = [D.region(n) for n in case["regions"]]
        mems = [D.metric_member(n, "", MetricType.OTHER, MetricMode.ABSOLUTE_POINT) for n in case["members"]]
        cls = [D.metric_class(tuple(mems[i] for i in c)) for c in case["classes"]]
        D.group("cl", group_type=GroupType.COMM_LOCATIONS, paradigm=Paradigm.MPI, members=locs)
        comm = D.comm("w", D.group("cg", group_type=GroupType.COMM_GROUP, paradigm=Paradigm.MPI, members=locs))
        par = D.parameter("p", ParameterType.INT64)
        att = D.attribute("attr", "", Type.INT64)
        writers = [w.event_writer_from_location(l) for l in locs]
        b = case["base"]
        for wr, L in zip(writers, case["events"]):
            for e in L:
                t, k = e[0] + b, e[1]
                if k == "Enter": wr.enter(t, regs[e[2]], **({"attributes": {att: e[3]}} if e[3] == 8 else {}))
                elif k == "Leave": wr.leave(t, regs[e[2]])
                elif k == "Metric": wr.metric(t, cls[e[2]], e[3])
                elif k == "ThreadFork": wr.thread_fork(t, Paradigm.OPENMP, e[2])
                elif k == "ThreadJoin": wr.thread_join(t, Paradigm.OPENMP)
                elif k == "MpiIsendComplete": wr.mpi_isend_complete(t, e[3])
                elif k == "MpiIrecvRequest": wr.mpi_irecv_request(t, e[3])
                elif k == "MpiSend": wr.mpi_send(t, e[2], comm, 3, e[3])
                elif k == "MpiRecv": wr.mpi_recv(t, e[2], comm, 3, e[3])
                elif k == "MpiIsend": wr.mpi_isend(t, e[2], comm, 0, e[3], 5)
                elif k == "MpiIrecv": wr.mpi_irecv(t, e[2], comm, 0, e[3], 5)
                elif k == "ParameterInt": wr.parameter_int(t, par, e[3])
                else: raise AssertionError(k)
        first = otf2_first(case)
        if first is not None:
            w._first_timestamp = first - case["offset"]       # the archive's global clock offset
    return arch

def otf2_first(case):
    return min((L[0][0] for L in case["events"] if L), default=None) if case["base"] == 0 else min((L[0][0] + case["base"] for L in case["events"] if L), default=None)

def rows_otf2(case):
    """[ticks, location, type, name, process, thread, attributes, {metric: value}] in expected order"""
    low, R = {}, []
    for l, g in enumerate(case["grp"]):
        if case["cpu"][l]:
            low.setdefault(g, l)
    off = (otf2_first(case) or 0) - case["offset"]
    for l, L in enumerate(case["events"]):
        if not case["cpu"][l]:
            continue
        mtime, mval = None, {}
        for e in L:
            k, t = e[1], e[0] + case["base"] - off
            if k == "Metric":
                if mtime != t: mval = {}
                mtime = t
                mval.update({case["members"][m]: v for m, v in zip(case["classes"][e[2]], e[3])})
                continue
            a = {"MpiSend": {"receiver": e[2], "communicator": "Comm 0", "msg_tag": 3, "msg_length": e[3]},
                 "MpiRecv": {"sender": e[2], "communicator": "Comm 0", "msg_tag": 3, "msg_length": e[3]},
                 "MpiIsend": {"receiver": e[2], "communicator": "Comm 0", "msg_tag": 0, "msg_length": e[3], "request_id": 5},
                 "MpiIrecv": {"sender": e[2], "communicator": "Comm 0", "msg_tag": 0, "msg_length": e[3], "request_id": 5},
                 "MpiIsendComplete": {"request_id": e[3]}, "MpiIrecvRequest": {"request_id": e[3]},
                 "ThreadFork": {"model": "Paradigm.OPENMP", "number_of_requested_threads": e[2]}, "ThreadJoin": {"model": "Paradigm.OPENMP"},
                 "ParameterInt": {"parameter": "Parameter 0", "value": e[3]}, "Leave": None,
                 "Enter": {"region": "Region %d" % e[2]}}[k]
            if k == "Enter" and e[3] == 8: a["attributes"] = {"Attribute 0": 8}
            R.append([t, l, k if k in ("Enter", "Leave") else "Instant", case["regions"][e[2]] if k in ("Enter", "Leave") else k,
                      case["grp"][l], l - low[case["grp"][l]], a, mval if mtime == t else {}])
            mtime, mval = None, {}
    R.sort(key=lambda r: (r[0], r[1]))
    return R

def same_plain(g, w):
    return (g is None or isnull(g)) if w is None else isinstance(g, dict) and same(g, w)

def check_otf2(case, workers):
    import pipit.trace
    want = rows_otf2(case)
    if not want:
        return
    with scratch() as d:
        arch = write_otf2(d, case)
        for w in workers:
            t = pipit.trace.Trace.from_otf2(arch) if w == "default" else pipit.trace.Trace.from_otf2(arch, num_processes=w)
            ev, tag = t.events, "with %r workers: " % (w,) if len(workers) > 1 else ""
            expect(len(ev) == len(want), "%s%d rows, expected %d", tag, len(ev), len(want))
            expect(list(ev.index) == list(range(len(want))), "%srows are not numbered from 0", tag)
            check_col(ev, "Timestamp (ns)", [r[0] * 10**9 / case["resolution"] for r in want], tag + "time", cmp=lambda a, b: close(a, b, rel=1e-12))
            for j, c in ((4, "Process"), (5, "Thread"), (2, "Event Type"), (3, "Name")):
                check_col(ev, c, [r[j] for r in want], tag + c)
            check_col(ev, "Attributes", [r[6] for r in want], tag + "attributes", cmp=same_plain)
            for m in case["members"]:
                vals = [r[7].get(m) for r in want]
                if any(v is not None for v in vals) or m in ev.columns:
                    check_col(ev, m, vals, tag + m)

@register
class C19(Prop):
    id = "C19"
    def gen(self, rng):
        return gen_otf2(rng)
    def small(self):
        base = {"cpu": [True, True], "ngrp": 2, "regions": ["f", "g"], "members": ["M0", "M1"], "classes": [[0], [1]], "offset": 3, "resolution": 10**9, "base": 0}
        for k in KINDS[:-1]:
            for grp in ([0, 1], [1, 0], [0, 0], [1, 1]):
                yield dict(base, grp=grp, events=[[[5, k, 1, 8], [6, "Leave", 0, 0]], [[5, "Enter", 0, 0], [5, k, 0, 1]]])
        for c in (0, 1):
            yield dict(base, grp=[0, 1], events=[[[5, "Metric", c, [7]], [5, "Enter", 0, 0], [6, "Enter", 1, 0]], [[5, "Enter", 0, 0], [9, "Metric", 1 - c, [3]], [9, "Leave", 0, 0]]])
        yield dict(base, grp=[0, 1], resolution=10**6, events=[[[5, "Metric", 0, [7]], [5, "Metric", 1, [8]], [5, "Enter", 0, 0]], []])
    def check(self, case):
        check_otf2(case, [1])

# ============================================================================= C17
@register
class C17(Prop):
    id = "C17"
    def gen(self, rng):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12])
        ws = ["default"] + rng.sample([None, 0, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100], 3)
        if rng.random() < .6:
            c = C18().gen(rng, npes=n)
            for L in c["logs"]: del L[30:]
            return {"what": "projections", "case": c, "workers": ws}
        c = gen_otf2(rng, nloc=n)
        return {"what": "otf2", "case": c, "workers": ws}
    def small(self):
        for n in (1, 2, 3, 5, 8, 11):
            s = {"chares": [["Main", 0]], "entries": {"0": ["e", 0]}, "events": {"1": "x"}, "stats": {}, "papi": 0, "blank": False}
            yield {"what": "projections", "case": {"sts": s, "logs": [[[6, 1], [14, 5, i], [15, 5, i], [7, 6]] for i in range(n)]}, "workers": [1, 2, 3, 4, 5, 7, 8, 100]}
            c = {"cpu": [True] * n, "ngrp": 2, "grp": [i * 2 // n for i in range(n)], "regions": ["f", "g"], "members": [], "classes": [], "offset": 3, "resolution": 10**9, "base": 0,
                 "events": [[[5, "Enter", 0, 0], [6, "Enter", 1, 0], [6, "Leave", 1, 0], [6 + i % 3, "ThreadFork", i, 0], [9, "Leave", 0, 0]] for i in range(n)]}
            yield {"what": "otf2", "case": c, "workers": [1, 2, 3, 4, 5, 7, 8, 100]}
    def check(self, case):
        (check_projections if case["what"] == "projections" else check_otf2)(case["case"], case["workers"])

# ============================================================================= HPCToolkit
import struct

def gen_hpct(rng, deep=False):
    strs = rng.sample(["main", "foo", "MPI_Send", "<unknown>", "operator->", "a b", "\u00e9t\u00e9", "\u4e2d\u6587\u540d", "f\U0001f600", "libx.so", "/usr/lib/libc.so.6", "x.c", "/a/b/y.cpp", "main thread", "unknown entry", "k" * 70, "loop", "z.h"], 12)
    nmod, nfile, nfun = rng.choice([1, 2, 4]), rng.choice([1, 2, 4]), rng.choice([1, 2, 5])
    si = lambda: rng.randrange(len(strs))
    line = lambda: rng.choice([0, 1, 12, 255, 256, 65535, 65536, 70000, 2**24 + 5, 2**31 + 9, 2**32 - 1])
    case = {"strings": strs, "modules": [si() for _ in range(nmod)], "files": [si() for _ in range(nfile)],
            "functions": [], "trees": [], "idnames": rng.choice([["SUMMARY", "NODE", "RANK", "THREAD", "GPUDEVICE", "GPUCONTEXT", "GPUSTREAM", "CORE"], ["RANK", "CORE", "THREAD", "NODE", "X\u00e9"], ["SUMMARY", "NODE", "RANK", "THREAD", "GPUDEVICE", "GPUCONTEXT", "GPUSTREAM", "CORE"]]),
            "title": rng.choice(["t", "\u00e9\u00e9", ""]), "pad": rng.random() < .7, "shuffle": rng.randrange(10**6)}
    for _ in range(nfun):
        f = {"name": si() if rng.random() < .85 else None, "module": rng.randrange(nmod) if rng.random() < .8 else None, "file": rng.randrange(nfile) if rng.random() < .8 else None, "line": line(), "offset": rng.choice([0, 0x1000, 2**40 + 3])}
        if f["name"] is None and f["module"] is None and f["file"] is None: f["module"] = 0
        case["functions"].append(f)
    ids = rng.sample(range(1, 400), 120) if rng.random() < .7 else list(range(1, 121))
    if rng.random() < .2: ids = [i * 1000003 % (2**32 - 1) or 7 for i in ids]
    ids = list(dict.fromkeys(ids)); ids.reverse()
    budget = rng.choice([1, 4, 10, 30, 70])
    def ctx(depth):
        nonlocal budget
        budget -= 1
        lt = rng.choice([0, 0, 0, 1, 2, 3])
        c = {"id": ids.pop(), "type": lt, "relation": rng.choice([0, 1, 2]), "fn": None, "src": None, "pt": None, "children": [], "prop": rng.choice([0, 1, 65535])}
        if lt == 0 and rng.random() < .85 or rng.random() < .1: c["fn"] = rng.randrange(nfun)
        if lt in (1, 2) or rng.random() < .35: c["src"] = [rng.randrange(nfile), line()]
        if lt == 3 or rng.random() < .25: c["pt"] = [rng.randrange(nmod), rng.choice([0, 0x4010, 2**33 + 1])]
        if depth < (40 if deep else 12):
            while budget > 0 and rng.random() < (.8 if deep else .55) and len(c["children"]) < 5:
                c["children"].append(ctx(depth + 1))
        return c
    for _ in range(rng.choice([1, 1, 2, 3])):
        e = {"id": ids.pop(), "name": si(), "entry": rng.choice([0, 1, 2]), "children": []}
        while budget > 0 and len(e["children"]) < 4 and rng.random() < .8:
            e["children"].append(ctx(1))
        case["trees"].append(e)
    allids = [0]
    def walk(c):
        allids.append(c["id"])
        for k in c["children"]: walk(k)
    for e in case["trees"]: walk(e)
    kinds = case["idnames"]
    nprof = rng.choice([1, 2, 3])
    case["hits"] = []
    for p in range(nprof):
        pick = [k for k in kinds if rng.random() < .8 or k in ("RANK", "THREAD")]
        case["hits"].append([[kinds.index(k), rng.randrange(4), {"RANK": p, "THREAD": rng.choice([0, 1, 500]), "CORE": rng.choice([0, 7, 300]), "NODE": rng.choice([0x7f0101, 2**63 + 5, 2**64 - 1])}.get(k, rng.randrange(100)), 1 if k in ("NODE", "CORE") else 0] for k in pick])
    case["summary"] = rng.random() < .6
    case["profiles"] = list(range(nprof))
    rng.shuffle(case["profiles"])
    case["lines"] = []
    t0 = rng.choice([0, 1000, 1660000000000000000])
    for i in range(rng.randint(1, nprof)):
        t, prev, L = t0 + rng.choice([0, 0, 5]), None, []
        sub = rng.sample(allids, min(len(allids), rng.choice([2, 3, 8, 100]))) + [0]
        for _ in range(core.size(rng, 60)):
            cid = rng.choice(sub) if rng.random() < .9 else prev if prev is not None else 0
            if cid == 0 and prev == 0: cid = rng.choice(allids)
            if cid == 0 and prev == 0: continue
            L.append([t, cid]); prev = cid
            t += rng.choice([0, 1, 1, 100, 12345])
        case["lines"].append([i, L])
    ts = [s[0] for _, L in case["lines"] for s in L] or [t0]
    case["min"], case["max"] = min(ts), max(ts) + rng.choice([0, 0, 3])
    case["stride"] = {k: rng.choice([0, 0, 8, 16, 40]) for k in ("module", "file", "function", "entry", "profile", "trace")}
    return case

class Image:
    """a file under construction: blocks are placed first, then filled"""
    def __init__(self, header, rng, pad):
        self.rng, self.pad, self.at, self.b = rng, pad, header, {}
        self.pending = []
    def place(self, size, align=8):
        if self.pad: self.at += self.rng.choice([0, 0, 8, 24])
        self.at = (self.at + align - 1) // align * align
        a = self.at
        self.at += size
        return a
    def put(self, addr, data):
        self.b[addr] = bytes(data)
    def image(self, tail):
        buf = bytearray(self.rng.choice([b"\0", b"\xa5"]) * (self.at + (-self.at) % 8)) if self.pad else bytearray(self.at + (-self.at) % 8)
        for a, d in self.b.items():
            buf[a:a + len(d)] = d
        return bytes(buf) + tail

def gap(d, n, rng, pad):
    """structure d extended to n bytes (fields of a later minor version)"""
    return d + (bytes(rng.randrange(256) for _ in range(n - len(d))) if pad else bytes(n - len(d)))

def write_hpct(d, case):
    import random
    rng = random.Random(case["shuffle"])
    pad, S = case["pad"], case["stride"]
    U = "utf-8"
    st = lambda fmt, *a: struct.pack("<" + fmt, *a)
    # ---- meta.db
    im = Image(0x10 + 16 * 8, rng, pad)
    order = ["general", "idnames", "metrics", "context", "strings", "modules", "files", "functions"]
    strbytes = [s.encode(U) + b"\0" for s in case["strings"]]
    sz = {"m": 16 + S["module"], "f": 16 + S["file"], "fn": 40 + S["function"], "e": 32 + S["entry"]}
    arrays = []     # (list of contexts, size)
    def csize(c): return 0x20 + 8 * ((c["fn"] is not None) + 2 * (c["src"] is not None) + 2 * (c["pt"] is not None))
    def collect(c):
        c["_sz"] = sum(csize(k) for k in c["children"])
        if c["children"]: arrays.append(c)
        for k in c["children"]: collect(k)
    trees = json.loads(json.dumps(case["trees"]))
    for e in trees: collect(e)
    sec, size = {}, {}
    place_order = list(order)
    if pad: rng.shuffle(place_order)
    base = {}
    for s in place_order:
        if s == "strings":
            n = sum(map(len, strbytes))
            sec[s] = im.place(n); size[s] = n
        elif s == "general":
            a = im.place(16); x = im.place(len(case["title"].encode(U)) + 1, 1); y = im.place(6, 1)
            sec[s], size[s] = a, y + 6 - a
            im.put(a, st("QQ", x, y)); im.put(x, case["title"].encode(U) + b"\0"); im.put(y, b"# md\0")
        elif s == "idnames":
            a = im.place(16); arr = im.place(8 * len(case["idnames"]))
            ps = []
            for nme in case["idnames"]:
                e = nme.encode(U) + b"\0"
                p = im.place(len(e), 1); im.put(p, e); ps.append(p)
            im.put(a, st("QB", arr, len(ps))); im.put(arr, st("%dQ" % len(ps), *ps))
            sec[s], size[s] = a, im.at - a
        elif s == "metrics":
            a = im.place(0x20); sec[s], size[s] = a, 0x20
            im.put(a, st("QIBBBxQHB", a, 0, 32, 16, 24, a, 0, 16))
        elif s in ("modules", "files", "functions"):
            a = im.place(16)
            k = {"modules": "m", "files": "f", "functions": "fn"}[s]
            arr = im.place(sz[k] * len(case[s]))
            base[s] = arr
            sec[s], size[s] = a, im.at - a
            im.put(a, st("QIH", arr, len(case[s]), sz[k]))
        else:
            a = im.place(16)
            arr = im.place(sz["e"] * len(trees))
            base["entries"] = arr
            al = list(arrays)
            if pad: rng.shuffle(al)
            for c in al: c["_at"] = im.place(c["_sz"])
            sec[s], size[s] = a, im.at - a
            im.put(a, st("QHB", arr, len(trees), sz["e"]))
    sp, at = [], sec["strings"]
    for b in strbytes:
        sp.append(at); at += len(b)
    im.put(sec["strings"], b"".join(strbytes))
    im.put(base["modules"], b"".join(gap(st("IIQ", 0, 0, sp[m]), sz["m"], rng, pad) for m in case["modules"]))
    im.put(base["files"], b"".join(gap(st("IIQ", 1, 0, sp[m]), sz["f"], rng, pad) for m in case["files"]))
    mp = lambda i: 0 if i is None else base["modules"] + i * sz["m"]
    fp = lambda i: 0 if i is None else base["files"] + i * sz["f"]
    im.put(base["functions"], b"".join(gap(st("QQQQII", 0 if f["name"] is None else sp[f["name"]], mp(f["module"]), f["offset"], fp(f["file"]), f["line"], 0), sz["fn"], rng, pad) for f in case["functions"]))
    for c in arrays:
        out = b""
        for k in c["children"]:
            flex = b""
            if k["fn"] is not None: flex += st("Q", base["functions"] + k["fn"] * sz["fn"])
            if k["src"] is not None: flex += st("QII", fp(k["src"][0]), k["src"][1], rng.randrange(2**32) if pad else 0)
            if k["pt"] is not None: flex += st("QQ", mp(k["pt"][0]), k["pt"][1])
            fl = (k["fn"] is not None) + 2 * (k["src"] is not None) + 4 * (k["pt"] is not None)
            out += st("QQIBBBBH", k["_sz"], k.get("_at", 0), k["id"], fl, k["relation"], k["type"], len(flex) // 8, k["prop"]) + (bytes(rng.randrange(256) for _ in range(6)) if pad else bytes(6)) + flex
        im.put(c["_at"], out)
    im.put(base["entries"], b"".join(gap(st("QQIHHQ", e["_sz"], e.get("_at", 0), e["id"], e["entry"], 0, sp[e["name"]]), sz["e"], rng, pad) for e in trees))
    im.put(0, b"HPCTOOLKITmeta" + bytes([4, 0]) + b"".join(st("QQ", size[s], sec[s]) for s in order))
    open(os.path.join(d, "meta.db"), "wb").write(im.image(b"_meta.db"))
    # ---- profile.db
    im = Image(0x10 + 16 * 2, rng, pad)
    hits = [st("H6x", len(h)) + b"".join(st("BxHIQ", k, ph, log if not ph else 3, phys) for k, log, phys, ph in h) for h in case["hits"]]
    hsec = im.place(sum(map(len, hits)))
    hp, at = [], hsec
    for h in hits:
        hp.append(at); at += len(h)
    im.put(hsec, b"".join(hits))
    a = im.place(16)
    psz = 48 + S["profile"]
    profs = ([None] if case["summary"] else []) + case["profiles"]
    arr = im.place(psz * len(profs))
    im.put(a, st("QIB", arr, len(profs), psz))
    im.put(arr, b"".join(gap(bytes(32) + st("QII", 0 if p is None else hp[p], 1 if p is None else 0, 0), psz, rng, pad) for p in profs))
    im.put(0, b"HPCTOOLKITprof" + bytes([4, 0]) + st("QQQQ", arr + psz * len(profs) - a, a, sum(map(len, hits)), hsec))
    open(os.path.join(d, "profile.db"), "wb").write(im.image(b"_prof.db"))
    # ---- trace.db
    im = Image(0x10 + 16, rng, pad)
    lines = []
    for i, L in case["lines"]:
        p = im.place(12 * len(L), 4)
        im.put(p, b"".join(st("QI", t, c) for t, c in L))
        lines.append((i, p, p + 12 * len(L)))
    a = im.place(0x20)
    tsz = 24 + S["trace"]
    arr = im.place(tsz * len(lines))
    im.put(a, st("QIB3xQQ", arr, len(lines), tsz, case["min"], case["max"]))
    im.put(arr, b"".join(gap(st("IIQQ", i + (1 if case["summary"] else 0), 0, x, y), tsz, rng, pad) for i, x, y in lines))
    im.put(0, b"HPCTOOLKITtrce" + bytes([4, 0]) + st("QQ", arr + tsz * len(lines) - a, a))
    open(os.path.join(d, "trace.db"), "wb").write(im.image(b"trace.db"))

def spec_contexts(case):
    """ctxId -> {info, node: ctxId of the call/loop it stands for, path: ctxIds of the open calls}"""
    S, out = case["strings"], {}
    mod = lambda i: "" if i is None else S[case["modules"][i]]
    fil = lambda i: "" if i is None else S[case["files"][i]]
    def walk(c, parent, proot, pnode):
        f = case["functions"][c["fn"]] if c["fn"] is not None else None
        file, line = c["src"] if c["src"] is not None else (None, None)
        module = c["pt"][0] if c["pt"] is not None else None
        if c["type"] == 0:
            if proot and f is not None: file, line, module = f["file"], f["line"], f["module"]
            else:
                if file is None: file = parent["file"]
                if line is None: line = parent["line"]
                if module is None: module = parent["module"]
        me = {"file": file, "line": line, "module": module}
        name = "loop" if c["type"] == 1 else S[f["name"]] if f is not None and f["name"] is not None else "<unkown function>"
        node = c["id"] if c["type"] in (0, 1) else pnode
        path = out[pnode]["path"] + ([c["id"]] if node == c["id"] else [])
        out[c["id"]] = {"path": path, "node": node, "loop": c["type"] == 1, "name": name,
                        "info": {"module": mod(module), "file": fil(file), "function": name, "line": -1 if line is None else str(line), "lexical_type": c["type"], "relation": c["relation"], "loop_type": c["type"] == 1}}
        for k in c["children"]: walk(k, me, False, node)
    for e in case["trees"]:
        out[e["id"]] = {"path": [e["id"]], "node": e["id"], "loop": False, "name": S[e["name"]], "info": {"module": "", "file": "", "function": S[e["name"]], "line": -1, "relation": -1, "lexical_type": -1, "loop_type": False}}
        for k in e["children"]: walk(k, {"file": None, "line": None, "module": None}, True, e["id"])
    return out

def rows_hpct(case, ctx):
    R = []
    for i, L in case["lines"]:
        hit = case["hits"][case["profiles"][i]]
        ident = {case["idnames"][k]: phys for k, _, phys, _ in hit}
        who = [ident.get("RANK"), ident.get("THREAD"), ident.get("CORE"), ident.get("NODE")]
        open_ = []
        def emit(t, c, enter):
            x = ctx[c]
            R.append([t - case["min"], ("Loop " if x["loop"] else "") + ("Enter" if enter else "Leave"), x["name"], c, x["info"]["file"], x["info"]["line"], who, i])
        for t, cid in L + [[case["max"], 0]]:
            path = ctx[cid]["path"] if cid else []
            k = 0
            while k < min(len(path), len(open_)) and path[k] == open_[k]: k += 1
            for c in reversed(open_[k:]): emit(t, c, False)
            for c in path[k:]: emit(t, c, True)
            open_ = list(path)
    return sorted(R, key=lambda r: r[0])

def read_hpct(case):
    import pipit.trace
    from pipit.readers.hpctoolkit_reader import HPCToolkitReader
    with scratch() as d:
        write_hpct(d, case)
        rd = HPCToolkitReader(d)
        return rd, rd.read()

def small_hpct():
    import random
    for k in range(120):
        rng = random.Random("h%d" % k)
        c = gen_hpct(rng)
        yield c
    for k in range(20):
        yield gen_hpct(random.Random("deep%d" % k), deep=True)

class HProp(Prop):
    def gen(self, rng):
        return gen_hpct(rng, deep=rng.random() < .2)
    def small(self):
        return small_hpct()

@register
class C20(HProp):
    id = "C20"
    def check(self, case):
        ctx = spec_contexts(case)
        want = rows_hpct(case, ctx)
        rd, t = read_hpct(case)
        ev = t.events
        expect(len(ev) == len(want), "%d rows, expected %d", len(ev), len(want))
        if not want: return
        for c, j in (("Timestamp (ns)", 0), ("Event Type", 1), ("Calling Context ID", 3)):
            check_col(ev, c, [r[j] for r in want], c)
        nodes = list(ev["Node"])
        for i, r in enumerate(want):
            expect(nodes[i] is rd.meta_reader.node_map[r[3]], "Node of row %d is not the node of its context", i)

@register
class C21(HProp):
    id = "C21"
    def check(self, case):
        ctx = spec_contexts(case)
        want = rows_hpct(case, ctx)
        rd, t = read_hpct(case)
        ev, M = t.events, rd.meta_reader
        for cid, x in ctx.items():
            got = M.get_information_from_context_id(cid)
            for k, v in x["info"].items():
                g = got.get(k, "missing")
                if k in ("relation", "lexical_type") and v == -1: continue
                expect(same(g, v) and isinstance(g, str) == isinstance(v, str), "%s of context %d is %r, expected %r", k, cid, g, v)
        def walk(c, pn):
            for k in c["children"]:
                n = M.node_map[k["id"]]
                if k["type"] in (0, 1):
                    expect(n.parent is pn, "parent of context %d is wrong", k["id"])
                    expect(sum(1 for y in pn.children if y is n) == 1, "context %d is not once among its parent's children", k["id"])
                else:
                    expect(n is pn, "context %d does not stand for its enclosing call", k["id"])
                walk(k, n)
        expect([M.nid_to_ctx[r._pipit_nid] for r in t.cct.roots] == [e["id"] for e in case["trees"]], "roots are wrong")
        for e in case["trees"]: walk(e, M.node_map[e["id"]])
        expect(len(ev) == len(want), "%d rows, expected %d", len(ev), len(want))
        if not want: return
        check_col(ev, "Name", [r[2] for r in want])
        check_col(ev, "Source File Name", [r[4] for r in want])
        check_col(ev, "Source File Line Number", [r[5] for r in want])
        for j, c in enumerate(("Process", "Thread", "Core", "Host")):
            vals = [r[6][j] for r in want]
            if any(v is not None for v in vals) or c in ev.columns:
                check_col(ev, c, vals)
