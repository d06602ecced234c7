"""C17: parallel reading.  Any number N >= 1 of logs / locations, any requested number of workers.  Shown:
* division: worker r of s is given a non-empty stretch of consecutive logs (locations); worker 0 starts at the first, worker r + 1 starts
  where worker r ends, worker s - 1 ends at the last.  By induction over r the stretches, one after the other, are all logs, each once, in order;
* a worker gives one table per log of its stretch, in order, each made of lists made for this log (what is in it: C18);
* read: the workers 0 .. s - 1 of s are asked, 1 <= s <= N, whatever number was requested; the tables are put together in the order of
  the workers; the result is the rows so recorded, stably sorted by time, numbered from 0 - which does not mention s."""
import z3
from contract import *
from tables import *
from tracebase import *


class Word(SName):
    __slots__ = ()

    def vc_int(self, *a): return SNum(ctx().fresh("int", I))
    def vc_float(self): return SNum(ctx().fresh("float", R))
    def isnumeric(self): return SBool(ctx().fresh("numeric", B))
    isdigit = isdecimal = isnumeric


def word(): return Word(ctx().fresh("word", I))


class Words(SSeqBase):
    """the words of a line (a line with words missing is not well formed)"""

    def __init__(self): self.n = ctx().fresh("words", I); ctx().assume(self.n >= 0)
    def length(self): return self.n
    def at(self, k): return word()
    def __getitem__(self, k): return Words() if isinstance(k, slice) else word()
    def vc_iter(self): return Seq(self.n, lambda k: word())
    def vc_len(self): return self.n
    def vc_kind(self): return ("fixed", self)


class ALine:
    def split(self, *a, **k): return Words()
    def strip(self, *a): return self
    rstrip = lstrip = strip
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on a line" % a)


class ALog:
    def __init__(self, c):
        self.n = c.fresh("nlines", I)
        c.assume(self.n >= 0)

    def vc_iter(self): return Seq(self.n, lambda l: ALine(), "line")
    def readlines(self): return self.vc_iter()
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("file operation .%s" % a)


class ASts:
    def get_entry_name(self, i): return word()
    def get_user_event(self, i): return word()
    def get_user_stat(self, i): return word()
    def get_event_name(self, i): return word()
    def get_dimension(self, i): return SNum(ctx().fresh("dim", I))

    def get_num_perf_counts(self):
        n = ctx().fresh("papi", I)
        ctx().assume(n >= 0)
        return SNum(n)

    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        if a == "num_pes":
            return ctx().env["reader_npes"]
        raise Unsupported("STSReader.%s" % a)


class StretchInv(Invariant):
    """loop over the logs of a worker"""
    name = "logs"

    def match(self, st):
        if st.seq is None or getattr(st.seq, "tag", None) == "line" or "in_log" in ctx().env:
            return None
        return {"seq": st.seq}

    def clauses(self, c, st, bind):
        k, out = st.k, []
        for v, x in sorted(st.L.items()):
            if isinstance(x, SList) and st.changed(x):
                out.append(("%s has one table per log" % v, [], lambda x=x: x.length() == k, True))
                if not (x.concrete and not x.items) and x.ekind in (None, ("int",)):
                    out.append(("%s has the tables of the logs in order" % v, [x.tag], lambda i, x=x: z3.Implies(z3.And(0 <= i, i < k), expr(x.at(i)) == expr(bind["seq"].at(i))), True))
                else:
                    out.append(("%s has the tables of the logs in order" % v, ["none"], lambda i: z3.BoolVal(True), True))
        return out

    def iteration(self, c, st, bind):
        c.env["pe"] = expr(st.seq.at(st.k))
        c.env["made_before"] = set(c.env.get("objs", {}))


class LinesInv(Invariant):
    """loop over the lines of a log"""
    name = "lines"

    def match(self, st):
        return {} if st.seq is not None and getattr(st.seq, "tag", None) == "line" else None

    def clauses(self, c, st, bind):
        out = []
        for v, x in sorted(st.L.items()):
            d = x.d if isinstance(x, SDict) else x
            if isinstance(d, dict) and d and all(isinstance(y, SList) for y in d.values()):
                first = next(iter(d))
                for n in d:
                    out.append(("%s[%s] and %s[%s] have the same length" % (v, n, v, first), [], lambda d=d, n=n, first=first: d[n].length() == d[first].length(), True))
        return out


class Stretches(Contract):
    """the logs read by the workers"""
    name = "ProjectionsReader._read_log_file: division"
    functions = ["pipit.readers.projections_reader." + f for f in ("ProjectionsReader._read_log_file", "ProjectionsReader._create_empty_dict", "_add_to_trace_dict")]
    invariants = [StretchInv, LinesInv]
    trusted = ["gzip.open gives the lines of a log; pd.concat puts tables one after the other"]

    def stubs(self):
        def gopen(path, mode="r", *a, **kw):
            c = ctx()
            pe = c.env.get("pe")
            if pe is None:
                raise Unsupported("gzip.open of this file")
            c.prove("the file opened is the log of the processor", expr(path) == expr(strcat(strcat("loc.", instrument.sstr(SNum(pe))), ".log.gz")))
            c.env["in_log"] = True
            return ALog(c)

        def frame(data=None, *a, **kw):
            c = ctx()
            d = data.d if isinstance(data, SDict) else data
            if not isinstance(d, dict) or not all(isinstance(v, SList) for v in d.values()) or a or kw or "pe" not in c.env:
                raise Unsupported("DataFrame of this")
            c.prove("the table of a log is made of lists made for it", all(v.oid not in c.env["made_before"] for v in d.values()))
            return SNum(c.env["pe"])

        def concat(objs, *a, **kw):
            if not isinstance(objs, SList):
                raise Unsupported("concat of this")
            return ("concat", freeze(objs))
        return {"pandas": Mod("pandas", DataFrame=frame, concat=concat), "gzip": Mod("gzip", open=gopen), "numpy": numpy_mod(), "os": Mod("os"), "multiprocessing": Mod("multiprocessing")}

    def call(self, c, mod, N, rank, size):
        for k in ("pe", "in_log", "made_before"):
            c.env.pop(k, None)
        r = object.__new__(mod.ProjectionsReader)
        r.__dict__.update(executable_location="loc", num_pes=SNum(N), num_processes=SNum(size), create_cct=False)
        res, _ = guarded(c, "_read_log_file", lambda: r._read_log_file((SNum(rank), SNum(size))))
        if not (isinstance(res, tuple) and res[0] == "concat"):
            raise Unsupported("the tables are not put together by concat")
        return res[1]

    def run(self, c, load):
        mod = load("pipit.readers.projections_reader")
        mod.__dict__["STSReader"] = lambda path: ASts()
        c.env["element"] = lambda d: SName(c.fresh("attrs", I))
        N, r, s = c.fresh("num_logs", I), c.fresh("rank", I), c.fresh("size", I)
        c.env["reader_npes"] = SNum(N)
        c.assume(z3.And(1 <= s, s <= N, 0 <= r, r < s))
        division(c, N, r, s, lambda rank: self.call(c, mod, N, rank, s), "log")


def division(c, N, r, s, call, what, nonempty=True):
    """the claims about the stretches, call(rank) -> list of the numbers read"""
    def stretch(rank):
        L = call(rank)
        n = L.length()
        if nonempty:
            c.prove("a worker is given at least one %s" % what, n >= 1)
        i = c.fresh("i", I)
        if getattr(L, "tag", None):
            c.term(L.tag, i)
            c.term(L.tag, z3.IntVal(0))
            c.term(L.tag, n - 1)
        at = lambda i: expr(L.at(i))
        c.prove("the %ss of a worker are consecutive" % what, z3.Implies(z3.And(0 <= i, i < n), at(i) == at(z3.IntVal(0)) + i))
        return at(z3.IntVal(0)), at(n - 1)
    case = c.choose(3, "which workers")
    if case == 0:
        c.prove("the first worker starts with the first %s" % what, stretch(z3.IntVal(0))[0] == 0)
    elif case == 1:
        c.prove("the last worker ends with the last %s" % what, stretch(s - 1)[1] == N - 1)
    else:
        c.assume(r + 1 < s)
        a = stretch(r)
        b = stretch(r + 1)
        c.prove("a worker starts where the one before it ends", b[0] == a[1] + 1)


class Pool:
    """multiprocessing.Pool: map gives the results in the order of the arguments"""

    def __init__(self, k=None, *a, **kw):
        pass

    def map(self, f, xs, *a, **kw): return ctx().env["asked"].map(f, xs)
    imap = map

    def imap_unordered(self, f, xs, *a, **kw):
        c = ctx()
        perm = c.fresh_fn("any_order", I, I)
        L = self.map(f, xs)
        return SList(None, L.length(), lambda k: SNum(perm(k)), ("int",))

    def close(self): pass
    join = terminate = close
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("Pool.%s" % a)


class Asked:
    """what the workers are asked for, and the events as recorded: the tables of the workers one after the other (the division gives
    all logs in order, whatever the number of workers; the table of a log depends on the log only)"""

    def __init__(self, c, reader, method, N, extra=()):
        self.c, self.reader, self.method, self.N = c, reader, method, N
        self.size = None
        self.T = Table("recorded")
        ts, ty, nm, pr, at, th = c.fresh_fn("ts", I, R), c.fresh_fn("etype", I, I), c.fresh_fn("name", I, I), c.fresh_fn("proc", I, I), c.fresh_fn("attrs", I, I), c.fresh_fn("thread", I, I)
        self.ts = ts
        self.cols = {TS: lambda r: SNum(ts(r)), ET: lambda r: SName(ty(r)), NM: lambda r: SName(nm(r)), PR: lambda r: SNum(pr(r)), "Attributes": lambda r: SName(at(r))}
        if "Thread" in extra:
            self.cols["Thread"] = lambda r: SNum(th(r))

    def map(self, f, xs):
        c = self.c
        if getattr(f, "__self__", None) is not self.reader() or getattr(f, "__name__", "") != self.method or self.size is not None:
            raise Unsupported("Pool.map of another function")
        xs = xs if hasattr(xs, "length") else SList(list(xs))
        n = self.size = xs.length()
        k = c.fresh("worker", I)
        if getattr(xs, "tag", None):
            c.term(xs.tag, k)
        with c.scope():
            c.assume(z3.And(0 <= k, k < n), True)
            a = xs.at(k)
            if not isinstance(a, tuple) or len(a) != 2:
                raise Unsupported("arguments of the workers")
            c.prove("worker k of s is asked for stretch k of s", z3.And(expr(num(a[0])) == k, expr(num(a[1])) == n))
        c.prove("there is at least one worker", 1 <= n)
        if self.N is not None:
            c.prove("there is at least one log for each worker", n <= self.N)
        return SList(None, n, lambda k: SNum(k), ("int",))

    def concat(self, objs, axis=0, ignore_index=False, sort=False, copy=None, **kw):
        c = self.c
        if not isinstance(objs, SSeqBase) or axis not in (0, "index") or kw or self.size is None:
            raise Unsupported("concat of this")
        k = c.fresh("part", I)
        c.prove("as many tables as workers", objs.length() == self.size)
        if getattr(objs, "tag", None):
            c.term(objs.tag, k)
        with c.scope():
            c.assume(z3.And(0 <= k, k < self.size), True)
            c.prove("the tables are put together in the order of the workers", expr(num(objs.at(k))) == k)
        f = SFrame(self.T.all, {n: Col(fn) for n, fn in self.cols.items()})
        if not ignore_index:
            lab = c.fresh_fn("label", I, I)
            f.labels = Labels(lambda r: SNum(lab(r)))
        return f


def num(v): return v if isinstance(v, SNum) else SNum(z3.IntVal(v))


class Dir(list):
    """the files of the directory of a trace: the sts file and the logs"""
    def vc_contains(self, x): return True


def result(c, q, F, times=True):
    """the table is the recorded events, stably sorted by time, numbered from 0"""
    if not isinstance(F, SFrame):
        raise Unsupported("the events are no table")
    c.prove("rows are numbered from 0", F.labels is None and F.view.is_all)
    ways = Origin(F, q.T).ways()
    c.prove("rows come from the recorded events once", len(ways) == 1)
    way, back, fwd = ways[0]
    r0 = q.T.skolem("recorded_event")
    obs, row = fwd(r0)
    for o in obs:
        c.prove("every recorded event becomes a row", o)
    F.view.table.row(row)
    c.prove("the row of an event is a row", z3.And(0 <= row, row < F.view.table.n))
    k = F.view.table.skolem("row")
    cond, rec = back(k)
    q.T.row(rec)
    c.prove("every row is a recorded event", z3.And(cond, 0 <= rec, rec < q.T.n))
    c.prove("different rows are different events", z3.Implies(rec == r0, k == row))
    for n, fn in q.cols.items():
        if n == TS and not times:
            continue
        if not z3.is_true(z3.simplify(F.has(n))):
            c.prove("column %s is there" % n, F.has(n))
            continue
        c.prove("%s of an event is kept" % n, same(F.colfn(n)(k), fn(rec)))
    k2 = F.view.table.skolem("row")
    cond2, rec2 = back(k2)
    q.T.row(rec2)
    ts = F.colfn(TS)
    a, b = real(valof(ts(k))), real(valof(ts(k2)))
    c.prove("rows are in order of time", z3.Implies(k < k2, a <= b))
    c.prove("events of equal time keep their order", z3.Implies(z3.And(k < k2, a == b), rec < rec2))


def workers(c):
    """the number of workers requested"""
    return None if c.choose(2, "workers requested") == 0 else SNum(c.fresh("num_processes", I))


def mp_mod(c):
    cpus = c.fresh("cpus", I)
    c.assume(cpus >= 1)
    return Mod("multiprocessing", cpu_count=lambda: SNum(cpus), Pool=Pool)


class ReadProjections(Contract):
    name = "ProjectionsReader.read"
    functions = ["pipit.readers.projections_reader.ProjectionsReader.__init__", "pipit.readers.projections_reader.ProjectionsReader.read"]
    trusted = PANDAS + ["mp.Pool(k).map(f, xs) gives [f(x) for x in xs]"]

    class FilesInv(Invariant):
        name = "files"
        def match(self, st): return {} if isinstance(st.seq, SRange) else None
        def clauses(self, c, st, bind): return []

    invariants = [FilesInv]

    def stubs(self):
        path = Mod("path", isdir=lambda p: True, exists=lambda p: True, isfile=lambda p: True, join=lambda a, b: a + "/" + b)
        return {"pandas": pandas_mod(concat=lambda *a, **k: ctx().env["asked"].concat(*a, **k)), "numpy": numpy_mod(), "gzip": Mod("gzip"),
                "os": Mod("os", path=path, listdir=lambda d: Dir(["exe.sts"])), "os.path": path, "multiprocessing": mp_mod(ctx())}

    def run(self, c, load):
        mod = load("pipit.readers.projections_reader")
        N = c.fresh("num_logs", I)
        c.assume(N >= 1)
        c.env["reader_npes"] = SNum(N)
        mod.__dict__["STSReader"] = lambda path: ASts()
        box = []
        q = c.env["asked"] = Asked(c, lambda: box[0], "_read_log_file", N)
        box.append(guarded(c, "__init__", lambda: mod.ProjectionsReader("dir", workers(c)))[0])
        t, _ = guarded(c, "read", lambda: box[0].read())
        result(c, q, t.events)


class Reached(Exception):
    """the events of the locations are asked for"""


class Locations(SSeqBase):
    tag = None

    def __init__(self, n): self.n = n
    def length(self): return self.n
    def at(self, k): return SNum(k)
    def __getitem__(self, k): return seq_get(self, k)
    def vc_iter(self): return Seq(self.n, lambda k: SNum(k))
    def vc_list(self): return self
    def vc_len(self): return self.n
    def vc_kind(self): return ("fixed", self)


class Archive:
    """an OTF2 archive"""

    def __init__(self, q):
        self.q = q
        self.definitions = Definitions(q)

    def events(self, locations=None):
        c = ctx()
        c.env["archive"].asked = locations
        raise Reached()

    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("archive.%s" % a)


class Definitions:
    def __init__(self, q): self._locations = self.locations = q.locations
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("definitions.%s" % a)


class Clock:
    """the table of definitions, as far as the clock properties are selected in it"""

    def __init__(self, props): self.props = props
    def __getitem__(self, k): return self.props if isinstance(k, int) and k in (0, -1) else self
    def __eq__(self, o): return self
    def __and__(self, o): return self
    __hash__ = None
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a in ("loc", "iloc", "values", "array"):
            return self
        if a in ("item", "to_numpy", "to_list", "tolist"):
            return lambda: self.props if a == "item" else self
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("definitions.%s" % a)


class Q:
    asked = None


def otf2_mod():
    return Mod("otf2", reader=Mod("otf2.reader", open=lambda path: Archive(ctx().env["archive"])), events=Mod("otf2.events"))


class Division(Contract):
    """the locations read by the workers"""
    name = "OTF2Reader.events_reader: division"
    functions = ["pipit.readers.otf2_reader.OTF2Reader.events_reader (up to the request for the events)"]
    trusted = ["otf2's trace.events(locations) gives the events of these locations, each once"]

    def stubs(self):
        return {"pandas": pandas_mod(), "numpy": numpy_mod(), "otf2": otf2_mod(), "multiprocessing": mp_mod(ctx())}

    def run(self, c, load):
        mod = load("pipit.readers.otf2_reader")
        N, r, s = c.fresh("num_locations", I), c.fresh("rank", I), c.fresh("size", I)
        c.assume(z3.And(1 <= s, 0 <= N, 0 <= r, r < s))
        q = c.env["archive"] = Q()
        q.locations = Locations(N)
        R_ = object.__new__(mod.OTF2Reader)
        R_.__dict__.update(dir_name="dir", file_name="dir/traces.otf2", num_processes=SNum(s), create_cct=False, definitions=Clock(None), process_threads_map={})

        def stretch(rank):
            q.asked = None
            try:
                R_.events_reader((SNum(rank), SNum(s)))
            except Reached:
                pass
            except Exception as e:
                raise Unsupported("%s: %s" % (type(e).__name__, e)) from e
            a = q.asked
            if not (isinstance(a, Seq) and a.meta.get("slice") and a.meta["slice"][0] is q.locations):
                raise Unsupported("locations asked for are no slice of the locations")
            lo, hi = a.meta["slice"][1:3]
            c.prove("a stretch of locations", z3.And(0 <= lo, lo <= hi, hi <= N))
            return lo, hi
        case = c.choose(3, "which workers")
        if case == 0:
            c.prove("the first worker starts with the first location", stretch(z3.IntVal(0))[0] == 0)
        elif case == 1:
            c.prove("the last worker ends with the last location", stretch(s - 1)[1] == N)
        else:
            c.assume(r + 1 < s)
            a = stretch(r)
            b = stretch(r + 1)
            c.prove("a worker starts where the one before it ends", a[1] == b[0])


class ReadOTF2(Contract):
    name = "OTF2Reader.read"
    functions = ["pipit.readers.otf2_reader.OTF2Reader." + f for f in ("__init__", "read", "read_events")]
    trusted = PANDAS + ["mp.Pool(k).map(f, xs) gives [f(x) for x in xs]", "read_definitions finds the clock properties, with a positive resolution"]

    def stubs(self):
        return {"pandas": pandas_mod(concat=lambda *a, **k: ctx().env["asked"].concat(*a, **k)), "numpy": numpy_mod(), "otf2": otf2_mod(), "multiprocessing": mp_mod(ctx())}

    def run(self, c, load):
        mod = load("pipit.readers.otf2_reader")
        N = c.fresh("num_locations", I)
        c.assume(N >= 1)
        a = c.env["archive"] = Q()
        a.locations = Locations(N)
        box = []
        q = c.env["asked"] = Asked(c, lambda: box[0], "events_reader", None, ("Thread",))
        off, res = c.fresh("global_offset", I), c.fresh("timer_resolution", I)
        c.assume(res > 0)
        box.append(guarded(c, "__init__", lambda: mod.OTF2Reader("dir", workers(c)))[0])
        box[0].__dict__["read_definitions"] = lambda trace: Clock({"global_offset": SNum(off), "timer_resolution": SNum(res)})
        t, _ = guarded(c, "read", lambda: box[0].read())
        result(c, q, t.events, times=False)


def contracts():
    return [Stretches(), ReadProjections(), Division(), ReadOTF2()]


ASSUMPTIONS = NUMERIC + ["mp.Pool(k).map(f, xs) gives [f(x) for x in xs]",
                         "the stretches follow one another (obligations), so by induction over the workers they are all logs / locations in order",
                         "what a worker makes of its locations does not depend on which other locations it reads (OTF2; explored with a bound)"]
