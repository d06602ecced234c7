"""C18: ProjectionsReader._read_log_file.  The logs have any number of lines, a line any number of fields; the contents of the sts
file are arbitrary maps.  For every log read, the table built has, for every line in order, exactly the rows the format gives it
(kind of record -> rows), each on the process of the log, with its time, type, name and attributes; and a closing Computation
Leave at the time of the last row if that row is no computation row.  Ghosts: cnt(l), the number of rows of the lines before l; the
text of a note as a recursive function of its words."""
import z3
from contract import *
from tables import *
from tracebase import NUMERIC

# The format: kind -> (number of fields at least, [row]); a row is (name, type, time, attributes).  F(i): field i as an integer.
FIXED = {14: ("Idle", "Enter"), 15: ("Idle", "Leave"), 16: ("Pack", "Enter"), 17: ("Pack", "Leave"), 18: ("Unpack", "Enter"), 19: ("Unpack", "Leave")}


class STok(SName):
    """a field of a line"""
    __slots__ = ("log",)

    def __init__(self, e, log):
        self.e, self.log = e, log

    def vc_int(self, *a):
        if a:
            raise Unsupported("int with a base")
        return SNum(self.log.intof(self.e))

    def vc_float(self): return SNum(self.log.floatof(self.e))
    def isnumeric(self): return SBool(self.log.isnum(self.e))
    isdigit = isdecimal = isnumeric


class Line:
    def __init__(self, log, l):
        self.log, self.l = log, l

    def split(self, *a, **k):
        if a or k:
            raise Unsupported("split with arguments")
        return Seq(self.log.nt(self.l), lambda i: STok(self.log.tok(self.l, i), self.log), None)

    def strip(self, *a): return self
    def rstrip(self, *a): return self
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on a line" % a)


class LogFile:
    def __init__(self, log): self.log = log
    def vc_iter(self): return Seq(self.log.n, lambda l: Line(self.log, l), self.log.tag)
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("file operation .%s" % a)


class SymMap:
    """a dict with integer keys, by functions"""

    def __init__(self, has, get):
        self.has, self.get_ = has, get

    def vc_contains(self, k): return SBool(self.has(idx_expr(k)))

    def __getitem__(self, k):
        e = idx_expr(k)
        ctx().prove("no KeyError (id known to the sts file)", self.has(e))
        return self.get_(e)

    def get(self, k, d=None):
        e = idx_expr(k)
        return self.get_(e) if bool(SBool(self.has(e))) else d

    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("dict operation .%s" % a)


class Chares:
    """the list of chares: (name, dimensions); a number is never one of its elements"""

    def __init__(self, n, name, dim):
        self.n, self.name, self.dim = n, name, dim

    def vc_contains(self, x):
        if isinstance(x, (SNum, int)):
            return False
        raise Unsupported("membership in the list of chares")

    def __getitem__(self, k):
        e = idx_expr(k)
        ctx().prove("no IndexError (chare known to the sts file)", z3.And(0 <= e, e < self.n))
        return (SName(self.name(e)), SNum(self.dim(e)))

    def vc_len(self): return self.n
    def vc_kind(self): return ("fixed", self)


class Log:
    """the log of processor p: n lines; line l has nt(l) fields tok(l, i).  (One arbitrary log is looked at: the functions of the
    lines are those of that log.)"""

    def __init__(self, c, w, p):
        self.c, self.w, self.p = c, w, p
        self.n = c.fresh("nlines", I)
        c.assume(self.n >= 0)
        self.tag = "line"
        tok, nt, isnum, intof, floatof = c.fresh_fn("tok", I, I, I), c.fresh_fn("nfields", I, I), c.fresh_fn("isnum", I, B), c.fresh_fn("int_of", I, I), c.fresh_fn("float_of", I, R)
        self.tok, self.nt, self.isnum, self.intof, self.floatof = (lambda l, i: tok(l, i)), (lambda l: nt(l)), (lambda e: isnum(e)), (lambda e: intof(e)), (lambda e: floatof(e))
        cnt = c.fresh_fn("cnt", I, I)
        self.cnt = lambda l: cnt(l)
        self.note = c.fresh_fn("note", I, I, I, I)      # line, first word, number of words -> text
        self.lst = c.fresh_fn("fields_list", I, I, I, I)      # line, first field, number -> list of integers
        self.kinds = {}
        self.spec = {k: self.rows_of(k) for k in KINDS}
        c.assume(cnt(0) == 0)

        def line(l):
            inr = z3.And(0 <= l, l < self.n)
            return z3.Implies(inr, z3.And(cnt(l + 1) == cnt(l) + self.nrows(l), nt(l) >= 0, *[z3.Implies(self.kind(l) == k, self.wellformed(k, l)) for k in KINDS]))
        c.universal([self.tag], line)

    def F(self, l, i): return self.intof(self.tok(l, z3.IntVal(i) if isinstance(i, int) else i))

    def kind(self, l):
        t = self.tok(l, z3.IntVal(0))
        return z3.If(z3.And(self.nt(l) > 0, self.isnum(t)), self.intof(t), z3.IntVal(-1))

    def nrows(self, l):
        k = self.kind(l)
        r = z3.IntVal(0)
        for q in KINDS:
            r = z3.If(k == q, z3.IntVal(2 if q == 29 else 1), r)
        return r

    def ndims(self, l):
        w = self.w
        d = w.dim(w.chare(self.F(l, 2)))
        return z3.If(d < 0, z3.IntVal(4), d)

    def wellformed(self, k, l):
        """what the format promises of a record of kind k"""
        w, F = self.w, self.F
        ent = lambda i: z3.And(w.has_entry(F(l, i)), 0 <= w.chare(F(l, i)), w.chare(F(l, i)) < w.nchares)
        need = {26: 2, 28: 2, 29: 4, 27: 3, 1: 8, 21: 9, 2: 9, 3: 8, 11: 2, 12: 2, 6: 2, 7: 2, 10: 6, 4: 5, 5: 5, 8: 4, 9: 4, 13: 5, 100: 6, 98: 6, 99: 6, 32: 6}.get(k, 3)
        out = [self.nt(l) >= need]
        if k in (1, 21, 2, 3):
            out.append(ent(2))
        if k == 21:
            out += [F(l, 8) >= 0, self.nt(l) >= 9 + F(l, 8)]
        if k == 2:
            out.append(self.nt(l) >= 9 + self.ndims(l) + w.npapi)
        if k == 3:
            out.append(self.nt(l) >= 8 + w.npapi)
        if k in (13, 100, 98, 99):
            out.append(w.has_event(F(l, 1)))
        if k == 29:
            out.append(w.has_event(F(l, 3)))
        if k == 32:
            out.append(w.has_stat(F(l, 5)))
        return z3.And(*out)

    def rows_of(self, k):
        """line -> the rows of a record of kind k"""
        w, F, cd = self.w, self.F, lambda s: z3.IntVal(code(s))
        us = lambda x: x * 1000
        num = lambda e: ("n", e)
        st = lambda e: ("s", e)
        text = lambda s: ("s", cd(s))

        def attrs(**kw):
            return {a.replace("_", " "): v for a, v in kw.items()}
        entry = lambda l: w.entry_name(F(l, 2))

        def f(l):
            n = lambda i: num(F(l, i))
            if k in FIXED:
                return [(cd(FIXED[k][0]), FIXED[k][1], us(F(l, 1)), {"From PE": n(2)})]
            if k == 26:
                return [(cd("User Supplied"), "Instant", z3.IntVal(-1), {"User Supplied": st(self.tok(l, z3.IntVal(1)))})]
            if k == 28:
                return [(cd("User Supplied Note"), "Instant", us(F(l, 1)), {"Note": st(self.note(l, z3.IntVal(2), self.nt(l) - 2))})]
            if k == 29:
                a = {"Event ID": n(3), "Event Name": st(w.event(F(l, 3))), "Note": st(expr(strcat(SName(self.note(l, z3.IntVal(4), self.nt(l) - 4)), '"')))}
                return [(cd("User Supplied Bracketed Note"), "Enter", us(F(l, 1)), a), (cd("User Supplied Bracketed Note"), "Leave", us(F(l, 2)), a)]
            if k == 27:
                return [(cd("Memory Usage"), "Instant", us(F(l, 2)), {"Memory Usage": n(1)})]
            if k == 1:
                return [(entry(l), "Instant", us(F(l, 3)), {"From PE": n(5), "MType": n(1), "Entry Type": text("Create"), "Message Length": n(6), "Event ID": n(4), "Send Time": num(us(F(l, 7)))})]
            if k == 21:
                return [(entry(l), "Instant", us(F(l, 3)), {"From PE": n(5), "Message Type": n(1), "Entry Type": text("Multicast"), "Message Length": n(6), "Event ID": n(4), "Send Time": num(us(F(l, 7))),
                                                            "Destinatopn PEs": ("l", self.lst(l, z3.IntVal(9), F(l, 8)))})]
            if k == 2:
                d = self.ndims(l)
                return [(entry(l), "Enter", us(F(l, 3)), {"From PE": n(5), "Message Type": n(1), "Entry Type": text("Processing"), "Event ID": n(4), "Message Length": n(6), "Receive Time": n(7),
                                                          "ID List": ("l", self.lst(l, z3.IntVal(8), d)), "CPU Start Time": num(F(l, 8 + d)), "perf counts list": ("l", self.lst(l, 9 + d, w.npapi))})]
            if k == 3:
                return [(entry(l), "Leave", us(F(l, 3)), None)]
            if k in (11, 12):
                return [(cd("Trace"), "Enter" if k == 11 else "Leave", us(F(l, 1)), None)]
            if k in (6, 7):
                return [(cd("Computation"), "Enter" if k == 6 else "Leave", us(F(l, 1)), None)]
            if k == 10:
                return [(cd("Message Receive"), "Instant", us(F(l, 2)), {"From PE": n(4), "Message Type": n(1), "Event ID": n(3), "Message Length": n(5)})]
            if k in (4, 5):
                return [(cd("Enque" if k == 4 else "Deque"), "Instant", us(F(l, 2)), {"From PE": n(4), "Message Type": n(1), "Event ID": n(3)})]
            if k in (8, 9):
                return [(cd("Interrupt"), "Enter" if k == 8 else "Leave", us(F(l, 1)), {"From PE": n(3), "Event ID": n(2)})]
            if k == 13:
                return [(w.event(F(l, 1)), "Instant", us(F(l, 2)), {"From PE": n(4), "Event ID": n(3), "Event Type": text("User Event")})]
            if k == 100:
                return [(w.event(F(l, 1)), "Instant", us(F(l, 2)), {"From PE": n(4), "Event ID": n(3), "Nested ID": n(5), "Event Type": text("User Event Pair")})]
            if k in (98, 99):
                return [(cd("User Event Pair"), "Enter" if k == 98 else "Leave", us(F(l, 2)), {"From PE": n(4), "Event ID": n(3), "Nested ID": n(5), "User Event Name": st(w.event(F(l, 1)))})]
            if k == 32:
                return [(w.stat(F(l, 5)), "Instant", us(F(l, 1)), {"From PE": n(4), "User Time": num(us(F(l, 2))), "Stat": ("f", self.floatof(self.tok(l, z3.IntVal(3)))), "Event Type": text("User Stat")})]
            raise AssertionError(k)
        return f

    def lists_of(self, l):
        """the stretches of fields that become lists: (first, number)"""
        d = self.ndims(l)
        return [(z3.IntVal(8), d), (9 + d, self.w.npapi), (z3.IntVal(8), self.w.npapi), (z3.IntVal(9), self.F(l, 8))]


KINDS = [14, 15, 16, 17, 18, 19, 26, 28, 29, 27, 1, 21, 2, 3, 11, 12, 6, 7, 10, 4, 5, 8, 9, 13, 100, 98, 99, 32]
NAMES = ["Name", "Event Type", "Timestamp (ns)", "Process", "Attributes"]
_mk = {}


def make(d):
    """a dict of attributes as a term: a constructor (by its keys and the types of its values) applied to the values"""
    ks = sorted(d)
    sig = tuple((k, d[k][0]) for k in ks)
    if sig not in _mk:
        _mk[sig] = z3.Function("attrs%d" % len(_mk), *([R if d[k][1].sort() == R else I for k in ks] + [I]))
    return _mk[sig](*[d[k][1] for k in ks])


class World:
    """the contents of the sts file"""

    def __init__(self, c, R_):
        f = c.fresh_fn
        he, en, ch, cn, dm, hv, ev, hs, sn = f("has_entry", I, B), f("entry", I, I), f("chare_of", I, I), f("chare_name", I, I), f("dimensions", I, I), f("has_event", I, B), f("event", I, I), f("has_stat", I, B), f("stat", I, I)
        self.has_entry, self.entry_name, self.chare, self.dim = (lambda i: he(i)), (lambda i: en(i)), (lambda i: ch(i)), (lambda i: dm(i))
        self.has_event, self.event, self.has_stat, self.stat = (lambda i: hv(i)), (lambda i: ev(i)), (lambda i: hs(i)), (lambda i: sn(i))
        self.nchares = c.fresh("nchares", I)
        self.papi = c.choose(2, "performance counters") == 1
        self.npapi = c.fresh("npapi", I) if self.papi else z3.IntVal(0)
        c.assume(z3.And(self.nchares >= 0, self.npapi >= 0))
        s = self.sts = object.__new__(R_)
        s.__dict__.update(entries=SymMap(self.has_entry, lambda i: (SName(en(i)), SNum(ch(i)))), chares=Chares(self.nchares, lambda i: cn(i), self.dim), user_events=SymMap(self.has_event, lambda i: SName(ev(i))),
                          user_stats=SymMap(self.has_stat, lambda i: SName(sn(i))))
        if self.papi:
            s.__dict__["papi_event_names"] = Seq(self.npapi, lambda i: SName(i))


def columns(data):
    """the five lists of a dict of columns, or None"""
    if isinstance(data, (SDict, dict)):
        d = data.d if isinstance(data, SDict) else data
        if set(d) == set(NAMES) and all(isinstance(v, SList) for v in d.values()):
            return d
    return None


def rows_equal(log, cols, l, kinds=KINDS):
    """the rows of line l are in the columns, at their place"""
    out = {n: [] for n in NAMES}
    at0 = log.cnt(l)
    for k in kinds:
        here = log.kind(l) == k
        for j, (name, typ, ts, attrs) in enumerate(log.spec[k](l)):
            want = {"Name": SName(name), "Event Type": SName(z3.IntVal(code(typ))), "Timestamp (ns)": SNum(ts), "Process": SNum(log.p), "Attributes": None if attrs is None else SName(make(attrs))}
            for n in NAMES:
                v = cols[n]
                out[n].append(z3.Implies(here, same(v.at(at0 + j), want[n])) if not (v.concrete and not v.items) else z3.Not(here))
    return out


class LinesInv(Invariant):
    """loop over the lines of a log"""
    name = "lines"

    def match(self, st):
        log = st.extra.get("log") or ctx().env.get("log")
        if log is None or st.seq is None or getattr(st.seq, "tag", None) != "line":
            return None
        data = [v for v in st.L.values() if columns(v) is not None]
        if len(data) != 1:
            return None
        return {"log": log, "data": data[0]}

    def clauses(self, c, st, bind):
        log, k = bind["log"], st.k
        data = [v for v in st.L.values() if columns(v) is not None]
        if len(data) != 1:
            raise Unsupported("the columns are not in one dict")
        cols = columns(data[0])
        out = [("rows of the lines before come before", [log.tag], lambda i: z3.Implies(z3.And(0 <= i, i < k), log.cnt(i) + log.nrows(i) <= log.cnt(k)), True),
               ("the number of rows is not negative", [], lambda: log.cnt(k) >= 0, True)]
        for n in NAMES:
            v = cols[n]
            out.append(("%s: one entry per row" % n, [], lambda v=v: v.length() == log.cnt(k), True))
            for q in KINDS:
                out.append(("kind %d: %s of the rows of every line" % (q, n), [log.tag], lambda i, n=n, q=q: z3.Implies(z3.And(0 <= i, i < k), z3.And(*rows_equal(log, cols, i, [q])[n])), True))
        return out

    def iteration(self, c, st, bind):
        c.env["line"] = st.k
        c.term(bind["log"].tag, st.k)


class FieldsInv(Invariant):
    """loops over fields of a line: texts and lists of integers"""
    name = "fields"

    def match(self, st):
        if "line" not in ctx().env or st.seq is None or getattr(st.seq, "tag", None) == "line":
            return None
        return {}

    def starts(self, c, st):
        log, l = c.env["log"], c.env["line"]
        out = [("2", z3.IntVal(2)), ("4", z3.IntVal(4)), ("8", z3.IntVal(8)), ("9", z3.IntVal(9)), ("9 + dimensions", 9 + log.ndims(l))]
        return out

    def clauses(self, c, st, bind):
        log, l, k = c.env["log"], c.env["line"], st.k
        out = []
        for s, e in self.starts(c, st):
            for v, x in sorted(st.L.items()):
                if isinstance(x, (SName, str)) and not isinstance(x, STok) and v in st.names and s in ("2", "4"):
                    out.append(("%s is the text of the fields from %s" % (v, s), [], lambda x=x, e=e: expr(x) == log.note(l, e, k), True))
                elif isinstance(x, SList) and st.changed(x):
                    out.append(("%s has one element per field" % v, [], lambda x=x: x.length() == k, True))
                    if not (x.concrete and not x.items) and x.ekind in (None, ("int",)):
                        out.append(("%s holds the fields from %s" % (v, s), [x.tag], lambda i, x=x, e=e: z3.Implies(z3.And(0 <= i, i < k), same(x.at(i), SNum(log.F(l, e + i)))), True))
                    elif x.concrete and not x.items:
                        out.append(("%s holds the fields from %s" % (v, s), ["none"], lambda i: z3.BoolVal(True), True))
        return out

    def note_facts(self, c, k):
        log, l = c.env["log"], c.env["line"]
        for e in (z3.IntVal(2), z3.IntVal(4)):
            c.assume(log.note(l, e, z3.IntVal(0)) == code(""))
            c.assume(log.note(l, e, k + 1) == expr(strcat(strcat(SName(log.note(l, e, k)), SName(log.tok(l, e + k))), " ")))

    def enter(self, c, st, bind): self.note_facts(c, z3.IntVal(0))
    def iteration(self, c, st, bind): self.note_facts(c, st.k)


class FramesInv(Invariant):
    """loop over the logs"""
    name = "logs"

    def match(self, st):
        if "line" in ctx().env or st.seq is None or ctx().env.get("log") is not None and not ctx().env.get("outer"):
            return None
        q = ctx().env["q"]
        if not isinstance(st.seq, SRange):
            return None
        ctx().env["outer"] = True
        return {"lo": st.seq.lo}

    def clauses(self, c, st, bind):
        q, k = c.env["q"], st.k
        out = []
        for v, x in sorted(st.L.items()):
            if isinstance(x, SList) and st.changed(x):
                out.append(("%s has one frame per log" % v, [], lambda x=x: x.length() == k, True))
                if not (x.concrete and not x.items):
                    out.append(("%s holds the frames of the logs in order" % v, [x.tag], lambda i, x=x: z3.Implies(z3.And(0 <= i, i < k), expr(x.at(i)) == q.frame(bind["lo"] + i)), True))
                else:
                    out.append(("%s holds the frames of the logs in order" % v, ["none"], lambda i: z3.BoolVal(True), True))
        return out

    def iteration(self, c, st, bind):
        c.env["pe"] = st.seq.at(st.k)


class Query:
    pass


class ReadLogs(Contract):
    name = "ProjectionsReader._read_log_file"
    functions = ["pipit.readers.projections_reader." + f for f in ("ProjectionsReader._read_log_file", "ProjectionsReader._create_empty_dict", "_add_to_trace_dict", "STSReader.get_entry_name", "STSReader.get_dimension",
                                                                   "STSReader.get_user_event", "STSReader.get_user_stat", "STSReader.get_event_name", "STSReader.get_num_perf_counts")]
    invariants = [LinesInv, FieldsInv, FramesInv]
    trusted = ["gzip.open(file, 'rt') iterates over the lines of the log; str.split gives the fields of a line; int and float convert a field (functions of its text); pd.DataFrame of a dict of lists has these as columns; pd.concat puts tables one after the other"]

    def stubs(self):
        def gopen(path, mode="r", *a, **kw):
            c = ctx()
            q = c.env["q"]
            pe = c.env.get("pe")
            if pe is None or mode != "rt" or a or set(kw) - {"encoding"}:
                raise Unsupported("gzip.open of this file")
            want = strcat(strcat("loc.", instrument.sstr(pe)), ".log.gz")
            c.prove("the file opened is the log of the processor", expr(path) == expr(want))
            c.env["log"] = Log(c, q.w, idx_expr(pe))
            return LogFile(c.env["log"])

        def frame(data=None, *a, **kw):
            c = ctx()
            cols = columns(data)
            if cols is None or a or kw or "log" not in c.env:
                raise Unsupported("DataFrame of this")
            self.table_of(c, c.env["log"], cols)
            return SName(c.env["q"].frame(c.env["log"].p))

        def concat(objs, *a, **kw):
            if a or {k: v for k, v in kw.items() if k not in ("ignore_index", "axis")}:
                raise Unsupported("concat with other arguments")
            return ("concat", freeze(objs))
        return {"pandas": Mod("pandas", DataFrame=frame, concat=concat), "gzip": Mod("gzip", open=gopen), "numpy": numpy_mod(), "os": Mod("os"), "multiprocessing": Mod("multiprocessing")}

    def element(self, d):
        """a dict of attributes stored in a list"""
        c = ctx()
        log, l = c.env["log"], c.env["line"]
        vals = {}
        for k, v in d.d.items():
            if not isinstance(k, str):
                raise Unsupported("attributes with keys that are no strings")
            if isinstance(v, (str, SName)):
                vals[k] = ("s", expr(v) if isinstance(v, SName) else z3.IntVal(code(v)))
            elif isinstance(v, bool) or isinstance(v, float):
                raise Unsupported("attribute of this type")
            elif isinstance(v, (int, SNum)):
                e = expr(v) if isinstance(v, SNum) else z3.IntVal(v)
                vals[k] = ("f" if e.sort() == R else "n", e)
            elif isinstance(v, (SList, Seq)):
                v.frozen = True
                vals[k] = ("l", self.list_term(c, log, l, v))
            else:
                raise Unsupported("attribute of type %s" % type(v).__name__)
        d.frozen = True
        return SName(make(vals))

    def list_term(self, c, log, l, v):
        n = v.length()
        i = c.fresh("i", I)
        if getattr(v, "tag", None):
            c.term(v.tag, i)
        for s, m in log.lists_of(l):
            if not c.x.check(c, n == m):
                continue
            if isinstance(v, SList) and v.concrete and not v.items or c.x.check(c, n == 0):
                return log.lst(l, s, m)
            if c.x.check(c, z3.Implies(z3.And(0 <= i, i < n), same(v.at(i), SNum(log.F(l, s + i))))):
                return log.lst(l, s, m)
        return c.fresh("other_list", I)

    def table_of(self, c, log, cols):
        """the table built from a log"""
        T = log.cnt(log.n)
        i = c.fresh("a_line", I)
        c.term(log.tag, log.n)
        with c.scope():
            c.assume(z3.And(0 <= i, i < log.n), True)
            c.term(log.tag, i)
            eqs = rows_equal(log, cols, i)
            what = {"Name": "name", "Event Type": "type", "Timestamp (ns)": "time", "Process": "process", "Attributes": "attributes"}
            for n in NAMES:
                # one obligation per kind of record, so that a failure names it
                m = 0
                for k in KINDS:
                    e = [eqs[n][m + j] for j in range(2 if k == 29 else 1)]
                    m += len(e)
                    c.prove("kind %d: the %s of its row%s" % (k, what[n], "s" if k == 29 else ""), z3.And(*e), assume=False)
        name, ts = cols["Name"], cols["Timestamp (ns)"]
        L = name.length()
        empty = name.concrete and not name.items
        last = z3.BoolVal(False) if empty else z3.And(T > 0, expr(name.at(T - 1)) != code("Computation"))
        for n in NAMES:
            c.prove("%s: the rows of the lines, and a closing row if the last is no computation row" % n, cols[n].length() == T + z3.If(last, z3.IntVal(1), z3.IntVal(0)))
        if not empty:
            want = {"Name": SName(z3.IntVal(code("Computation"))), "Event Type": SName(z3.IntVal(code("Leave"))), "Timestamp (ns)": ts.at(T - 1), "Process": SNum(log.p), "Attributes": None}
            for n in NAMES:
                c.prove("closing row: %s" % n, z3.Implies(last, same(cols[n].at(T), want[n])))

    def run(self, c, load):
        mod = load("pipit.readers.projections_reader")
        for s in ("Enter", "Leave", "Instant", "Computation", "Idle", "Pack", "Unpack", "", " "):
            code(s)
        q = c.env["q"] = Query()
        q.w = World(c, mod.STSReader)
        q.frame = c.fresh_fn("frame_of_log", I, I)

        def sts(path):
            c.prove("the sts file of the trace is read", expr(path) == code("loc.sts") if isinstance(path, SName) else path == "loc.sts")
            return q.w.sts
        mod.__dict__["STSReader"] = sts
        c.env["element"] = self.element
        r = object.__new__(mod.ProjectionsReader)
        npes, rank, size = c.fresh("num_pes", I), c.fresh("rank", I), c.fresh("size", I)
        c.assume(z3.And(1 <= size, size <= npes, 0 <= rank, rank < size))
        r.__dict__.update(executable_location="loc", num_pes=SNum(npes), num_processes=SNum(size), create_cct=False)
        res, _ = guarded(c, "_read_log_file", lambda: r._read_log_file((SNum(rank), SNum(size))))
        c.prove("the tables are put together", isinstance(res, tuple) and res[0] == "concat" and isinstance(res[1], SList))


def contracts():
    return [ReadLogs()]


ASSUMPTIONS = NUMERIC + ["records are well formed (a record has its fields; its entry, event, stat and chare are in the sts file) - the precondition of the property",
                         "two attribute dicts are taken as equal if they have the same keys and equal values of the same types"]
