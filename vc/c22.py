"""C22: NsightReader.read.  The report has an arbitrary number of records with columns Name, PID, TID, Start (ns), End (ns) and
arbitrary further ones; pandas.read_csv is trusted to give them as a table, in order.  The events table has for each record
exactly one Enter row at its start time and one Leave row at its end time with the record's name and other columns; rows are in
order of time, of equal time Enters before Leaves and then in record order, numbered from 0; several processes are numbered
from 0 up without gaps, and so are the threads of each process when some thread id differs from its process id."""
import z3
from contract import *
from tables import *
from tracebase import *

START, END = "Start (ns)", "End (ns)"


class Report:
    def __init__(self, c):
        t = self.T = Table("records")
        mk = lambda n: c.fresh_fn(n, I, I)
        st, en, nm, pid, tid = mk("start"), mk("end"), mk("name"), mk("pid"), mk("tid")
        other, there, miss = c.fresh_fn("other", I, I, R), c.fresh_fn("other_there", I, B), c.fresh_fn("other_missing", I, I, B)
        self.start, self.end, self.pid, self.tid = st, en, pid, tid
        self.cols = {START: lambda r: SNum(st(r)), END: lambda r: SNum(en(r)), NM: lambda r: SName(nm(r)), "PID": lambda r: SNum(pid(r)), "TID": lambda r: SNum(tid(r))}
        self.other = lambda e, r: SMaybe(miss(e, r), SNum(other(e, r)))
        self.fixed = [START, END, NM, "PID", "TID", TS, ET, PR, TH]
        self.there = lambda e: z3.And(there(e), *[e != code(n) for n in self.fixed])

    def read_csv(self, filename, *a, **kw):
        if a or kw:
            raise Unsupported("read_csv with other arguments")
        return SFrame(self.T.all, {n: Col(fn) for n, fn in self.cols.items()}, (self.there, self.other))


def frames(st, table):
    """the frames over a table reachable from the local variables"""
    out = {}
    for v, x in st.L.items():
        for w, y in [(v, x)] + ([(v + "." + a, b) for a, b in vars(x).items()] if type(x).__module__.startswith("pipit") else []):
            if isinstance(y, SFrame) and y.view is not None and y.view.table is table and y.view.is_all:
                out.setdefault(y.oid, (w, y.vc_freeze()))
    return list(out.values())


def numbered(table, key, sub, val):
    """val numbers the values of sub among rows of equal key: facts for rows (a, b) and for the existence of smaller numbers"""
    same_key = lambda a, b: z3.BoolVal(True) if key is None else key(a) == key(b)
    return (lambda a, b: z3.Implies(same_key(a, b), (valof(val(a)) == valof(val(b))) == (sub(a) == sub(b))),
            lambda a: z3.And(z3.Not(nullof(val(a))), valof(val(a)) >= 0, integral(valof(val(a)))),
            lambda a, j: z3.Implies(z3.And(0 <= j, j < valof(val(a))), EXISTS(table, lambda r: z3.And(same_key(a, r), z3.Not(nullof(val(r))), valof(val(r)) == j))))


class Pids(Invariant):
    """loop over the processes: the threads of those done are numbered"""
    name = "processes"

    def match(self, st):
        q = ctx().env["report"]
        s = st.seq
        if isinstance(s, SSet) and s.arity == 1 and s.view.table is q.T and s.view.is_all:
            r = ctx().fresh("r", I)
            if ctx().x.check(ctx(), s.tup(r)[0] == q.pid(r)):
                return {"set": s}
        return None

    def clauses(self, c, st, bind):
        q, s = c.env["report"], bind["set"]
        done = lambda a: z3.And(0 <= a, a < q.T.n, s.rank(q.pid(a)) < st.k)
        out = []
        for name, F in frames(st, q.T):
            if not st.changed(F):
                continue
            x0, a0, j0 = q.x0, q.a0, q.j0
            out.append(("%s: other columns are unchanged" % name, [q.T.tag], lambda r, F=F: z3.And(F.has(SName(x0)) == q.there(x0), z3.Implies(q.there(x0), same(F.famfn(x0)(r), q.other(x0, r)))), True))
            out.append(("%s: columns Event Type, Process are not added" % name, [], lambda F=F: z3.And(*[z3.Not(F.has(n)) for n in (PR, ET, TS)]), True))
            out.append(("%s: there is a thread column once a process is done" % name, [], lambda F=F: F.has(TH) == (st.k > 0), True))
            if z3.is_false(z3.simplify(F.has(TH))):
                continue
            pair, one, below = numbered(q.T, lambda r: q.pid(r), lambda r: q.tid(r), F.colfn(TH))
            out.append(("%s: threads of a process done have a number" % name, [q.T.tag], lambda a, one=one: z3.Implies(done(a), one(a)), True))
            if q.what != TH:
                continue
            out.append(("%s: different threads of a process done have different numbers" % name, [q.T.tag, q.T.tag], lambda a, b, pair=pair: z3.Implies(z3.And(done(a), done(b)), pair(a, b)) if not a.eq(b) else None, True))
            out.append(("%s: the numbers of a process done have no gaps" % name, [], lambda below=below: z3.Implies(done(a0), below(a0, j0)), True))
        return out

    def backedge(self, c, st, bind):
        for s in c.env.get("sets", []):
            c.term(s.tag, c.env["report"].j0)


class Nsight(Contract):
    name = "NsightReader.read"
    what = "rows"
    functions = ["pipit.readers.nsight_reader.NsightReader.__init__", "pipit.readers.nsight_reader.NsightReader.read", "pipit.trace.Trace.__init__"]
    invariants = [Pids]
    trusted = PANDAS + ["pandas.read_csv(file): one row per record, in order, one column per field, with the values in the file"]

    def stubs(self):
        return {"pandas": pandas_mod(read_csv=lambda *a, **k: ctx().env["report"].read_csv(*a, **k)), "numpy": numpy_mod()}

    def run(self, c, load):
        q = c.env["report"] = Report(c)
        q.what = self.what
        q.a0, q.j0, q.x0 = q.T.skolem("a0"), c.fresh("j0", I), c.fresh("column", I)
        c.assume(z3.And(*[q.x0 != code(n) for n in q.fixed]))
        mod = load("pipit.readers.nsight_reader")
        reader, _ = guarded(c, "NsightReader", lambda: mod.NsightReader(SName(c.fresh("file", I))))
        t, _ = guarded(c, "read", lambda: reader.read())
        for s in c.env.get("sets", []):
            c.term(s.tag, q.j0)
        F = t.events
        c.prove("rows are numbered from 0", F.labels is None and F.view.is_all)
        ways = Origin(F, q.T).ways()
        c.prove("each record is used twice", len(ways) == 2)
        self.post(c, q, F, ways)

    def record(self, q, ways, k):
        """(is the row of the first kind, its record)"""
        (c1, r1), (c2, r2) = [back(k) for _, back, _ in ways]
        q.T.row(r1), q.T.row(r2)
        return c1, z3.If(c1, r1, r2)

    def post(self, c, q, F, ways):
        T2 = F.view.table
        ety, ts = F.colfn(ET), F.colfn(TS)
        r0 = q.T.skolem("record")
        rows, types = [], []
        for way, back, fwd in ways:
            obs, row = fwd(r0)
            for o in obs:
                c.prove("every record becomes two rows", o)
            T2.row(row)
            c.prove("the row of a record is a row", z3.And(0 <= row, row < T2.n))
            rows.append(row)
            types.append(expr(ety(row)))
        c.prove("one of them is an Enter, the other a Leave row", z3.Or(*[z3.And(types[i] == code("Enter"), types[1 - i] == code("Leave")) for i in (0, 1)]))
        k, k2 = T2.skolem("row"), T2.skolem("row2")
        info = []
        for kk in (k, k2):
            (c1, r1), (c2, r2) = [back(kk) for _, back, _ in ways]
            c.prove("every row belongs to one record", z3.And(z3.Or(c1, c2), z3.Not(z3.And(c1, c2))))
            rec = z3.If(c1, r1, r2)
            q.T.row(r1), q.T.row(r2)
            q.T.row(rec)
            c.prove("the record of a row is a record", z3.And(0 <= rec, rec < q.T.n))
            info.append((rec, expr(ety(kk)) == code("Enter"), c1))
        rec, enter, w1 = info[0]
        rec2, enter2, w2 = info[1]
        c.prove("a row is an Enter or a Leave row", z3.Or(enter, expr(ety(k)) == code("Leave")))
        c.prove("different rows of a record have different types", z3.Implies(z3.And(rec == rec2, k != k2), enter != enter2))
        c.prove("Enter rows are at the record's start, Leave rows at its end", z3.And(z3.Not(nullof(ts(k))), real(valof(ts(k))) == real(z3.If(enter, q.start(rec), q.end(rec)))))
        for n in (NM, "PID", "TID"):
            c.prove("%s of a record is kept" % n, z3.And(F.has(n), same(F.colfn(n)(k), q.cols[n](rec))) if F.has(n) is not None else False)
        x = q.x0
        c.prove("no other column is added or lost", F.has(SName(x)) == q.there(x))
        c.prove("other columns keep their values", z3.Implies(q.there(x), same(F.famfn(x)(k), q.other(x, rec))))
        a, b = real(valof(ts(k))), real(valof(ts(k2)))
        c.prove("rows are in order of time", z3.Implies(k < k2, a <= b))
        c.prove("of equal time, Enters come before Leaves, then in record order", z3.Implies(z3.And(k < k2, a == b), z3.And(z3.Implies(enter2, enter), z3.Implies(enter == enter2, rec < rec2))))


class Numbers(Nsight):
    """the numbers given to processes / to the threads of each process"""

    def __init__(self, what):
        self.what = what
        self.name = "NsightReader.read (%s numbers)" % what

    def post(self, c, q, F, ways):
        T2 = F.view.table
        d0, e0 = q.T.skolem("d0"), q.T.skolem("e0")
        a, b = T2.skolem("row"), T2.skolem("row2")
        col = self.what
        when = q.pid(d0) != q.pid(e0) if col == PR else q.tid(d0) != q.pid(d0)
        c.prove("%s: the column is there when it must be" % col, z3.Implies(when, F.has(col)))
        if z3.is_false(z3.simplify(F.has(col))):
            return
        cond, rec = self.record(q, ways, a)
        rec2 = self.record(q, ways, b)[1]
        q.T.row(rec), q.T.row(rec2)
        val, pid, tid = F.colfn(col), F.colfn("PID"), F.colfn("TID")
        ofpid, oftid = lambda r: expr(pid(r)), lambda r: expr(tid(r))
        pair, one, below = numbered(T2, None if col == PR else ofpid, ofpid if col == PR else oftid, val)
        g = z3.And(when, F.has(col))
        c.prove("%s: every row has a number" % col, z3.Implies(g, one(a)))
        c.prove("%s: numbers are equal exactly if the ids are" % col, z3.Implies(g, pair(a, b)))
        fwd = ways[0][2]

        def there(r):
            k = fwd(r)[1]
            return z3.And(z3.Or(col == PR, q.pid(r) == q.pid(q.a0)), z3.Not(nullof(val(k))), valof(val(k)) == q.j0)
        c.prove("%s: numbers go from 0 up without gaps" % col, z3.Implies(z3.And(g, rec == q.a0, 0 <= q.j0, q.j0 < valof(val(a))), EXISTS(q.T, there)))


def contracts():
    return [Nsight(), Numbers(PR), Numbers(TH)]


ASSUMPTIONS = NUMERIC + ["PID and TID are integers; the report has no columns named Thread, Process, Event Type or Timestamp (ns)", "create_cct (off by default) is C05's"]
