"""C16: Trace.from_csv.  The file has an arbitrary number of records, in columns Timestamp (s) or Timestamp (ns), Event Type, Name,
Process and arbitrary further ones.  pandas.read_csv is trusted to give the records, in order, as a table.  The events table then
has each record as exactly one row with all its values (seconds times 10^9), in order of time, records of equal time in file
order, numbered from 0; no column is added or lost."""
import z3
from contract import *
from tables import *
from tracebase import *


class Csv:
    def __init__(self, c, seconds, threads=False):
        self.c, self.seconds = c, seconds
        t = self.T = Table("records")
        self.time = TSS if seconds else TS
        ts, ty, nm, pr = c.fresh_fn("time", I, R if seconds else I), c.fresh_fn("etype", I, I), c.fresh_fn("name", I, I), c.fresh_fn("proc", I, I)
        other, there, miss = c.fresh_fn("other", I, I, R), c.fresh_fn("other_there", I, B), c.fresh_fn("other_missing", I, I, B)
        self.cols = {self.time: lambda r: SNum(ts(r)), ET: lambda r: SName(ty(r)), NM: lambda r: SName(nm(r)), PR: lambda r: SNum(pr(r))}
        self.other = lambda e, r: SMaybe(miss(e, r), SNum(other(e, r)))
        fixed = [TS, TSS, ET, NM, PR]
        self.there = lambda e: z3.And(there(e), *[e != code(n) for n in fixed])
        t.rows_universal(lambda r: [0 <= pr(r), pr(r) < 2 ** 31] + ([] if seconds else [ts(r) > -2 ** 63, ts(r) < 2 ** 63]))

    def read_csv(self, filename, *a, **kw):
        if a or {k: v for k, v in kw.items() if (k, v) not in (("sep", ","), ("delimiter", ","), ("skipinitialspace", True), ("header", 0), ("header", "infer"))} or kw.get("skipinitialspace") is not True:
            raise Unsupported("read_csv with other arguments")
        f = SFrame(self.T.all, {n: Col(fn) for n, fn in self.cols.items()}, (self.there, self.other))
        self.reads = getattr(self, "reads", 0) + 1
        return f


TSS = "Timestamp (s)"


class FromCsv(Contract):
    name = "Trace.from_csv"
    functions = ["pipit.trace.Trace.from_csv", "pipit.trace.Trace.__init__"]
    trusted = PANDAS + ["pandas.read_csv(file, skipinitialspace=True): one row per record, in order, one column per field, with the values in the file"]

    def stubs(self):
        return {"pandas": pandas_mod(read_csv=lambda *a, **k: ctx().env["csv"].read_csv(*a, **k)), "numpy": numpy_mod()}

    def run(self, c, load):
        q = c.env["csv"] = Csv(c, c.choose(2, "seconds") == 1)
        c.env["wide"] = ("int64", "uint64")       # conversions to narrower integers must fit
        mod = load("pipit.trace")
        t, _ = guarded(c, "from_csv", lambda: mod.Trace.from_csv(SName(c.fresh("file", I))))
        F = t.events
        c.prove("rows are numbered from 0", F.labels is None and F.view.is_all)
        ways = Origin(F, q.T).ways()
        c.prove("rows come from the records once", len(ways) == 1)
        way, back, fwd = ways[0]
        r0 = q.T.skolem("record")
        obs, row = fwd(r0)
        for o in obs:
            c.prove("every record becomes a row", o)
        F.view.table.row(row)
        c.prove("the row of a record is a row", z3.And(0 <= row, row < F.view.table.n))
        k = F.view.table.skolem("row")
        cond, rec = back(k)
        q.T.row(rec)
        c.prove("every row is a record", z3.And(cond, 0 <= rec, rec < q.T.n))
        c.prove("different rows are different records", z3.Implies(rec == r0, k == row))
        for n, fn in q.cols.items():
            out = TS if n == q.time else n
            if not z3.is_true(z3.simplify(F.has(out))):
                c.prove("column %s is there" % out, F.has(out))
                continue
            v = F.colfn(out)(k)
            if n == TSS:
                c.prove("times given in seconds are converted to nanoseconds", z3.And(z3.Not(nullof(v)), real(valof(v)) == real(expr(fn(rec))) * 10 ** 9))
            else:
                c.prove("%s of a record is kept" % n, same(v, fn(rec)))
        x = c.fresh("column", I)
        c.assume(z3.And(*[x != code(n) for n in (TS, TSS, ET, NM, PR)]))
        xn = SName(x)
        c.prove("no column is added or lost", F.has(xn) == q.there(x))
        c.prove("no other time column is left", z3.Not(F.has(TSS)))
        c.prove("other columns keep their values", z3.Implies(q.there(x), same(F.famfn(x)(k), q.other(x, rec))))
        k2 = F.view.table.skolem("row")
        cond2, rec2 = back(k2)
        q.T.row(rec2)
        ts = F.colfn(TS)
        a, b = real(valof(ts(k))), real(valof(ts(k2)))
        c.prove("rows are in order of time", z3.Implies(k < k2, a <= b))
        c.prove("records of equal time keep their order", z3.Implies(z3.And(k < k2, a == b), rec < rec2))


def contracts():
    return [FromCsv()]


ASSUMPTIONS = NUMERIC + ["the file has exactly one of the columns Timestamp (s) / Timestamp (ns); process numbers are integers from 0 to 2^31-1"]
