"""An arbitrary trace: any number of rows, any values, with or without threads, derived columns present or not."""
import z3
from contract import *
from tables import *
import tables

TS, ET, NM, PR, TH = "Timestamp (ns)", "Event Type", "Name", "Process", "Thread"
PANDAS = ["pandas semantics of vc/tables.py (selection, column arithmetic, label alignment, lists of columns, set of a column), each tested against the installed pandas by vc/conformance.py"]
NUMERIC = ["timestamps and metric values as mathematical reals (the code computes in float64/int64); row numbers as integers"]


class TraceModel:
    def __init__(self, c, load, threads=None, maybe_thread=True):
        self.c = c
        self.mod = load("pipit.trace")
        self.T = t = Table("events")
        ts, ty, nm, pr, th = c.fresh_fn("ts", I, R), c.fresh_fn("etype", I, I), c.fresh_fn("name", I, I), c.fresh_fn("proc", I, I), c.fresh_fn("thread", I, I)
        self.ts, self.ty, self.nm, self.pr, self.th = ts, ty, nm, pr, th
        self.f = SFrame(t.all, {TS: Col(lambda r: SNum(ts(r))), ET: Col(lambda r: SName(ty(r)), "category"), NM: Col(lambda r: SName(nm(r)), "category"), PR: Col(lambda r: SNum(pr(r)))})
        # threads: True, False, None (both, explored apart), "maybe" (both, as one case: the column's presence is a symbolic truth value)
        self.has_thread = (c.choose(2, "threads") == 1) if threads is None else threads
        if self.has_thread:
            self.f.cols[TH] = Col(lambda r: SNum(th(r)))
        if threads == "maybe":
            self.f.maybe[TH] = c.fresh("threaded", B)
        self.orig = {n: k.fn for n, k in self.f.cols.items()}
        self.present = dict(self.f.maybe)
        self.trace = object.__new__(self.mod.Trace)
        self.trace.definitions, self.trace.events, self.trace.cct = None, self.f, None
        self.trace.numeric_cols = SList([TS])
        self.trace.inc_metrics, self.trace.exc_metrics = SList([]), SList([])

    def enter(self, r): return self.ty(r) == code("Enter")
    def leave(self, r): return self.ty(r) == code("Leave")

    def sameloc(self, a, b):
        if not self.has_thread:
            return self.pr(a) == self.pr(b)
        t = self.th(a) == self.th(b)
        return z3.And(self.pr(a) == self.pr(b), z3.Or(z3.Not(self.present[TH]), t) if TH in self.present else t)

    def inrange(self, r):
        return z3.And(0 <= r, r < self.T.n)

    def frame_condition(self, what):
        """the original columns, the rows and their order are unchanged"""
        c = self.c
        f = self.trace.events
        c.prove("%s: rows and their order are unchanged" % what, f.view is self.T.all or f.view.equals(self.T.all))
        r = self.T.skolem("fr")
        for n, fn in self.orig.items():
            there = self.present.get(n, z3.BoolVal(True))
            if n not in f.cols and not f.family:
                c.prove("%s: column %s is still there" % (what, n), z3.Not(there))
            else:
                c.prove("%s: column %s is unchanged" % (what, n), z3.Implies(there, z3.And(f.has(n), same(f.colfn(n)(r), fn(r)))))

    # -- the contract of _match_events (C01), as a fact about the columns _matching_event / _matching_timestamp
    def match_clauses(self, X, Y, ok=lambda r: True, upto=None, e0=None):
        """X: row -> SMaybe(row number), Y: row -> SMaybe(time).  ok(r): the rows spoken of"""
        S1, S2, T2 = self.match_parts(X, Y)
        return S1, S2, T2

    def match_parts(self, X, Y):
        m = lambda r: X(r).val
        nul = lambda r: X(r).null

        def rowof(r):
            e = expr(m(r))
            return z3.ToInt(e) if e.sort() == R else e

        def S1(r):
            q = rowof(r)
            self.T.row(q)
            integral = z3.BoolVal(True) if expr(m(r)).sort() == I else z3.ToReal(q) == expr(m(r))
            return z3.Implies(z3.Not(nul(r)), z3.And(integral, self.inrange(q), self.sameloc(q, r), self.nm(q) == self.nm(r), z3.Not(nul(q)), rowof(q) == r,
                                                    z3.Or(z3.And(self.enter(r), self.leave(q), r < q), z3.And(self.leave(r), self.enter(q), q < r))))

        def S2(l, e):
            return z3.Implies(z3.And(self.leave(l), self.enter(e), e < l, self.sameloc(l, e), self.nm(l) == self.nm(e), z3.Or(nul(l), rowof(l) < e)),
                              z3.And(z3.Not(nul(e)), rowof(e) < l))

        def T2(r):
            y = Y(r)
            return z3.And(y.null == nul(r), z3.Implies(z3.Not(nul(r)), real(y.val) == self.ts(rowof(r))))
        return S1, S2, T2, rowof

    def numeric_family(self):
        """any number of further numeric columns, with arbitrary names and values (values may be missing)"""
        c = self.c
        code("time.inc"), code("time.exc"), code("time")
        for n in ("_matching_event", "_matching_timestamp", "_depth", "_parent", "_children", "_cct_node", "Graph_Node", "inc_time_in_bin"):
            code(n)
        has, nul, val = c.fresh_fn("has_col", I, B), c.fresh_fn("col_null", I, I, B), c.fresh_fn("col", I, I, R)
        self.has0, self.val0 = (lambda e: has(e)), (lambda e, r: SMaybe(nul(e, r), SNum(val(e, r))))
        self.f.family = (self.has0, self.val0)
        for n in ("_matching_event", "_matching_timestamp", "_depth", "_parent", "_children", "_cct_node"):
            c.assume(z3.Not(has(code(n))))      # these are given as columns of their own when present
        self.literal = set(self.f.cols)

    def base_value(self, e, r):
        """value of the base column named e (the timestamp or a further numeric column) at row r"""
        v = self.val0(e, r)
        return SMaybe(z3.And(e != code(TS), v.null), SNum(z3.If(e == code(TS), self.ts(r), v.val.e)))

    def metric_name(self, e, suffix):
        """name of the metric column of base column e"""
        return z3.If(e == code(TS), z3.IntVal(code("time" + suffix)), strcat(SName(e), suffix).e)

    def use_match_events(self):
        """calls of _match_events are replaced by its contract (C01); the columns may be there already, satisfying it"""
        X, Y = self.with_matching()
        self.there("_matching_event", X, "Int32", "matched_before")
        self.there("_matching_timestamp", Y, None, "matched_before")

        def stub():
            self.trace.events.set_col("_matching_event", X, "Int32")
            self.trace.events.set_col("_matching_timestamp", Y)
        self.trace.__dict__["_match_events"] = stub

    def there(self, name, fn, dtype, flag):
        """a column that may or may not be there before the call (its presence is the symbolic truth value flag)"""
        p = self.__dict__.setdefault("flags", {})
        if flag not in p:
            p[flag] = self.c.fresh(flag, B)
        self.f.cols[name] = Col(fn, dtype)
        self.f.maybe[name] = self.present[name] = p[flag]
        self.orig[name] = fn

    def with_matching(self):
        """give the trace its matching columns, assumed to satisfy the contract of _match_events"""
        c = self.c
        mn, mv = c.fresh_fn("match_null", I, B), c.fresh_fn("match", I, I)
        X = lambda r: SMaybe(mn(r), SNum(mv(r)))
        Y = lambda r: SMaybe(mn(r), SNum(self.ts(mv(r))))
        S1, S2, T2, rowof = self.match_parts(X, Y)
        self.T.rows_universal(lambda r: [S1(r)])
        self.match, self.match_null = mv, mn
        return X, Y


def maybe_lists(L, n):
    """the local lists with one cell per row of the table"""
    out = []
    for v, x in sorted(L.items()):
        if isinstance(x, SList) and not x.concrete and x.ekind is not None and x.ekind[0] in ("maybe", "none") and (x.n.eq(n) or z3.is_true(z3.simplify(x.n == z3.If(n > 0, n, 0)))):
            out.append((v, x))
    return out
