"""C13: multirun_analysis.  For an arbitrary (non-empty) list of traces, metric column and grouping column: the result has one
row per trace, in order, labelled with the trace's number of processes; an arbitrary entry is the value of that trace's flat
profile (contract: C09) of the exclusive metric, missing where the profile has no such group; the columns are the groups of
any of the profiles in descending order of the sum of their entries."""
import z3
from contract import *
from tables import *
from tracebase import *
import instrument


class W:
    """the world of traces: trace k has nproc(k) processes; flat profile of metric m by groups of column g: has(k,m,g,x), val(k,m,g,x)"""

    def __init__(self, c):
        self.nproc = c.fresh_fn("nproc", I, I)
        self.has = c.fresh_fn("profile_has", I, I, I, I, B)
        self.val = c.fresh_fn("profile", I, I, I, I, R)
        self.calc = []


class Ref:
    """base of the values standing for objects of trace number k"""
    kind, fields = None, 1

    def __init__(self, *e):
        self.e = e

    def vc_kind(self): return (self.kind,)

    def vc_same(self, o):
        return z3.And(*[a == b for a, b in zip(self.e, o.e)]) if type(o) is type(self) else z3.BoolVal(False)

    def vc_ite(self, cond, o):
        return type(self)(*[z3.If(cond, a, b) for a, b in zip(self.e, o.e)]) if type(o) is type(self) else NotImplemented

    def __eq__(self, o): raise Unsupported("comparison of objects")
    __hash__ = None

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("%s.%s" % (self.kind, a))


class TraceRef(Ref):
    kind = "traceref"

    @property
    def events(self): return EventsRef(*self.e)

    def calc_exc_metrics(self, columns=None):
        if columns is None:
            ctx().env["w"].calc.append((self.e[0], None))
            return
        for x in columns_of(columns):
            ctx().env["w"].calc.append((self.e[0], nameexpr(x)))

    def flat_profile(self, metrics="time.exc", groupby_column="Name", per_process=False):
        c = ctx()
        ms = columns_of(metrics)
        if len(ms) != 1 or isinstance(groupby_column, (list, SList)):
            raise Unsupported("flat profile of several metrics or groups")
        if per_process is not False:
            c.prove("the profile is the mean over the processes", z3.Not(tobool(per_process)))
        m = nameexpr(ms[0])
        ok = [m == code("time.exc")] + [z3.And(k == self.e[0], m == metric_of(x)) if x is not None else k == self.e[0] for k, x in c.env["w"].calc]
        c.prove("the exclusive metric profiled was computed on this trace", z3.Or(*ok))
        return ProfileRef(self.e[0], m, nameexpr(groupby_column))


def metric_of(x):
    return z3.If(x == code(TS), z3.IntVal(code("time.exc")), strcat(SName(x), ".exc").e)


class EventsRef(Ref):
    kind = "eventsref"

    def __getitem__(self, k):
        if k == "Process":
            return ProcsRef(*self.e)
        raise Unsupported("events[%r]" % (k,))


class ProcsRef(Ref):
    kind = "procsref"

    def vc_set(self): return ProcSet(*self.e)
    def unique(self): return ProcSet(*self.e)
    def nunique(self): return SNum(ctx().env["w"].nproc(self.e[0]))


class ProcSet(Ref):
    kind = "procset"

    def vc_len(self): return ctx().env["w"].nproc(self.e[0])


class ProfileRef(Ref):
    kind, fields = "profileref", 3

    def __getitem__(self, m):
        if isinstance(m, (str, SName)):
            ctx().prove("no KeyError (metric of a profile)", nameexpr(m) == self.e[1])
            return SeriesRef(*self.e)
        raise Unsupported("profile[%s]" % type(m).__name__)


class SeriesRef(Ref):
    kind, fields = "seriesref", 3


for _k in (TraceRef, ProfileRef, SeriesRef):
    KIND_MAKERS[_k.kind] = lambda kind, name, K=_k: K(*[ctx().fresh(name, I) for _ in range(K.fields)])

    def _fam(kind, name, argsorts, K=_k):
        fs = [ctx().fresh_fn(name, *(tuple(argsorts) + (I,))) for _ in range(K.fields)]
        return lambda *a: K(*[f(*a) for f in fs])
    KIND_MAKERS[("family", _k.kind)] = _fam


class Combined(SObj):
    """pd.concat([series...], axis=1): columns are the series in order, rows the union of their groups (transposed by .T)"""

    def __init__(self, n, ser, T=False):
        SObj.__init__(self)
        self.n, self.ser, self.t = n, ser, T      # ser(k) -> SeriesRef
        self.labels = None
        self.order = None
        self.ixname = None

    def entry(self, k, x):
        s = self.ser(k)
        w = ctx().env["w"]
        return SMaybe(z3.Not(w.has(*s.e, x)), SNum(w.val(*s.e, x)))

    @property
    def T(self):
        r = Combined(self.n, self.ser, not self.t)
        return r

    @property
    def index(self):
        return IndexOf(self)

    @index.setter
    def index(self, v):
        if not self.t or not isinstance(v, (SList, Seq)):
            raise Unsupported("index assignment")
        self.touch()
        ctx().prove("one label per row", v.length() == self.n)
        self.labels = freeze(v)

    def sum(self, axis=0):
        if not self.t or axis != 0:
            raise Unsupported("sum of the groups of one trace")
        return Totals(self, lambda x: SUM(("range",), lambda k: z3.If(z3.And(0 <= k, k < self.n, z3.Not(self.entry(k, x).null)), self.entry(k, x).val.e, z3.RealVal(0))))

    def mean(self, axis=0):
        return Totals(self, lambda x: self.sum().h(x) / SUM(("range",), lambda k: z3.If(z3.And(0 <= k, k < self.n, z3.Not(self.entry(k, x).null)), z3.RealVal(1), z3.RealVal(0))))

    def max(self, axis=0): raise Unsupported("maximum of the entries of a group")

    def __getitem__(self, o):
        if not isinstance(o, Order) or o.of is not self and o.of.ser is not self.ser:
            raise Unsupported("columns selected by %s" % type(o).__name__)
        r = Combined(self.n, self.ser, self.t)
        r.labels, r.ixname, r.order = self.labels, self.ixname, o
        return r

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("combined table .%s" % a)


class IndexOf:
    def __init__(self, t):
        self.t = t

    def rename(self, name, inplace=False):
        if inplace is not True:
            raise Unsupported("rename of an index")
        self.t.ixname = name


class Totals:
    def __init__(self, of, h):
        self.of, self.h = of, h

    def sort_values(self, ascending=True):
        return Sorted(self, ascending)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("totals .%s" % a)


class Sorted:
    def __init__(self, t, asc):
        self.t, self.asc = t, asc

    @property
    def index(self): return Order(self.t.of, self.t.h, self.asc)


class Order:
    def __init__(self, of, h, asc):
        self.of, self.h, self.asc = of, h, asc


def concat(objs, axis=0, **kw):
    if kw or axis not in (1, "columns"):
        raise Unsupported("concat along axis %r %s" % (axis, sorted(kw)))
    c = ctx()
    if not isinstance(objs, (SList, Seq)):
        raise Unsupported("concat of %s" % type(objs).__name__)
    n = objs.length()
    c.prove("no ValueError (something to concatenate)", n > 0)
    objs = freeze(objs)

    def ser(k):
        if getattr(objs, "tag", None):
            c.term(objs.tag, k)
        s = objs.at(k)
        if not isinstance(s, SeriesRef):
            raise Unsupported("concat of %s" % type(s).__name__)
        return s
    ser(c.fresh("k", I))
    return Combined(n, ser)


class Traces(Invariant):
    name = "traces"

    def match(self, st):
        q = ctx().env.get("multi")
        return {} if q is not None and self.runs_over(st, q["n"]) else None

    def clauses(self, c, st, bind):
        q = c.env["multi"]
        k = st.k
        out = []
        for v in sorted(set(st.L) | set(st.names)):
            x = st.L.get(v, instrument.UNBOUND)
            if isinstance(x, SList) and x.oid in st.mods:
                x = x.vc_freeze()
                out.append(("%s: one element per trace visited" % v, [], lambda x=x: x.length() == k, True))

                def elem(i, x=x):
                    p = x.at(i) if not (x.concrete and not x.items) else None
                    return z3.Implies(z3.And(0 <= i, i < k), z3.And(p.e[0] == i, p.e[1] == q["M"], p.e[2] == q["g"])) if isinstance(p, (ProfileRef, SeriesRef)) else None
                try:
                    out.append(("%s holds the profiles of the traces visited" % v, [x.tag], elem, True))
                except EmptyElem:
                    pass
            elif v in st.names and (isinstance(x, (str, SName)) or type(x).__name__ == "_Unbound"):
                out.append(("%s is the metric, once a trace was visited" % v, [], lambda x=x: z3.Implies(k > 0, nameexpr(x) == q["M"] if isinstance(x, (str, SName)) else z3.BoolVal(False)), True))
        return out


class Multirun(Contract):
    name = "Trace.multirun_analysis"
    functions = ["pipit.trace.Trace.multirun_analysis"]
    invariants = [Traces]
    trusted = ["pandas: concat(axis=1) of series aligns their labels, .T, assignment of the index, sum() ignoring missing values, sort_values(ascending), selection of columns by an index (classes Combined, Totals of vc/c13.py)",
               "flat_profile and calc_exc_metrics: their contracts, proved for C09 and C04"]

    def stubs(self):
        return {"pandas": pandas_mod(DataFrame=pd_DataFrame, concat=concat), "numpy": numpy_mod()}

    def run(self, c, load):
        mod = load("pipit.trace")
        w = c.env["w"] = W(c)
        n = c.fresh("ntraces", I)
        c.assume(n >= 1)
        traces = SList(None, n, lambda k: TraceRef(k), ("traceref",))
        e, ge = c.fresh("metric", I), c.fresh("groupby", I)
        code(TS), code("time.exc")
        dm, dg = c.choose(2, "metric"), c.choose(2, "groups")
        if not dm:
            c.assume(e == code(TS))
        if not dg:
            c.assume(ge == code(NM))
        M = metric_of(e)
        kw = {}
        if dm:
            kw["metric_column"] = SName(e)
        if dg:
            kw["groupby_column"] = SName(ge)
        c.env["multi"] = dict(n=n, M=M, g=ge)
        g, _ = guarded(c, "multirun_analysis", lambda: mod.Trace.multirun_analysis(traces, **kw))
        if not isinstance(g, Combined):
            raise Unsupported("result of type %s" % type(g).__name__)
        c.prove("one row per trace", z3.And(z3.BoolVal(g.t), g.n == n))
        k, x = c.fresh("row", I), c.fresh("group", I)
        c.assume(z3.And(0 <= k, k < n))
        lab = g.labels
        c.prove("rows are labelled", lab is not None)
        if lab.tag:
            c.term(lab.tag, k)
        c.prove("a row is labelled with its trace's number of processes", real(lab.at(k)) == z3.ToReal(w.nproc(k)))
        spec = lambda k, x: SMaybe(z3.Not(w.has(k, M, ge, x)), SNum(w.val(k, M, ge, x)))
        c.prove("an entry is the value of the row's trace's profile, missing if it has none", same(g.entry(k, x), spec(k, x)))
        c.prove("the columns are ordered", g.order is not None)
        c.prove("in descending order", z3.Not(tobool(SBool(g.order.asc) if isinstance(g.order.asc, bool) else g.order.asc)))
        tot = SUM(("range",), lambda i: z3.If(z3.And(0 <= i, i < n, z3.Not(spec(i, x).null)), spec(i, x).val.e, z3.RealVal(0)))
        c.prove("of the sums of their entries", g.order.h(x) == tot)


def contracts():
    return [Multirun()]


ASSUMPTIONS = NUMERIC + ["at least one trace is given", "the order of groups of equal total is not specified"]
