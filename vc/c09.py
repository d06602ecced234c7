"""C09: flat_profile.  For an arbitrary trace, metric (one name or an arbitrary list), grouping (one column or an arbitrary
list) and per_process or not: an arbitrary entry of the result is present exactly when specified and has the specified value."""
import z3
from contract import *
from tables import *
from tracebase import *

ARGS = {"all": None}


def use_metrics(m):
    """calls of calc_inc_metrics / calc_exc_metrics are replaced by their contracts (C03, C04)"""
    c = m.c
    fns = {}
    for col in ("time.inc", "time.exc"):
        nul, val = c.fresh_fn(col + "_null", I, B), c.fresh_fn(col, I, R)

        def fn(r, nul=nul, val=val):
            return SMaybe(z3.Or(z3.Not(m.enter(r)), nul(r)), SNum(val(r)))
        fns[col] = fn
        m.there(col, fn, None, col + "_before")

    def stub(cols_added):
        def f(columns=None):
            if columns is not None:
                cs = columns_of(columns)
                c.prove("the metrics asked for include the time", any(isinstance(x, str) and x == TS for x in cs))
            for col in cols_added:
                m.trace.events.set_col(col, fns[col])
        return f
    m.trace.__dict__["calc_inc_metrics"] = stub(["time.inc"])
    m.trace.__dict__["calc_exc_metrics"] = stub(["time.inc", "time.exc"])
    m.metric = fns
    return fns


def metric_column(c, m, name):
    """an arbitrary metric: time.inc, time.exc, or a numeric column"""
    e = c.fresh(name, I)
    for x in (ET, NM, PR, TH):
        c.assume(e != code(x))
    c.assume(z3.Or(e == code("time.inc"), e == code("time.exc"), e == code(TS), m.has0(e)))
    c.assume(z3.And(*[e != code(x) for x in list(engine._codes) if x.startswith("_")]))
    return e


def metric_value(m, e, r):
    """value of the metric named e at row r, once it has been computed"""
    a, b, d = m.metric["time.inc"](r), m.metric["time.exc"](r), m.base_value(e, r)
    inc, exc = e == code("time.inc"), e == code("time.exc")
    return SMaybe(z3.If(inc, a.null, z3.If(exc, b.null, d.null)), SNum(z3.If(inc, a.val.e, z3.If(exc, b.val.e, d.val.e))))


class FlatProfile(Contract):
    name = "Trace.flat_profile"
    functions = ["pipit.trace.Trace.flat_profile"]
    trusted = PANDAS + ["pandas groupby(...)[...].sum() / .mean() as defined in vc/tables.py (class Grouped), observed=True, missing values skipped", "calc_inc_metrics, calc_exc_metrics: their contracts, proved for C03 and C04"]

    def stubs(self):
        return {"pandas": pandas_mod(DataFrame=pd_DataFrame), "numpy": numpy_mod()}

    def run(self, c, load):
        m = TraceModel(c, load, threads=False)
        m.numeric_family()
        use_metrics(m)
        e = metric_column(c, m, "metric")
        how = c.choose(3, "metrics")      # one name, a list, the default
        if how == 2:
            c.assume(e == code("time.exc"))
        mem = c.fresh_fn("in_metrics", I, B)
        if how == 1:
            c.assume(mem(e))
        metrics = SName(e) if how == 0 else SymCols(SName(e), lambda x: mem(x))
        gr = c.choose(3, "groups")        # the default (Name), one column, a list
        ge = c.fresh("group", I)
        for x in (ET, PR, TS, "time.inc", "time.exc", TH):
            c.assume(ge != code(x))
        c.assume(z3.And(*[ge != code(x) for x in list(engine._codes) if x.startswith("_")]))
        if gr:
            c.assume(z3.And(m.has0(ge), ge != code(NM), ge != e))
        gcol = [None, SName(ge), SymCols(SName(ge))][gr]
        gval = (lambda r: SMaybe(False, SNum(z3.ToReal(m.nm(r))))) if gr == 0 else (lambda r: m.val0(ge, r))
        per = c.choose(3, "per_process")
        kw = {}
        if how != 2:
            kw["metrics"] = metrics
        if gr:
            kw["groupby_column"] = gcol
        if per:
            kw["per_process"] = per == 1
        g, _ = guarded(c, "flat_profile", lambda: m.trace.flat_profile(**kw))
        if not isinstance(g, (Grouped, Regrouped)):
            raise Unsupported("result of type %s" % type(g).__name__)
        # specification
        gv, pv = c.fresh("g", R if gr else I), c.fresh("p", m.pr(z3.IntVal(0)).sort())

        def hit(r, p=pv):
            k = gval(r)
            kk = real(k.val) == (gv if gr else z3.ToReal(gv))
            return z3.And(m.enter(r), m.inrange(r), z3.Not(k.null), kk, m.pr(r) == p)
        v = lambda r: metric_value(m, e, r)
        spec_sum = lambda p: SUM(m.T, lambda r: z3.If(z3.And(hit(r, p), z3.Not(v(r).null)), real(v(r).val), z3.RealVal(0)))
        spec_pres = lambda p: EXISTS(m.T, lambda r: hit(r, p))
        col = g.cols[0]
        c.prove("the result has the requested metrics", len(g.cols) == 1 and z3.is_expr(nameexpr(col)) and z3.simplify(nameexpr(col)).eq(z3.simplify(e)) if how != 2 else len(g.cols) == 1 and col == "time.exc")
        keyof = lambda k: NM if isinstance(k, str) and k == NM else "group" if isinstance(k, SName) and k.e.eq(ge) else PR if isinstance(k, str) and k == PR else k
        want = NM if gr == 0 else "group"
        if per == 1:
            c.prove("the result has one level per group column and one for the process", isinstance(g, Grouped) and [keyof(k) for k in g.keys] == [want, PR])
            c.prove("a group and a process have an entry exactly if the group occurs on the process", g.present([gv, pv]) == spec_pres(pv))
            c.prove("the entry is the sum over the group's Enter rows on the process, ignoring missing values", z3.Implies(spec_pres(pv), g.value(col, [gv, pv]) == spec_sum(pv)))
        else:
            c.prove("the result is per group", isinstance(g, Regrouped) and [keyof(k) for k in g.keys] == [want])
            some = EXISTS("key", lambda o: spec_pres(o if pv.sort() == I else z3.ToReal(o)))
            P = lambda o: o if pv.sort() == I else z3.ToReal(o)
            tot = SUM("key", lambda o: z3.If(spec_pres(P(o)), spec_sum(P(o)), z3.RealVal(0)))
            cnt = SUM("key", lambda o: z3.If(spec_pres(P(o)), z3.RealVal(1), z3.RealVal(0)))
            c.prove("a group has an entry exactly if it occurs on some process", g.present([gv]) == some)
            c.prove("the entry is the mean over the processes on which the group occurs of the sums", g.value(col, [gv]) == tot / cnt)
        m.frame_condition("flat_profile")


def contracts():
    return [FlatProfile()]


ASSUMPTIONS = NUMERIC + ["columns grouped by are neither Process nor a metric; a list of grouping columns is treated as one column of the tuples of their values (pandas groups by tuples)"]
