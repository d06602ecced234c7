"""C03: calc_inc_metrics.  For an arbitrary set of numeric columns and an arbitrary list of requested ones (or None):
the metric column of every requested column exists and holds Leave value - Enter value at the matched Enter rows and nothing
elsewhere; it is listed once; every column there was before keeps its values; no other column is added."""
import z3
from contract import *
from tables import *
from tracebase import *


def metric_ok(m, suffix, e, r, F, value):
    """z3 Bool: in frame F the metric column of base column e has the specified value at row r"""
    col = SName(m.metric_name(e, suffix))
    return same(F.colfn(col)(r), value(e, r))


def inc_value(m):
    def f(e, r):
        q = m.match(r)
        m.T.row(q)
        a, b = m.base_value(e, q), m.base_value(e, r)
        return SMaybe(z3.Or(z3.Not(m.enter(r)), m.match_null(r), a.null, b.null), SNum(a.val.e - b.val.e))
    return f


class ColumnsInv(Invariant):
    """loop over the requested columns"""
    name = "columns"

    def match(self, st):
        q = ctx().env.get("cols")
        if q is None or not self.runs_over(st, q["n"]):
            return None
        return {}

    def clauses(self, c, st, bind):
        q = c.env["cols"]
        m, at, j0, n, r0, val = q["m"], q["at"], q["j0"], q["n"], q["r0"], q["value"]
        F, L, L0 = m.trace.events.vc_freeze(), q["listed"]().vc_freeze(), q["listed0"]
        k = st.k
        M0 = m.metric_name(at(j0), q["suffix"])
        g = L.ghosts[0]
        ln = L.length()
        listed = lambda i: expr(L.at(i))
        out = [
            ("the metric of a column visited exists", [], lambda: z3.Implies(j0 < k, F.has(SName(M0))), True),
            ("a metric that exists has its value", [], lambda: z3.Implies(F.has(SName(M0)), metric_ok(m, q["suffix"], at(j0), r0, F, val)), True),
            ("a metric that exists is listed", [], lambda: z3.Implies(F.has(SName(M0)), z3.And(0 <= g.pos, g.pos < ln, listed(g.pos) == M0)), True),
            ("what is listed exists", [L.tag], lambda i: z3.Implies(z3.And(0 <= i, i < ln), F.has(L.at(i))) if not (L.concrete and not L.items) else None, True),
            ("nothing is listed twice", [L.tag, L.tag], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < ln), listed(i) != listed(j)) if not (L.concrete and not L.items) else None, True),
            ("what was listed stays listed", [L.tag], lambda i: z3.Implies(z3.And(0 <= i, i < L0.n), z3.And(i < ln, listed(i) == expr(L0._at(i)))), True),
            ("an existing column keeps its values", [], lambda: z3.Implies(q["F0"].has(SName(q["x0"])), z3.And(F.has(SName(q["x0"])), same(F.colfn(SName(q["x0"]))(r0), q["F0"].colfn(SName(q["x0"]))(r0)))), True),
            ("columns used keep their values", ["name", m.T.tag], lambda e, r: z3.Implies(z3.And(q["base"](e), e != code(TS)), z3.And(F.has(SName(e)), same(F.famfn(e)(r), m.base_value(e, r)))), True),
            ("no other column is added", [], lambda: z3.Implies(z3.And(F.has(SName(q["x0"])), z3.Not(q["F0"].has(SName(q["x0"])))), z3.And(
                0 <= q["wit"](k), q["wit"](k) < k, is_metric(q, q["x0"], at(q["wit"](k))))), True),
        ]
        return out

    def iteration(self, c, st, bind):
        q = c.env["cols"]
        e = q["at"](st.k)
        c.term("name", e)
        c.term(q["tag"], st.k)
        m = q["m"]
        m.metric_name(e, q["suffix"])
        # ghost: the last column so far whose metric is x0
        w = q["wit"]
        c.assume(w(st.k + 1) == z3.If(is_metric(q, q["x0"], e), st.k, w(st.k)))


def is_metric(q, x, e):
    """x is the name of a metric of base column e that the call may add"""
    return z3.Or(*[x == q["m"].metric_name(e, s) for s in q["adds"]])


def setup_columns(c, m, suffix, listed, value):
    """arbitrary requested numeric columns; returns the argument for `columns`"""
    n = c.fresh("ncols", I)
    c.assume(n >= 0)
    atf = c.fresh_fn("col_at", I, I)
    at = lambda j: atf(j)
    base = c.fresh_fn("is_base", I, B)      # the numeric columns of the trace
    lits = [code(x) for x in sorted(m.literal) if x != TS] + [code(x) for x in ("time", "time.inc", "time.exc")]

    def isbase(e):
        # a numeric column is the timestamp or a column of numbers; its name is no metric's name (those are derived) and none of the others
        return z3.Implies(base(e), z3.And(z3.Or(e == code(TS), z3.And(m.has0(e), *[e != z3.IntVal(code(x)) for x in list(engine._codes)
                                                                                    if x in m.literal or x.startswith("_") or x in ("time", "time.inc", "time.exc")]))))
    c.universal(["name"], isbase)

    def notmetric(e, f):
        return z3.Implies(z3.And(base(e), base(f)), z3.And(e != m.metric_name(f, ".inc"), e != m.metric_name(f, ".exc")))
    c.universal(["name", "name"], notmetric)
    tag = "pos:columns"
    cols = SList(None, n, lambda j: SName(at(j)), ("name",))
    cols.tag = tag

    def req(j):
        c.term("name", at(j))
        return z3.Implies(z3.And(0 <= j, j < n), base(at(j)))
    c.universal([tag], req)
    j0 = c.fresh("j0", I)
    c.assume(z3.And(0 <= j0, j0 < n))
    c.term(tag, j0)
    x0 = c.fresh("x0", I)      # an arbitrary column without a fixed name (those of fixed names: frame condition)
    for x in list(engine._codes):
        if x in m.literal or x.startswith("_"):
            c.assume(x0 != code(x))
    r0 = m.T.skolem("r0")
    wit = c.fresh_fn("wit", I, I)
    c.assume(wit(0) == -1)
    q = c.env["cols"] = dict(m=m, n=n, at=at, j0=j0, x0=x0, r0=r0, wit=lambda k: wit(k), suffix=suffix, adds=[suffix], base=lambda e: base(e), listed=listed, value=value, tag=tag, cols=cols)
    return q


def listed_precondition(c, q, L):
    """what was computed before: a metric exists iff it is listed, is listed once, and has its value"""
    m = q["m"]
    nl = c.fresh("nlisted", I)
    c.assume(nl >= 0)
    lf = c.fresh_fn("listed", I, I)
    l = SList(None, nl, lambda i: SName(lf(i)), ("name",))
    M0 = m.metric_name(q["at"](q["j0"]), q["suffix"])
    g = PosGhost(l, M0, engine.name_part)
    g.on_havoc(l)
    l.ghosts = [g]
    c.universal([l.tag, l.tag], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < nl), lf(i) != lf(j)))
    q["F0"] = m.trace.events.vc_freeze()
    c.universal([l.tag], lambda i: z3.Implies(z3.And(0 <= i, i < nl), F0_has(q, lf(i))))
    c.assume(z3.Implies(q["F0"].has(SName(M0)), z3.And(0 <= g.pos, g.pos < nl, lf(g.pos) == M0)))
    q["listed0"] = l.vc_freeze()
    return l


def F0_has(q, e):
    return q["F0"].has(SName(e))


class IncMetrics(Contract):
    name = "Trace.calc_inc_metrics"
    functions = ["pipit.trace.Trace.calc_inc_metrics"]
    invariants = [ColumnsInv]
    trusted = PANDAS + ["_match_events: its contract, proved for C01"]

    def stubs(self):
        return {"pandas": pandas_mod(), "numpy": numpy_mod()}

    def run(self, c, load):
        m = TraceModel(c, load, threads="maybe")
        m.numeric_family()
        m.use_match_events()
        q = setup_columns(c, m, ".inc", lambda: m.trace.inc_metrics, inc_value(m))
        m.trace.inc_metrics = listed_precondition(c, q, m.trace)
        # a metric computed before has its value (it was computed by this function, from the same matching)
        c.assume(z3.Implies(q["F0"].has(SName(m.metric_name(q["at"](q["j0"]), ".inc"))), metric_ok(m, ".inc", q["at"](q["j0"]), q["r0"], q["F0"], inc_value(m))))
        none = c.choose(2, "default columns")
        if none:
            m.trace.numeric_cols = q["cols"]
        else:
            o = c.fresh_fn("other_col", I, I)
            m.trace.numeric_cols = SList(None, z3.If(c.fresh("nother", I) > 0, c.fresh("nother", I), 0), lambda j: SName(o(j)), ("name",))
        guarded(c, "calc_inc_metrics", (lambda: m.trace.calc_inc_metrics()) if none else (lambda: m.trace.calc_inc_metrics(q["cols"])))
        F, L = m.trace.events, m.trace.inc_metrics
        M0 = SName(m.metric_name(q["at"](q["j0"]), ".inc"))
        g = L.ghosts[0]
        c.prove("the metric of every requested column exists", F.has(M0))
        c.prove("it is the Leave value minus the Enter value at matched Enter rows, and missing elsewhere", metric_ok(m, ".inc", q["at"](q["j0"]), q["r0"], F, inc_value(m)))
        c.prove("it is listed", z3.And(0 <= g.pos, g.pos < L.length(), expr(L.at(g.pos)) == M0.e))
        i, j = c.fresh("i", I), c.fresh("j", I)
        c.term(L.tag, i), c.term(L.tag, j)
        c.prove("nothing is listed twice", z3.Implies(z3.And(0 <= i, i < j, j < L.length()), expr(L.at(i)) != expr(L.at(j))))
        x0 = SName(q["x0"])
        c.prove("existing columns keep their values", z3.Implies(q["F0"].has(x0), z3.And(F.has(x0), same(F.colfn(x0)(q["r0"]), q["F0"].colfn(x0)(q["r0"])))))
        m.frame_condition("calc_inc_metrics")
        w = q["wit"](q["n"])
        c.prove("only metrics of requested columns (and the matching) are added", z3.Implies(z3.And(F.has(x0), z3.Not(q["F0"].has(x0))),
                z3.And(0 <= w, w < q["n"], is_metric(q, q["x0"], q["at"](w)))))


def contracts():
    return [IncMetrics()]


ASSUMPTIONS = NUMERIC + ["the columns requested are numeric columns of the trace whose names are not those of metric columns (pipit's own readers never produce such names)",
                         "metric columns already there were computed by calc_inc_metrics itself (object invariant of Trace)"]
