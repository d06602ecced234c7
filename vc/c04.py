"""C04: calc_exc_metrics.  For an arbitrary set of numeric columns and an arbitrary list of requested ones (or None):
the exclusive metric of every requested column exists, is listed once, and at a matched Enter row is the inclusive metric minus
the sum of the inclusive metrics of the rows of its children list (the direct callees, C02), missing where one of these is;
elsewhere it is missing.  Existing columns keep their values; no other column than inclusive / exclusive metrics is added."""
import z3
from contract import *
from tables import *
from tracebase import *
from c01 import view_loop, column, column_snapshot
from c02 import Nest, maybe_lists, celem
from c03 import *


class Sums:
    """sum of the inclusive metric of column e over the first i children of row p (a recursive definition, unfolded where needed)"""

    def __init__(self, c, m, cells):
        self.c, self.m, self.cells = c, m, cells
        ps, pn = c.fresh_fn("children_sum", I, I, I, R), c.fresh_fn("children_missing", I, I, I, B)
        self.val, self.null = (lambda e, p, i: ps(e, p, i)), (lambda e, p, i: pn(e, p, i))

    def start(self, e, p):
        self.c.assume(z3.And(self.val(e, p, 0) == 0, z3.Not(self.null(e, p, 0))))

    def step(self, e, p, i):
        v = inc_value(self.m)(e, celem(self.cells)(p, i))
        self.c.assume(z3.And(self.val(e, p, i + 1) == self.val(e, p, i) + v.val.e, self.null(e, p, i + 1) == z3.Or(self.null(e, p, i), v.null)))

    def upto(self, e, p, i):
        v = inc_value(self.m)(e, p)
        return SMaybe(z3.Or(v.null, self.null(e, p, i)), SNum(v.val.e - self.val(e, p, i)))


def exc_value(c, m):
    def f(e, r):
        v, C, S = inc_value(m)(e, r), c.env["children"], c.env["sums"]
        w = S.upto(e, r, C.len(r))
        return SMaybe(z3.If(C.null(r), v.null, w.null), SNum(z3.If(C.null(r), v.val.e, w.val.e)))
    return f


def inc_ok(q, F, r):
    m = q["m"]
    e = q["at"](q["j0"])
    return z3.Implies(z3.And(m.inrange(r), F.has(SName(m.metric_name(e, ".inc")))), metric_ok(m, ".inc", e, r, F, inc_value(m)))


class Columns(ColumnsInv):
    def clauses(self, c, st, bind):
        q = c.env["cols"]
        m = q["m"]
        F = m.trace.events.vc_freeze()
        return ColumnsInv.clauses(self, c, st, bind) + [
            ("an inclusive metric that exists has its value", [m.T.tag], lambda r: inc_ok(q, F, r), True)]

    def iteration(self, c, st, bind):
        ColumnsInv.iteration(self, c, st, bind)
        q = c.env["cols"]
        q["col"] = q["at"](st.k)
        q["m"].metric_name(q["col"], ".inc")


class Parents(Invariant):
    """loop over the rows with children"""
    name = "parents"

    def match(self, st):
        q = ctx().env.get("cols")
        v = view_loop(st)
        return None if v is None or "col" not in (q or {}) else {"view": v}

    def clauses(self, c, st, bind):
        q, V = c.env["cols"], bind["view"]
        m, r0 = q["m"], q["r0"]
        cnt, at, pos, tag = V.enum()
        e = q["at"](q["j0"])
        out = []
        for v, x in maybe_lists(st.L, m.T.n):
            if not st.changed(x):
                continue
            X = column(x)
            out.append(("%s is the inclusive metric minus the children of the rows done" % v, [], lambda X=X: z3.Implies(q["col"] == e, z3.If(
                z3.And(V.member(r0), pos(r0) < st.k), same(X(r0), exc_value(c, m)(e, r0)), same(X(r0), inc_value(m)(e, r0)))), True))
        return out

    def iteration(self, c, st, bind):
        cnt, at, pos, tag = bind["view"].enum()
        c.env["row"] = at(st.k)


class Children(Invariant):
    """loop over the children of a row"""
    name = "children"

    def match(self, st):
        p, C = ctx().env.get("row"), ctx().env.get("children")
        if p is None:
            return None
        if isinstance(st.seq, engine.CellSeq) and z3.simplify(st.seq.q).eq(z3.simplify(p)) or self.runs_over(st, C.len(p)):
            return {"row": p}
        return None

    def enter(self, c, st, bind):
        q = c.env["cols"]
        st.extra["entry"] = {v: column_snapshot(x) for v, x in maybe_lists(st.L, q["m"].T.n)}
        c.env["sums"].start(q["col"], bind["row"])

    def clauses(self, c, st, bind):
        q = c.env["cols"]
        m, r0, p = q["m"], q["r0"], bind["row"]
        e = q["at"](q["j0"])
        out = []
        for v, x in maybe_lists(st.L, m.T.n):
            X, X0 = column(x), st.extra["entry"].get(v)
            if X0 is None or not st.changed(x):
                continue
            out.append(("%s of the row is its inclusive metric minus the children visited, other rows are unchanged" % v, [], lambda X=X, X0=X0: z3.Implies(q["col"] == e, z3.If(
                p == r0, same(X(r0), c.env["sums"].upto(e, r0, st.k)), same(X(r0), X0(r0)))), True))
        return out

    def iteration(self, c, st, bind):
        q = c.env["cols"]
        p = bind["row"]
        q["m"].T.row(celem(c.env["children"])(p, st.k))
        c.env["sums"].step(q["col"], p, st.k)
        c.term(c.env["celltag"], st.k)


class ExcMetrics(Contract):
    name = "Trace.calc_exc_metrics"
    functions = ["pipit.trace.Trace.calc_exc_metrics", "pipit.trace.Trace.calc_inc_metrics"]
    invariants = [Columns, Parents, Children]
    trusted = PANDAS + ["_match_events, _match_caller_callee: their contracts, proved for C01 and C02"]

    def stubs(self):
        return {"pandas": pandas_mod(), "numpy": numpy_mod()}

    def run(self, c, load):
        m = c.env["model"] = TraceModel(c, load, threads="maybe")
        m.numeric_family()
        use_caller_callee(c, m)
        q = setup_columns(c, m, ".exc", lambda: m.trace.exc_metrics, exc_value(c, m))
        q["adds"] = [".exc", ".inc"]
        m.trace.exc_metrics = listed_precondition(c, q, m.trace)
        e = q["at"](q["j0"])
        m.trace.inc_metrics = SList([])
        M0, I0 = SName(m.metric_name(e, ".exc")), SName(m.metric_name(e, ".inc"))
        c.assume(z3.Implies(q["F0"].has(M0), metric_ok(m, ".exc", e, q["r0"], q["F0"], exc_value(c, m))))
        m.T.rows_universal(lambda r: [inc_ok(q, q["F0"], r)])
        none = c.choose(2, "default columns")
        if none:
            m.trace.numeric_cols = q["cols"]
        else:
            o = c.fresh_fn("other_col", I, I)
            m.trace.numeric_cols = SList(None, z3.If(c.fresh("nother", I) > 0, c.fresh("nother", I), 0), lambda j: SName(o(j)), ("name",))
        guarded(c, "calc_exc_metrics", (lambda: m.trace.calc_exc_metrics()) if none else (lambda: m.trace.calc_exc_metrics(q["cols"])))
        F, L = m.trace.events, m.trace.exc_metrics
        g = L.ghosts[0]
        c.prove("the exclusive metric of every requested column exists", F.has(M0))
        c.prove("it is the inclusive metric minus the sum over the direct callees at matched Enter rows, and missing elsewhere",
                metric_ok(m, ".exc", e, q["r0"], F, exc_value(c, m)))
        c.prove("inclusive metrics have their value", inc_ok(q, F, q["r0"]))
        c.prove("it is listed", z3.And(0 <= g.pos, g.pos < L.length(), expr(L.at(g.pos)) == M0.e))
        i, j = c.fresh("i", I), c.fresh("j", I)
        c.term(L.tag, i), c.term(L.tag, j)
        c.prove("nothing is listed twice", z3.Implies(z3.And(0 <= i, i < j, j < L.length()), expr(L.at(i)) != expr(L.at(j))))
        x0 = SName(q["x0"])
        c.prove("existing columns keep their values", z3.Implies(q["F0"].has(x0), z3.And(F.has(x0), same(F.colfn(x0)(q["r0"]), q["F0"].colfn(x0)(q["r0"])))))
        m.frame_condition("calc_exc_metrics")
        w = q["wit"](q["n"])
        c.prove("only metrics of requested columns (and the matching) are added", z3.Implies(z3.And(F.has(x0), z3.Not(q["F0"].has(x0))),
                z3.And(0 <= w, w < q["n"], is_metric(q, q["x0"], q["at"](w)))))


def use_caller_callee(c, m):
    """calls of _match_caller_callee are replaced by its contract (C02); the columns may be there already, satisfying it"""
    m.use_match_events()
    S = Nest(m)
    cn, cl, ce = c.fresh_fn("children_null", I, B), c.fresh_fn("children_len", I, I), c.fresh_fn("child", I, I, I)
    pn, pf, dn, df = c.fresh_fn("parent_null", I, B), c.fresh_fn("parent", I, I), c.fresh_fn("depth_null", I, B), c.fresh_fn("depth", I, I)
    C = c.env["children"] = engine.Cells(lambda q: cn(q), lambda q: z3.If(cl(q) > 0, cl(q), 0), lambda q, i: SNum(ce(q, i)), ("int",))
    c.env["sums"] = Sums(c, m, C)
    P = lambda r: SMaybe(pn(r), SNum(pf(r)))
    D = lambda r: SMaybe(dn(r), SNum(df(r)))

    l = SList(None, m.T.n, lambda r: None, ("none",))
    l.cells = C
    l._at = lambda q: engine.CellRef(l, q)
    l.ekind = None
    tag = c.env["celltag"] = "cell:%d" % l.oid
    m.T.rows_universal(lambda r: [S.absent(P, r), S.absent(D, r), S.parent_open(P, r), S.depth(D, P, r), z3.Implies(z3.And(m.inrange(r), z3.Not(S.ME(r))), C.null(r))])
    c.universal([m.T.tag, tag], lambda q, i: S.child(C, P, q, i))
    K = lambda r: engine.CellRef(l, r)
    for n, fn, dt in (("_depth", D, "category"), ("_parent", P, "category"), ("_children", K, None)):
        m.there(n, fn, dt, "callers_before")
    c.assume(z3.Implies(m.flags["callers_before"], m.flags["matched_before"]))

    def stub():
        m.trace.__dict__["_match_events"]()
        for n, fn, dt in (("_depth", D, "category"), ("_parent", P, "category"), ("_children", K, None)):
            m.trace.events.set_col(n, fn, dt)
    m.trace.__dict__["_match_caller_callee"] = stub
    return S


def contracts():
    return [ExcMetrics()]


ASSUMPTIONS = NUMERIC + ["the columns requested are numeric columns of the trace whose names are not those of metric columns (pipit's own readers never produce such names)",
                         "metric columns already there were computed by pipit itself (object invariant of Trace)",
                         "that on each location the exclusive values add up to the inclusive values of the outermost calls follows by summing the proved equation over all rows, every row with a parent being in exactly one children list (C02)"]
