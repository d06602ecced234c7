"""C11: idle_time.  For an arbitrary trace, an arbitrary list of idle functions (or the default) and mpi_events or not: the
result has one row per process of the trace and the value of each row is the sum, over the process's Enter rows whose name is
in the list (extended by the three MPI functions only if requested in this call), of the inclusive time; the list passed and
the default list are not changed (so no call affects a later one), nor are the trace's events."""
import z3
from contract import *
from tables import *
from tracebase import *

MPI = ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]


def use_inc_metrics(m):
    """calls of calc_inc_metrics are replaced by its contract (C03): afterwards time.inc exists and holds the inclusive times"""
    c = m.c
    q, nul = c.fresh_fn("match", I, I), c.fresh_fn("match_null", I, B)

    def inc(r):
        m.T.row(q(r))
        return SMaybe(z3.Or(z3.Not(m.enter(r)), nul(r)), SNum(m.ts(q(r)) - m.ts(r)))
    m.there("time.inc", inc, None, "inc_before")
    m.inc = inc
    m.inc_calls = []

    def stub(columns=None):
        m.inc_calls.append(columns)
        if columns is not None:      # (the default, all numeric columns, includes the timestamp)
            cols = list(columns)
            c.prove("calc_inc_metrics is asked for the timestamp", any(isinstance(x, str) and x == TS for x in cols))
        m.trace.events.set_col("time.inc", inc)
    m.trace.__dict__["calc_inc_metrics"] = stub


class PerProcess(Invariant):
    """loop over the distinct processes"""
    name = "processes"

    def match(self, st):
        if ctx().env.get("idle") is None or not isinstance(st.seq, SSet):
            return None
        return {}

    def enter(self, c, st, bind):
        q = c.env["idle"]
        st.extra["j0"] = c.fresh("j0", I)
        q["j0s"].append((st.seq, st.extra["j0"]))
        c.term(st.seq.tag, st.extra["j0"])

    def lists(self, st):
        out = []
        for v, x in sorted(st.L.items()):
            if isinstance(x, SList):
                out.append((v, x))
            if isinstance(x, SDict):
                out += [("%s[%r]" % (v, k), y) for k, y in sorted(x.d.items(), key=lambda p: repr(p[0])) if isinstance(y, SList)]
        return [(v, x) for v, x in out if x.oid in st.mods]

    def clauses(self, c, st, bind):
        q = c.env["idle"]
        m, s, j0, k = q["m"], st.seq, st.extra["j0"], st.k
        F = m.trace.events.vc_freeze()
        out = [("the inclusive times are what they are", [m.T.tag], lambda r: z3.Implies(F.has("time.inc"), same(F.colfn("time.inc")(r), m.inc(r))), True)]
        out.append(("inclusive times there before stay", [], lambda: z3.Implies(m.present["time.inc"], F.has("time.inc")), True))
        for v, x in self.lists(st):
            x = x.vc_freeze()
            out.append(("%s: one element per process visited" % v, [], lambda x=x: x.length() == k, True))
            if x.concrete and not x.items:
                elem = lambda i: None
            else:
                try:
                    kd = kind_of(x.at(c.fresh("i", I)))
                except EmptyElem:
                    kd = None
                elem = (lambda i, x=x: x.at(i)) if kd is not None and kd[0] in ("int", "real") else None
                if elem is None:
                    continue
            out.append(("%s holds the processes visited" % v, [s.tag], lambda i, x=x, elem=elem: z3.Implies(z3.And(0 <= i, i < k), real(elem(i)) == real(s.at(i))) if elem(i) is not None else None, True))
            out.append(("%s holds the idle time of an arbitrary process visited" % v, [], lambda x=x, elem=elem: z3.Implies(z3.And(0 <= j0, j0 < k), real(elem(j0)) == q["spec"](s.at(j0))) if elem(j0) is not None else None, True))
        return out

    def iteration(self, c, st, bind):
        c.branch(st.k == st.extra["j0"])


class IdleTime(Contract):
    name = "Trace.idle_time"
    functions = ["pipit.trace.Trace.idle_time", "pipit.trace.Trace._calculate_idle_time_for_process"]
    invariants = [PerProcess]
    trusted = PANDAS + ["calc_inc_metrics: its contract, proved for C03", "Series.sum ignores missing values; boolean selection keeps row order; DataFrame of a dict of equally long lists has one row per position"]

    def stubs(self):
        return {"pandas": pandas_mod(DataFrame=pd_DataFrame), "numpy": numpy_mod()}

    def run(self, c, load):
        m = TraceModel(c, load, threads=False)
        m.numeric_family()
        use_inc_metrics(m)
        given = c.choose(2, "idle functions")
        if given:
            n = c.fresh("nidle", I)
            c.assume(n >= 0)
            at, mem = c.fresh_fn("idle_at", I, I), c.fresh_fn("is_idle", I, B)
            arg = SList(None, n, lambda j: SName(at(j)), ("name",))
            arg.meta = {"member": lambda e: mem(e)}
            base = lambda e: mem(e)
        else:
            arg, at = None, None
            base = lambda e: e == code("Idle")
        mpi = c.choose(3, "mpi_events")
        isidle = lambda e: z3.Or(base(e), *([e == code(x) for x in MPI] if mpi == 1 else []))

        def spec(p):
            hit = lambda r: z3.And(m.enter(r), m.pr(r) == real(p) if m.pr(r).sort() == R else m.pr(r) == expr(p), isidle(m.nm(r)))
            return SUM(m.T, lambda r: z3.If(z3.And(hit(r), z3.Not(m.inc(r).null)), real(m.inc(r).val), z3.RealVal(0)))
        c.env["idle"] = dict(m=m, spec=spec, j0s=[])
        kw = {} if mpi == 2 else {"mpi_events": mpi == 1}
        g, _ = guarded(c, "idle_time", lambda: m.trace.idle_time(arg, **kw) if given else m.trace.idle_time(**kw))
        if given:
            i = c.fresh("i", I)
            c.prove("the list passed by the caller is not changed", arg.length() == n if not arg.concrete else False)
            c.prove("the list passed by the caller is not changed (elements)", z3.Implies(z3.And(0 <= i, i < n), expr(arg._at(i)) == at(i)))
        for f in (m.mod.Trace.idle_time, m.mod.Trace._calculate_idle_time_for_process):
            for d in (f.__defaults__ or ()):
                if isinstance(d, SList):
                    c.prove("a default list is not changed", d.concrete and d.items == ["Idle"])
        if not isinstance(g, SFrame):
            raise Unsupported("result of type %s" % type(g).__name__)
        c.prove("the columns are Process and Idle Time", set(g.cols) == {"Process", "Idle Time"} and not g.maybe and not g.family)
        P, T2, t = g.cols["Process"].fn, g.cols["Idle Time"].fn, g.view.table
        r0 = m.T.skolem("event")
        wit = [s.rank(*s.tup(r0)) for s in c.env.get("sets", []) if s.arity == 1 and s.view.table is m.T and s.kinds[0][0] in ("int", "real")]
        for w in wit:
            t.row(w)
        c.prove("every process of the trace has a row", z3.Or(*[z3.And(g.view.member(w), real(P(w)) == real(m.pr(r0))) for w in wit]) if wit else False)
        i, j = t.skolem("i"), t.skolem("j")
        for s in c.env.get("sets", []):
            c.term(s.tag, i), c.term(s.tag, j)
        c.prove("no process has two rows", z3.Implies(z3.And(g.view.member(i), g.view.member(j), i != j), real(P(i)) != real(P(j))))
        c.prove("every row is a process of the trace", z3.Implies(g.view.member(i), EXISTS(m.T, lambda r: real(m.pr(r)) == real(P(i)))))
        if c.env["idle"]["j0s"]:
            s, j0 = c.env["idle"]["j0s"][-1]
            t.row(j0)
            c.assume(z3.And(0 <= j0, j0 < t.n))
        else:
            j0 = t.skolem("j0")
        c.prove("the idle time of a process is the sum over its idle functions' Enter rows", z3.Implies(g.view.member(j0), real(T2(j0)) == spec(P(j0))))
        m.frame_condition("idle_time")


def contracts():
    return [IdleTime()]


ASSUMPTIONS = NUMERIC + ["the inclusive times are computed by calc_inc_metrics (C03); if time.inc was there before the call it is what calc_inc_metrics gives"]
