"""C07: comm_matrix and comm_by_process.  For an arbitrary trace on processes 0..P-1 and an arbitrary entry [s][r]: the matrix
has shape P x P and the entry is the sum, over the blocking and non-blocking point-to-point send events of process s whose
receiver is r, of the message length (or of 1); comm_by_process gives row and column totals of that matrix."""
import z3
from contract import *
from tables import *
from tracebase import *

SENDS, RECVS = ["MpiSend", "MpiIsend"], ["MpiRecv", "MpiIrecv"]


def message_trace(c, load):
    """a trace of processes 0..P-1 whose message events carry their attributes"""
    m = TraceModel(c, load, threads="maybe")
    P = c.fresh("P", I)
    c.assume(P >= 0)
    m.P = P
    pri = c.fresh_fn("rank_of", I, I)
    m.pr = lambda r: pri(r)
    m.f.cols[PR] = Col(lambda r: SNum(pri(r)), "int64")
    m.orig[PR] = m.f.cols[PR].fn
    fns = {}

    def get(k, r):
        if k not in fns:
            fns[k] = c.fresh_fn("attr_" + k, I, I)
        return SNum(fns[k](r))
    hasf = {}

    def has(k, r):
        if k not in hasf:
            hasf[k] = c.fresh_fn("has_" + k, I, B)
        return hasf[k](r)
    m.attr, m.attr_has = get, has
    m.f.cols["Attributes"] = Col(lambda r: SAttrs(has, get, r), "object")
    m.orig["Attributes"] = m.f.cols["Attributes"].fn
    m.sends = lambda r: z3.Or(*[m.nm(r) == code(x) for x in SENDS])
    m.recvs = lambda r: z3.Or(*[m.nm(r) == code(x) for x in RECVS])
    m.T.rows_universal(lambda r: [0 <= pri(r), pri(r) < P,
                                  z3.Implies(m.sends(r), z3.And(has("receiver", r), has("msg_length", r), get("receiver", r).e >= 0, get("receiver", r).e < P)),
                                  z3.Implies(m.recvs(r), z3.And(has("sender", r), has("msg_length", r)))])

    def distinct(s, series):      # each of the processes 0..P-1 has events
        if s.view.is_all and s.arity == 1:
            x = c.fresh("any", I)
            m.T.row(x)
            if c.x.check(c, z3.Implies(m.inrange(x), expr(s.fn(x)) == pri(x))):
                c.assume(s.n == P)
    c.env["distinct"] = distinct
    return m


class Messages(Invariant):
    """loop over the messages, adding each to its entry"""
    name = "messages"

    def match(self, st):
        q = ctx().env.get("comm")
        return {} if q is not None and self.runs_over(st, q["cnt"]) else None

    def matrices(self, st):
        return [(v, x) for v, x in sorted(st.L.items()) if isinstance(x, Matrix)]

    def enter(self, c, st, bind):
        c.env["comm"]["entered"] = True

    def clauses(self, c, st, bind):
        q = c.env["comm"]
        out = []
        for v, x in self.matrices(st):
            fn = x.fn
            out.append(("%s[s][r] is the sum over the messages visited" % v, [], lambda fn=fn: fn(q["s"], q["r"]) == q["sum"].ps(st.k), True))
        return out

    def iteration(self, c, st, bind):
        q = c.env["comm"]
        c.term(q["tag"], st.k)


class CommMatrix(Contract):
    name = "Trace.comm_matrix"
    functions = ["pipit.trace.Trace.comm_matrix"]
    invariants = [Messages]
    trusted = PANDAS + ["numpy: zeros is a zero matrix of the given shape; element access and assignment"]

    def stubs(self):
        return {"pandas": pandas_mod(DataFrame=pd_DataFrame), "numpy": numpy_mod()}

    def run(self, c, load):
        m = message_trace(c, load)
        s, r = c.fresh("s", I), c.fresh("r", I)
        c.assume(z3.And(0 <= s, s < m.P, 0 <= r, r < m.P))
        how = c.choose(3, "output")
        out = ["size", "count", None][how]
        vol = (lambda x: z3.RealVal(1)) if out == "count" else (lambda x: z3.ToReal(m.attr("msg_length", x).e))
        hit = lambda x: z3.And(m.pr(x) == s, m.attr("receiver", x).e == r)
        view = m.T.all.filter(m.sends)
        cnt, at, pos, tag = view.enum()
        ps = ViewSum(view, lambda x: z3.If(hit(x), vol(x), z3.RealVal(0)))
        c.env["comm"] = dict(m=m, cnt=cnt, s=s, r=r, sum=ps, tag=tag)
        g, _ = guarded(c, "comm_matrix", (lambda: m.trace.comm_matrix()) if out is None else (lambda: m.trace.comm_matrix(out)))
        if not isinstance(g, Matrix):
            raise Unsupported("result of type %s" % type(g).__name__)
        c.prove("the matrix is P x P", z3.And(g.shape_[0] == m.P, g.shape_[1] == m.P))
        c.prove("entry [s][r] is the total of the sends from s to r", g.fn(s, r) == SUM(m.T, lambda x: z3.If(z3.And(m.sends(x), hit(x)), vol(x), z3.RealVal(0))))
        m.frame_condition("comm_matrix")


class CommByProcess(Contract):
    name = "Trace.comm_by_process"
    functions = ["pipit.trace.Trace.comm_by_process"]
    trusted = PANDAS + ["comm_matrix: its contract (above)", "numpy: sum over an axis"]

    def stubs(self):
        return {"pandas": pandas_mod(DataFrame=pd_DataFrame), "numpy": numpy_mod()}

    def run(self, c, load):
        m = message_trace(c, load)
        mf = {o: c.fresh_fn("matrix_" + o, I, I, R) for o in ("size", "count")}

        def stub(output="size"):
            if not isinstance(output, str) or output not in mf:
                raise Unsupported("comm_matrix(%r)" % (output,))
            return Matrix((m.P, m.P), lambda i, j: mf[output](i, j))
        m.trace.__dict__["comm_matrix"] = stub
        how = c.choose(3, "output")
        out = ["size", "count", None][how]
        M = mf[out or "size"]
        g, _ = guarded(c, "comm_by_process", (lambda: m.trace.comm_by_process()) if out is None else (lambda: m.trace.comm_by_process(out)))
        if not isinstance(g, SFrame):
            raise Unsupported("result of type %s" % type(g).__name__)
        c.prove("the columns are Sent and Received", set(g.cols) == {"Sent", "Received"} and not g.maybe)
        t = g.view.table
        c.prove("one row per process", z3.And(z3.BoolVal(g.view.is_all), t.n == m.P))
        p = t.skolem("p")
        dom = ("range",)
        c.prove("Sent is the total of the process's row", real(g.cols["Sent"].fn(p)) == SUM(dom, lambda j: z3.If(z3.And(0 <= j, j < m.P), M(p, j), z3.RealVal(0))))
        c.prove("Received is the total of the process's column", real(g.cols["Received"].fn(p)) == SUM(dom, lambda i: z3.If(z3.And(0 <= i, i < m.P), M(i, p), z3.RealVal(0))))
        m.frame_condition("comm_by_process")


def contracts():
    return [CommMatrix(), CommByProcess()]


ASSUMPTIONS = NUMERIC + ["every process 0..P-1 has at least one event and receivers are in 0..P-1; send events carry the attributes receiver and msg_length (the precondition of the property)"]
