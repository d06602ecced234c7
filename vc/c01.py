"""C01: _match_events pairs every Leave with the latest still unpaired Enter of the same name on the same location.

Specification (on the columns the function adds, for arbitrary rows r, l, e):
  S1(r)   a row with a match: the match is a row of the same location and name, itself matched with r, and of the pair the
          earlier one is an Enter and the later one a Leave
  S2(l,e) a Leave l and an earlier Enter e of the same location and name such that l is unmatched or matched with a row
          before e: e is matched with a row before l   (so no later still unpaired Enter was available to l)
  T2(r)   the matching timestamp is present exactly when the match is, and is the timestamp of the matching row
S1 and S2 determine the pairing uniquely (lemma Unique: induction over the Leave rows in row order)."""
import z3
from contract import *
from tables import *
from tracebase import *


def is_matching_list(x):
    return isinstance(x, SList)


def locof(m, r):
    return [m.pr(r), m.th(r)] if m.has_thread else [m.pr(r)]


def column(x):
    """row -> cell of a list with one cell per row, as SMaybe"""
    def f(r):
        v = x._at(r)
        if isinstance(v, SMaybe):
            return v
        if v is None or isnan(v):
            return SMaybe(True, SNum(z3.IntVal(0)))
        return SMaybe(False, v)
    return f


def numeric(x):
    k = x.ekind or kind_of(x._at(z3.IntVal(0)))
    return k[0] == "maybe" and k[1][0] in ("int", "real", "undef") or k[0] == "none"


def result_lists(st, n):
    return [(v, x) for v, x in maybe_lists(st.L, n) if numeric(x)]


def roles(x):
    """can this list hold row numbers / times?"""
    k = x.ekind or kind_of(x._at(z3.IntVal(0)))
    t = k[1][0] if k[0] == "maybe" else "undef"
    return t in ("int", "undef"), t in ("real", "undef")


def spec_clauses(c, m, lists, done, tag="", e0=None):
    """S1 S2 T2 as candidate clauses over every list / pair of lists that may play the role"""
    out = []
    for v, x in lists:
        isrow, istime = roles(x)
        X = column(x)
        if isrow:
            S1, S2, T2, rowof = m.match_parts(X, X)
            out.append(("S1[%s]" % v, [m.T.tag], lambda r, S1=S1: z3.Implies(m.inrange(r), S1(r)), True))
            out.append(("S2[%s]" % v, [m.T.tag], lambda l, S2=S2: z3.Implies(z3.And(m.inrange(l), done(l)), S2(l, e0)), True))
        for w, y in lists:
            if w == v or not roles(y)[1] or not isrow:
                continue
            S1, S2, T2, rowof = m.match_parts(X, column(y))
            out.append(("T2[%s,%s]" % (v, w), [m.T.tag], lambda r, T2=T2: z3.Implies(m.inrange(r), T2(r)), True))
    return out


class OuterInv(Invariant):
    """loop over the locations"""
    name = "locations"

    def match(self, st):
        m = ctx().env.get("model")
        if m is None or not isinstance(st.seq, SSet) or st.seq.view.table is not m.T:
            return None
        return {"set": st.seq}

    def rank(self, m, st, bind, r):
        s = bind["set"]
        return s.rank(*s.tup(r))

    def clauses(self, c, st, bind):
        m = c.env["model"]
        lists = result_lists(st, m.T.n)
        out = []
        for v, x in lists:
            X = column(x)
            out.append(("rows of the locations to come are unmatched in %s" % v, [m.T.tag],
                        lambda r, X=X: z3.Implies(z3.And(m.inrange(r), self.rank(m, st, bind, r) >= st.k), X(r).null), True))
        out += spec_clauses(c, m, lists, lambda l: self.rank(m, st, bind, l) < st.k, e0=c.env["e0"])
        return out

    def iteration(self, c, st, bind):
        c.term(bind["set"].tag, st.k)


def view_loop(st):
    """is this a loop over the rows of a view of the trace's table, in order?"""
    m = ctx().env.get("model")
    if m is None or st.seq is None:
        return None
    s = st.seq
    if isinstance(s, SSet):
        return None
    v = view_of_count(st.n)
    if v is None or v.table is not m.T or v.is_all:
        return None
    return v


class InnerInv(Invariant):
    """loop over the Enter/Leave rows of one location"""
    name = "events"

    def match(self, st):
        v = view_loop(st)
        return None if v is None else {"view": v}

    def enter(self, c, st, bind):
        m = c.env["model"]
        st.extra["entry"] = {v: column_snapshot(x) for v, x in result_lists(st, m.T.n)}

    def stacks(self, c, st, bind):
        m = c.env["model"]
        out = []
        for v, x in sorted(st.L.items()):
            if isinstance(x, SList) and x.ghosts and not x.meta.get("view"):
                if not x.concrete and z3.is_true(z3.simplify(x.n == m.T.n)):
                    continue
                if x.concrete and x.items and row_part(x.items[0]) is None:
                    continue
                if not x.concrete and x.ekind is not None and row_of_kind(x.ekind) is None:
                    continue
                out.append((v, x))
        return out

    def clauses(self, c, st, bind):
        m, V, e0 = c.env["model"], bind["view"], c.env["e0"]
        cnt, at, pos, tag = V.enum()
        k = st.k
        lists = result_lists(st, m.T.n)
        done = lambda r: z3.And(V.member(r), pos(r) < k)
        out = []
        for v, x in lists:
            X = column(x)
            X0 = st.extra["entry"].get(v)
            if X0 is not None:
                out.append(("rows of other locations keep their value in %s" % v, [m.T.tag],
                            lambda r, X=X, X0=X0: z3.Implies(z3.And(m.inrange(r), z3.Not(V.member(r))), same_cell(X(r), X0(r))), True))
            out.append(("rows to come are unmatched in %s" % v, [m.T.tag], lambda r, X=X: z3.Implies(z3.And(V.member(r), pos(r) >= k), X(r).null), True))
        out += spec_clauses(c, m, lists, done, e0=e0)
        for s, S in self.stacks(c, st, bind):
            n = S.length()

            def row(j, S=S):
                return row_part(S.at(j))

            def ok(j, S=S, row=row, n=n):
                if S.concrete and not S.items:
                    return z3.BoolVal(True)
                r = row(j)
                m.T.row(r)
                g = [V.member(r), pos(r) < k, m.enter(r), z3.BoolVal(True)]
                v = S.at(j)
                if isinstance(v, tuple):
                    for q in v:
                        if isinstance(q, SNum) and not q.isint:
                            g.append(q.e == m.ts(r))
                        elif isinstance(q, SName):
                            g.append(q.e == m.nm(r))
                return z3.Implies(z3.And(0 <= j, j < n), z3.And(*g))
            out.append(("entries of %s are Enter rows met so far, with their time and name" % s, [S.tag], ok, True))
            for v, x in lists:
                if roles(x)[0]:
                    X = column(x)
                    out.append(("entries of %s are unmatched in %s" % (s, v), [S.tag],
                                lambda j, X=X, S=S, row=row, n=n: z3.BoolVal(True) if S.concrete and not S.items else z3.Implies(z3.And(0 <= j, j < n), X(row(j)).null), True))
                    g = next((g for g in S.ghosts if isinstance(g, PosGhost) and g.what is e0), None)
                    if g is not None:
                        out.append(("an unmatched Enter row met so far is in %s [%s]" % (s, v), [], lambda X=X, g=g, row=row, S=S, n=n: z3.Implies(
                            z3.And(done(e0), m.enter(e0), X(e0).null), z3.And(0 <= g.pos, g.pos < n, *([] if S.concrete and not S.items else [row(g.pos) == e0]))), True))
            out.append(("%s is in row order" % s, [S.tag, S.tag],
                        lambda i, j, S=S, row=row, n=n: z3.BoolVal(True) if S.concrete and not S.items else z3.Implies(z3.And(0 <= i, i < j, j < n), row(i) < row(j)), True))
        return out

    def iteration(self, c, st, bind):
        m, V = c.env["model"], bind["view"]
        cnt, at, pos, tag = V.enum()
        c.term(tag, st.k)
        c.env["cur_row"] = at(st.k)
        m.T.row(at(st.k))
        for s, S in self.stacks(c, st, bind):
            for g in S.ghosts:
                if isinstance(g, PosGhost):
                    c.term(S.tag, g.pos)

    backedge = lambda self, c, st, bind: None


def row_of_kind(k):
    if k[0] == "int":
        return 0
    if k[0] == "tuple":
        for i, q in enumerate(k[1:]):
            if q[0] == "int":
                return i
    return None


def same_cell(a, b):
    if expr(a.val).sort() != expr(b.val).sort():
        return z3.And(a.null == b.null, z3.Or(a.null, real(a.val) == real(b.val)))
    return z3.And(a.null == b.null, z3.Or(a.null, expr(a.val) == expr(b.val)))


def column_snapshot(x):
    at, k = x._at, x.ekind

    class S:
        _at = staticmethod(at)
    return column(S)


class SearchInv(Invariant):
    """search of the stack for the Enter of the same name, from the top"""
    name = "search"

    def match(self, st):
        e = ctx().env
        if e.get("model") is None or "cur_row" not in e or st.seq is not None and view_loop(st) is not None or isinstance(st.seq, SSet):
            return None
        return {}

    def clauses(self, c, st, bind):
        m, cur = c.env["model"], c.env["cur_row"]
        out = []
        for s, S in InnerInv().stacks(c, st, bind):
            n = S.length()
            comp = lambda j, S=S: S.at(j) if isinstance(S.at(j), tuple) else (S.at(j),)
            if st.seq is not None:       # for loop over the positions, downwards
                k, seq = st.k, st.seq
                if isinstance(seq, SRange) and seq.step == -1:
                    out.append(("positions of %s visited have other names" % s, [S.tag],
                                lambda j, S=S, n=n: z3.Implies(z3.And(0 <= j, j < n, j > seq.lo - k), m.nm(row_part(S.at(j))) != m.nm(cur)), True))
                continue
            for i in st.names:
                vi = st.L.get(i)
                if not (isinstance(vi, int) and not isinstance(vi, bool) or isinstance(vi, SNum) and vi.isint):
                    continue
                ie = expr(vi)
                out.append(("%s is a position of %s or -1" % (i, s), [], lambda ie=ie, n=n: z3.And(-1 <= ie, ie <= n - 1), True))
                c.term(S.tag, z3.simplify(ie + 1))
                c.term(S.tag, ie)
                if S.concrete and not S.items:
                    continue
                out.append(("positions of %s above %s+1 have other names" % (s, i), [S.tag],
                            lambda j, ie=ie, S=S, n=n: z3.Implies(z3.And(0 <= j, j < n, j > ie + 1), m.nm(row_part(S.at(j))) != m.nm(cur)), True))
                out.append(("positions of %s above %s have other names" % (s, i), [S.tag],
                            lambda j, ie=ie, S=S, n=n: z3.Implies(z3.And(0 <= j, j < n, j > ie), m.nm(row_part(S.at(j))) != m.nm(cur)), True))
                e = ie + 1
                for v in st.names:
                    if v == i:
                        continue
                    x = st.L.get(v, UNBOUND_)
                    for q in range(len(comp(z3.IntVal(0)))):
                        def eqc(x=x, q=q, e=e, comp=comp, n=n, ie=ie):
                            y = comp(e)[q]
                            if x is UNBOUND_ or isinstance(x, instrument._Unbound) or x is None:
                                return ie + 1 >= n          # not assigned yet: nothing was looked at
                            if kind_of(x)[0] not in SORTS or kind_of(y)[0] not in SORTS or isinstance(x, (SName, str)) != isinstance(y, (SName, str)) or expr(x).sort() != expr(y).sort():
                                return z3.BoolVal(False)
                            return z3.And(ie + 1 < n, expr(x) == expr(y))
                        out.append(("%s is component %d of %s[%s+1]" % (v, q, s, i), [], eqc, True))
                        out.append(("%s is component %d of %s[%s+1] once one was looked at" % (v, q, s, i), [], lambda f=eqc, ie=ie, n=n: z3.Or(ie + 1 >= n, f()), True))
        return out

    def variant(self, c, st, bind):
        for i in st.names:
            vi = st.L.get(i)
            if isinstance(vi, SNum) and vi.isint and i not in ():
                pass
        ints = [st.L[i] for i in st.names if isinstance(st.L.get(i), SNum) and st.L[i].isint and not any(
            (k, nm) for k, nm in c.x.dropped if nm.startswith("%s is a position" % i))]
        return (expr(ints[0]) + 1) if ints else None


UNBOUND_ = instrument.UNBOUND


class MatchEvents(Contract):
    name = "Trace._match_events"
    functions = ["pipit.trace.Trace._match_events"]
    invariants = [OuterInv, InnerInv, SearchInv]
    trusted = PANDAS
    max_paths = 2000

    def stubs(self):
        return {"pandas": pandas_mod(), "numpy": numpy_mod()}

    def run(self, c, load):
        m = TraceModel(c, load)
        c.env["model"] = m
        e0 = c.env["e0"] = m.T.skolem("e0")
        c.env["list_ghosts"] = [lambda l: PosGhost(l, e0)]
        guarded(c, "_match_events", lambda: m.trace._match_events())
        f = m.trace.events
        for n in ("_matching_event", "_matching_timestamp"):
            if n not in f.cols:
                c.prove("column %s is added" % n, False)
        X, Y = f.colfn("_matching_event"), f.colfn("_matching_timestamp")
        mk = lambda g: (lambda r: g(r) if isinstance(g(r), SMaybe) else SMaybe(True, SNum(z3.IntVal(0))) if g(r) is None or isnan(g(r)) else SMaybe(False, g(r)))
        S1, S2, T2, rowof = m.match_parts(mk(X), mk(Y))
        r, l = m.T.skolem("r"), m.T.skolem("l")
        c.prove("S1: pairing is symmetric, within a location and name, Enter before Leave", S1(r))
        c.prove("S2: a Leave takes the latest unpaired Enter", S2(l, e0))
        c.prove("T2: matching timestamps are those of the partners", T2(r))
        m.frame_condition("_match_events")


class Unique(Contract):
    """lemma: two pairings that satisfy S1 and S2 are equal.  Induction over the Leave rows in row order: agreeing on all Leave
    rows before l, they agree on l; the partners of the Enter rows follow by S1."""
    name = "lemma: S1 and S2 determine the pairing"
    functions = []

    def run(self, c, load):
        m = TraceModel(c, load)
        T = m.T
        A, B = [(c.fresh_fn(n + "_null", I, B_), c.fresh_fn(n, I, I)) for n in ("A", "B")]
        PA, PB = [m.match_parts(X, X) for X in ((lambda r: SMaybe(A[0](r), SNum(A[1](r)))), (lambda r: SMaybe(B[0](r), SNum(B[1](r)))))]
        l = T.skolem("l")
        for P, F in ((PA, A), (PB, B)):
            T.rows_universal(lambda r, P=P: [P[0](r)])
            c.universal([T.tag, T.tag], lambda x, e, P=P: z3.Implies(z3.And(m.inrange(x), m.inrange(e)), P[1](x, e)))
            T.row(F[1](l))
        agree = lambda r: z3.And(A[0](r) == B[0](r), z3.Implies(z3.Not(A[0](r)), A[1](r) == B[1](r)))
        if c.choose(2, "which row") == 0:
            c.assume(m.leave(l))
            c.universal([T.tag], lambda r: z3.Implies(z3.And(m.inrange(r), r < l, m.leave(r)), agree(r)))
            c.prove("a Leave row has the same partner in both if all earlier ones do", agree(l))
        else:
            c.assume(z3.Not(m.leave(l)))
            c.universal([T.tag], lambda r: z3.Implies(z3.And(m.inrange(r), m.leave(r)), agree(r)))
            c.prove("so every other row has", agree(l))


B_ = engine.B


def contracts():
    return [MatchEvents(), Unique()]


ASSUMPTIONS = NUMERIC + ["the process and thread columns have no missing values; an Int32 column holds every row number (traces below 2^31 rows)",
                         "the two induction steps of the lemma 'S1 and S2 determine the pairing' are checked; that they make an induction over row numbers is the meta-argument"]
