"""C02: _match_caller_callee.  For a trace whose matched calls are properly nested on each location:
  open(a, e)   a is a matched Enter row before e on e's location whose Leave comes after e
  parent       the parent of a matched Enter row e is open at e and every row open at e is at or before it; no parent: none is open
  depth        0 without a parent, else the parent's depth + 1 (lemma Depth: that is the number of open calls)
  children     the list of p holds exactly the rows whose parent is p, in increasing order; there is no list if there are none
  and rows that are not matched Enter rows have no depth, parent or children."""
import z3
from contract import *
from tables import *
from tracebase import *
from c01 import OuterInv as LocationsInv, column, view_loop, same_cell, column_snapshot


def cell_view(x):
    """(is None?, length, element) of a list whose elements are lists or None"""
    if x.cells is not None:
        return x.cells
    return engine.Cells(lambda q: z3.BoolVal(True), lambda q: z3.IntVal(0), lambda q, i: SNum(z3.IntVal(0)), None)


def celem(C):
    return (lambda q, i: expr(C.elem(q, i))) if C.elem is not None else (lambda q, i: z3.IntVal(0))


def number_lists(L, n):
    return [(v, x) for v, x in maybe_lists(L, n) if x.cells is None and
            (x.ekind[0] == "none" or x.ekind[0] == "maybe" and x.ekind[1][0] in ("int", "undef"))]


def cell_lists(L, n):
    out = []
    for v, x in sorted(L.items()):
        if isinstance(x, SList) and not x.concrete and z3.is_true(z3.simplify(x.n == z3.If(n > 0, n, 0))):
            if x.cells is not None and (x.cells.kind is None or x.cells.kind[0] == "int") or x.cells is None and x.ekind is not None and x.ekind[0] == "none":
                out.append((v, x))
    return out


class Nest:
    """the specification over a trace model with matching"""

    def __init__(self, m):
        self.m = m

    def ME(self, r):
        m = self.m
        return z3.And(m.inrange(r), m.enter(r), z3.Not(m.match_null(r)))

    def open(self, a, e):
        m = self.m
        m.T.row(m.match(a))
        return z3.And(self.ME(a), a < e, m.sameloc(a, e), m.match(a) > e)

    def nested(self, a, b):
        """precondition of the property, at two rows"""
        m = self.m
        return z3.Implies(z3.And(self.ME(a), self.ME(b), a < b, m.sameloc(a, b)), z3.Or(m.match(a) < b, m.match(b) < m.match(a)))

    def assume_nested(self):
        m = self.m
        ctx().universal([m.T.tag, m.T.tag], self.nested)

    # clauses about the result
    def absent(self, X, r):
        return z3.Implies(z3.And(self.m.inrange(r), z3.Not(self.ME(r))), X(r).null)

    def depth(self, D, P, r):
        p = rowno(P(r))
        self.m.T.row(p)
        return z3.Implies(self.ME(r), z3.And(z3.Not(D(r).null), z3.Implies(P(r).null, rowno(D(r)) == 0), z3.Implies(z3.Not(P(r).null), z3.And(z3.Not(D(p).null), rowno(D(r)) == rowno(D(p)) + 1))))

    def parent_open(self, P, r):
        p = rowno(P(r))
        self.m.T.row(p)
        return z3.Implies(z3.And(self.m.inrange(r), z3.Not(P(r).null)), z3.And(self.ME(r), self.open(p, r)))

    def innermost(self, P, a, r):
        return z3.Implies(z3.And(self.ME(r), self.open(a, r)), z3.And(z3.Not(P(r).null), a <= rowno(P(r))))

    def child(self, C, P, q, i):
        ch = celem(C)(q, i)
        self.m.T.row(ch)
        return z3.Implies(z3.And(self.m.inrange(q), z3.Not(C.null(q))), z3.And(C.len(q) >= 1, z3.Implies(z3.And(0 <= i, i < C.len(q)), z3.And(self.ME(ch), z3.Not(P(ch).null), rowno(P(ch)) == q))))

    def ordered(self, C, q, i, j):
        return z3.Implies(z3.And(self.m.inrange(q), z3.Not(C.null(q)), 0 <= i, i < j, j < C.len(q)), celem(C)(q, i) < celem(C)(q, j))

    def listed(self, C, P, pos, r):
        p = rowno(P(r))
        self.m.T.row(p)
        return z3.Implies(z3.And(self.m.inrange(r), z3.Not(P(r).null)), z3.And(z3.Not(C.null(p)), 0 <= pos(r), pos(r) < C.len(p), celem(C)(p, pos(r)) == r))


def rowno(x):
    e = expr(x.val)
    return z3.ToInt(e) if e.sort() == R else e


def result_clauses(c, S, L, done):
    """the specification for the rows done, at the arbitrary rows r0, a0, q0 and list positions i0, j0 of the contract, over every
    list that may play a role; candidates"""
    m = S.m
    t = m.T.tag
    r0, a0, q0, i0, j0 = (c.env[k] for k in ("r0", "a0", "q0", "i0", "j0"))
    out = []
    nums, cells = number_lists(L, m.T.n), cell_lists(L, m.T.n)
    real = lambda x: not (x.ekind[0] == "none" or x.ekind[1][0] == "undef")
    for v, x in nums:
        X = column(x)
        out.append(("%s is missing but on matched Enter rows done" % v, [t], lambda r, X=X: z3.Implies(z3.And(m.inrange(r), z3.Not(z3.And(S.ME(r), done(r)))), X(r).null), True))
        out.append(("%s of a row is open there" % v, [], lambda X=X: [S.parent_open(X, r0), z3.Implies(z3.Not(X(r0).null), done(rowno(X(r0))))], True))
        out.append(("%s is the innermost open row" % v, [], lambda X=X: z3.Implies(done(r0), S.innermost(X, a0, r0)), True))
        for w, y in nums:
            if w != v:
                out.append(("%s is one more than at the row %s" % (w, v), [], lambda X=X, Y=column(y): z3.Implies(done(r0), S.depth(Y, X, r0)), True))
        for w, y in cells:
            C = cell_view(y)
            g = y.cghosts[0]

            def child(C=C, X=X):
                ch = celem(C)(q0, i0)
                m.T.row(ch)
                return [S.child(C, X, q0, i0), z3.Implies(z3.And(z3.Not(C.null(q0)), 0 <= i0, i0 < C.len(q0)), z3.And(done(ch), S.open(q0, ch)))]
            out.append(("elements of %s have their list's row as %s" % (w, v), [], child, True))
            out.append(("a row is in %s of its %s" % (w, v), [], lambda C=C, X=X, g=g: S.listed(C, X, g.pos, r0), True))
    for w, y in cells:
        C = cell_view(y)
        out.append(("lists of %s are in row order" % w, [], lambda C=C: S.ordered(C, q0, i0, j0), True))
        out.append(("lists of %s belong to matched Enter rows done" % w, [], lambda C=C: z3.Implies(z3.Not(C.null(q0)), z3.And(S.ME(q0), done(q0))), True))
    return out


class Outer(LocationsInv):
    name = "locations"

    def clauses(self, c, st, bind):
        m, S = c.env["model"], c.env["nest"]
        return result_clauses(c, S, st.L, lambda r: z3.And(m.inrange(r), self.rank(m, st, bind, r) < st.k))


class Inner(Invariant):
    name = "events"

    def match(self, st):
        v = view_loop(st)
        return None if v is None else {"view": v}

    def stacks(self, c, st):
        m = c.env["model"]
        return [(v, x) for v, x in sorted(st.L.items()) if isinstance(x, SList) and x.cells is None and not x.meta.get("view") and
                (x.concrete and all(engine.row_part(i) is not None for i in x.items) or not x.concrete and (x.ekind is None or x.ekind[0] == "int") and not z3.is_true(z3.simplify(x.n == m.T.n)))]

    def clauses(self, c, st, bind):
        m, V, S = c.env["model"], bind["view"], c.env["nest"]
        cnt, at, pos, tag = V.enum()
        k, t = st.k, m.T.tag
        rank = c.env["loc_rank"]
        done = lambda r: z3.Or(rank(r), z3.And(V.member(r), pos(r) < k))
        out = result_clauses(c, S, st.L, done)
        nums = number_lists(st.L, m.T.n)
        for s, Q in self.stacks(c, st):
            n = Q.length()
            empty = Q.concrete and not Q.items
            row = lambda j, Q=Q: engine.row_part(Q.at(j))

            def ok(j, row=row, n=n, empty=empty):
                if empty:
                    return z3.BoolVal(True)
                r = row(j)
                m.T.row(r)
                m.T.row(m.match(r))
                return z3.Implies(z3.And(0 <= j, j < n), z3.And(V.member(r), S.ME(r), pos(r) < k, pos(m.match(r)) >= k))
            out.append(("entries of %s are open" % s, [Q.tag], ok, True))
            out.append(("%s is in row order" % s, [Q.tag, Q.tag], lambda i, j, row=row, n=n, empty=empty: z3.BoolVal(True) if empty else z3.Implies(z3.And(0 <= i, i < j, j < n), row(i) < row(j)), True))
            g = Q.ghosts[0]

            def complete(a, g=g, Q=Q):
                c.term(Q.tag, g.pos(a))
                return z3.Implies(z3.And(V.member(a), S.ME(a), pos(a) < k, pos(m.match(a)) >= k), g.at(Q, a))
            out.append(("%s holds every open row" % s, [t], complete, True))
            for v, x in nums:
                if x.ekind[0] == "none" or x.ekind[1][0] == "undef":
                    if not empty:
                        continue
                X = column(x)
                out.append(("%s of an entry of %s is its position" % (v, s), [Q.tag], lambda j, X=X, row=row, n=n, empty=empty: z3.BoolVal(True) if empty else
                            z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Not(X(row(j)).null), rowno(X(row(j))) == j)), True))
            for v in st.names:
                x = st.L.get(v)
                if isinstance(x, int) and not isinstance(x, bool) or isinstance(x, SNum) and x.isint:
                    out.append(("%s is the length of %s" % (v, s), [], lambda x=x, n=n: expr(x) == n, True))
        return out

    def iteration(self, c, st, bind):
        m, V, S = c.env["model"], bind["view"], c.env["nest"]
        cnt, at, pos, tag = V.enum()
        c.term(tag, st.k)
        r = at(st.k)
        m.T.row(r)
        m.T.row(m.match(r))
        for s, Q in self.stacks(c, st):
            n = Q.length()
            c.term(Q.tag, n)
            if not (Q.concrete and not Q.items):
                c.term(Q.tag, n - 1)
                c.term(Q.tag, Q.ghosts[0].pos(m.match(r)))
                top = engine.row_part(Q.at(n - 1))
                m.T.row(top)
                for a in (m.match(r), c.env["a0"]):
                    c.assume(S.nested(a, top))
                    c.assume(S.nested(top, a))


class OuterD(Outer):
    def iteration(self, c, st, bind):
        Outer.iteration(self, c, st, bind)
        m = c.env["model"]
        k = st.k
        c.env["loc_rank"] = lambda r: z3.And(m.inrange(r), self.rank(m, st, bind, r) < k)


class CallerCallee(Contract):
    name = "Trace._match_caller_callee"
    functions = ["pipit.trace.Trace._match_caller_callee"]
    invariants = [OuterD, Inner]
    trusted = PANDAS + ["_match_events: its contract, proved for C01"]

    def stubs(self):
        return {"pandas": pandas_mod(), "numpy": numpy_mod()}

    def run(self, c, load):
        m = TraceModel(c, load)
        c.env["model"] = m
        m.use_match_events()
        S = c.env["nest"] = Nest(m)
        c.env["list_ghosts"] = [engine.MapGhost]
        c.env["cell_ghosts"] = [engine.CellGhost]
        for k in ("r0", "a0", "q0"):
            c.env[k] = m.T.skolem(k)
        c.env["i0"], c.env["j0"] = c.fresh("i0", I), c.fresh("j0", I)
        guarded(c, "_match_caller_callee", lambda: m.trace._match_caller_callee())
        f = m.trace.events
        for n in ("_depth", "_parent", "_children"):
            if n not in f.cols:
                c.prove("column %s is added" % n, False)
        mk = lambda g: (lambda r: g(r) if isinstance(g(r), SMaybe) else SMaybe(True, SNum(z3.IntVal(0))) if g(r) is None or isnan(g(r)) else SMaybe(False, g(r)))
        D, P = mk(f.colfn("_depth")), mk(f.colfn("_parent"))
        cf = f.colfn("_children")
        r, a, q = c.env["r0"], c.env["a0"], c.env["q0"]
        c.prove("depth: missing off matched Enter rows", S.absent(D, r))
        c.prove("parent: missing off matched Enter rows", S.absent(P, r))
        c.prove("parent: is open at the row", S.parent_open(P, r))
        c.prove("parent: every open row is at or before it, and without a parent none is open", S.innermost(P, a, r))
        c.prove("depth: 0 without a parent, else one more than the parent's", S.depth(D, P, r))
        x = cf(q)
        if x is None:
            C, pos = cell_view(SList(None, m.T.n, lambda j: None, ("none",))), (lambda r: z3.IntVal(0))
        elif isinstance(x, engine.CellRef):
            C, pos = x.cells, x.l.cghosts[0].pos
            i, j = c.env["i0"], c.env["j0"]
        else:
            raise Unsupported("children are not lists")
        i, j = (i, j) if x is not None else (z3.IntVal(0), z3.IntVal(0))
        c.prove("children: a list holds rows whose parent is its row, and is not empty", S.child(C, P, q, i))
        c.prove("children: in order of entry, each once", S.ordered(C, q, i, j))
        c.prove("children: every row with a parent is in its list", S.listed(C, P, pos, r))
        c.prove("children: missing off matched Enter rows", z3.Implies(z3.Not(S.ME(q)), C.null(q)))
        m.frame_condition("_match_caller_callee")


class Depth(Contract):
    """lemma: the rows open at e are its parent and the rows open at its parent; so depth counts them (induction over rows)"""
    name = "lemma: depth is the number of open calls"
    functions = []

    def run(self, c, load):
        m = TraceModel(c, load)
        m.with_matching()
        S = Nest(m)
        S.assume_nested()
        pn, pf = c.fresh_fn("parent_null", I, engine.B), c.fresh_fn("parent", I, I)
        P = lambda r: SMaybe(pn(r), SNum(pf(r)))
        m.T.rows_universal(lambda r: [S.parent_open(P, r)])
        c.universal([m.T.tag, m.T.tag], lambda a, r: S.innermost(P, a, r))
        e, a = m.T.skolem("e"), m.T.skolem("a")
        p = pf(e)
        m.T.row(p)
        c.prove("without a parent no row is open", z3.Implies(z3.And(S.ME(e), pn(e)), z3.Not(S.open(a, e))))
        c.prove("the open rows are the parent and the rows open there", z3.Implies(z3.And(S.ME(e), z3.Not(pn(e))), z3.And(S.open(a, e) == z3.Or(a == p, S.open(a, p)), z3.Not(S.open(p, p)))))


class Again(Contract):
    """a second call changes nothing"""
    name = "Trace._match_caller_callee (computed before)"
    functions = ["pipit.trace.Trace._match_caller_callee"]

    def stubs(self):
        return {"pandas": pandas_mod(), "numpy": numpy_mod()}

    def run(self, c, load):
        m = TraceModel(c, load)
        for n in ("_matching_event", "_matching_timestamp", "_depth", "_parent", "_children"):
            f = c.fresh_fn(n, I, I)
            m.f.cols[n] = Col(lambda r, f=f: SNum(f(r)))
            m.orig[n] = m.f.cols[n].fn
        before = m.trace.events
        guarded(c, "_match_caller_callee", lambda: m.trace._match_caller_callee())
        c.prove("no column is added", z3.BoolVal(set(m.trace.events.cols) == set(before.cols)))
        m.frame_condition("second call")


def contracts():
    return [CallerCallee(), Depth(), Again()]


ASSUMPTIONS = NUMERIC + ["the matched calls are properly nested on each location (precondition of the property)",
                         "lemma Depth is checked; that it makes an induction over row numbers is the meta-argument"]
