"""C05: create_cct.  Call paths are terms of a free algebra: none, and ext(path, name); par, last, len and prefix are its selectors.

Specification of what is open, by recursion along the Enter/Leave rows of a location (in row order): open(r), the path of the
calls open before row r, is empty at the first row of the location, and otherwise what the row before leaves open: an Enter row q
leaves ext(open(q), name(q)), a Leave row the path without its last function, or nothing if nothing was open.  Proper nesting: a
Leave row with calls open has the name of the innermost of them.  The call path of an Enter row r: P(r) = ext(open(r), name(r)).

The tree (objects of the real class Node on a symbolic heap, of unbounded size) is characterised by the map from paths to nodes."""
import z3
from contract import *
from tables import *
from tracebase import *
import engine, instrument
from heap import NodeHeap, ChildList
import c01


class Paths:
    """the algebra of call paths"""

    def __init__(self, c):
        self.c = c
        self.ext_, self.par, self.last, self.len, self.pre = (c.fresh_fn("ext", I, I, I), c.fresh_fn("path_par", I, I), c.fresh_fn("path_last", I, I),
                                                             c.fresh_fn("path_len", I, I), c.fresh_fn("path_prefix", I, I, I))
        self.nil = z3.IntVal(0)

        def ax(p):
            return [self.len(p) >= 0, (self.len(p) == 0) == (p == self.nil),
                    z3.Implies(p != self.nil, z3.And(self.ext_(self.par(p), self.last(p)) == p, self.len(self.par(p)) == self.len(p) - 1)),
                    self.pre(p, self.len(p)) == p]

        def prefix(p, m):
            q = self.pre(p, m)
            return z3.Implies(z3.And(0 <= m, m <= self.len(p)), z3.And(self.len(q) == m, z3.Implies(m < self.len(p), q == self.pre(self.par(p), m)),
                                                                        z3.Implies(m > 0, z3.And(self.par(q) == self.pre(p, m - 1), self.ext_(self.par(q), self.last(q)) == q))))
        c.universal(["path"], ax)
        c.universal(["path", "plen"], prefix)
        c.term("path", self.nil)

    def ext(self, p, n):
        q = self.ext_(p, n)
        self.c.assume(z3.And(self.par(q) == p, self.last(q) == n, self.len(q) == self.len(p) + 1, q != self.nil), True)
        self.c.term("path", p)
        self.c.term("path", q)
        return q

    def term(self, p):
        return self.c.term("path", p)


class SPath:
    """a tuple of names of any length (what tuple() of the stack of functions is), by its term"""

    def __init__(self, e):
        self.e = e
        ctx().term("path", e)

    def vc_kind(self): return ("path",)
    def vc_same(self, o): return path_expr(o) == self.e if path_expr(o) is not None else z3.BoolVal(False)
    def vc_len(self): return SNum(ctx().env["paths"].len(self.e))
    def __eq__(self, o): return SBool(self.vc_same(o))
    def __ne__(self, o): return SBool(z3.Not(self.vc_same(o)))
    __hash__ = None

    def vc_ite(self, cond, o):
        e = path_expr(o)
        return NotImplemented if e is None else SPath(z3.If(cond, self.e, e))

    def __add__(self, o):
        if not isinstance(o, tuple):
            raise Unsupported("concatenation of a call path")
        e = self.e
        for x in o:
            if not isinstance(x, (str, SName)):
                raise Unsupported("call path of other values than names")
            e = ctx().env["paths"].ext(e, expr(x))
        return SPath(e)

    def __radd__(self, o):
        if o == ():
            return self
        raise Unsupported("concatenation of call paths")

    def __getitem__(self, k):
        P = ctx().env["paths"]
        if isinstance(k, slice) and k.start is None and k.step is None and k.stop == -1:
            return SPath(z3.If(self.e == P.nil, self.e, P.par(self.e)))
        if k == -1:
            ctx().prove("no IndexError", self.e != P.nil)
            return SName(P.last(self.e))
        raise Unsupported("item of a call path")

    def __bool__(self):
        return ctx().branch(self.e != ctx().env["paths"].nil)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation %s of a call path" % a)


def path_expr(v):
    if isinstance(v, SPath):
        return v.e
    if isinstance(v, tuple) and all(isinstance(x, (str, SName)) for x in v):
        P = ctx().env["paths"]
        e = P.nil
        for x in v:
            e = P.ext(e, expr(x))
        return e
    return None


engine.KIND_MAKERS["path"] = lambda kind, name: SPath(ctx().fresh(name, I))


class PathFold:
    """ghost of a list of names: the path its contents are (None if they are not names)"""

    def __init__(self, l):
        P = ctx().env["paths"]
        self.P, self.pid = P, P.nil
        for i, v in enumerate(l.items or []):
            self.append(l, i, v)
        if l.items is None:
            self.pid = None

    def append(self, l, n, v):
        if self.pid is not None:
            self.pid = self.P.ext(self.pid, expr(v)) if isinstance(v, (str, SName)) else None

    def cut(self, l, e):
        c = ctx()
        if self.pid is None:
            return
        n = l.length()
        other = c.fresh("path", I)
        self.P.term(self.pid)
        self.pid = self.P.term(z3.simplify(z3.If(e == n - 1, self.P.par(self.pid), other)))

    def havoc(self, l):
        c, P = ctx(), self.P
        if l.ekind is None:
            self.pid = P.nil
            return
        if l.ekind[0] != "name":
            self.pid = None
            return
        p = self.pid = P.term(c.fresh("path", I))
        at = l._at
        c.assume(P.len(p) == l.n)
        c.term("plen", l.n)

        def el(j):
            c.term("plen", j + 1)
            return z3.Implies(z3.And(0 <= j, j < P.len(p)), expr(at(j)) == P.last(P.pre(p, j + 1)))
        c.universal([l.tag], el)
        c.term(l.tag, l.n - 1)

    def total(self, l):
        if self.pid is None:
            return tuple(l.items) if l.concrete else instrument.FrozenSeq(l.n, l._at)
        return SPath(self.pid)


class PathDict(SDict):
    """a dict; with call paths as keys and nodes as values it is a map (has, ref) on paths.  Ghosts: for every node the path it was
    last stored at and the row being processed then; the number of entries"""

    def __init__(self, items=None):
        SDict.__init__(self, items)
        self.mode = None

    def empty(self):
        nil = z3.IntVal(0)
        self.has, self.ref, self.pathof, self.wit, self.count = (lambda p: z3.BoolVal(False)), (lambda p: nil), (lambda u: nil), (lambda u: nil), nil

    def node(self, r): return ctx().env["heap"].ref(r)

    def vc_contains(self, k):
        e = path_expr(k)
        if self.mode is None:
            return SDict.__contains__(self, k) if not isinstance(k, SPath) else False
        if e is None:
            raise Unsupported("lookup of another value in a dict of call paths")
        return SBool(self.has(e))

    def __contains__(self, k):
        v = self.vc_contains(k)
        return v if isinstance(v, bool) else bool(v)

    def __getitem__(self, k):
        if self.mode is None:
            return SDict.__getitem__(self, k)
        ctx().prove("no KeyError", self.has(path_expr(k)))
        return self.node(self.ref(path_expr(k)))

    def get(self, k, default=None):
        if self.mode is None:
            return SDict.get(self, k, default) if not isinstance(k, SPath) else default
        if default is None:
            return self.node(self.ref(path_expr(k))) if ctx().branch(self.has(path_expr(k))) else None
        raise Unsupported("dict.get with a default")

    def __setitem__(self, k, v):
        e = path_expr(k)
        if self.mode is None and (e is None or type(v) is not ctx().env["heap"].cls or self.d):
            SDict.__setitem__(self, k, v)
            return
        if e is None or type(v) is not ctx().env["heap"].cls:
            raise Unsupported("other entries in a dict of call paths")
        self.touch()
        if self.mode is None:
            self.mode = "path"
            self.empty()
        r, row = v._r, ctx().env.get("cur_row", z3.IntVal(-1))
        oh, orf, op, ow = self.has, self.ref, self.pathof, self.wit
        self.count = z3.If(oh(e), self.count, self.count + 1)
        self.has, self.ref = (lambda p: z3.Or(p == e, oh(p))), (lambda p: z3.If(p == e, r, orf(p)))
        self.pathof, self.wit = (lambda u: z3.If(u == r, e, op(u))), (lambda u: z3.If(u == r, row, ow(u)))

    def vc_len(self):
        return SDict.vc_len(self) if self.mode is None else SNum(self.count)

    def _find(self, k):
        if self.mode is not None:
            raise Unsupported("operation on a dict of call paths")
        return SDict._find(self, k)

    def vc_freeze(self):
        o = SDict.vc_freeze(self)
        if self.mode is None:
            o.empty()
        return o

    def info(self):
        return ("path",) if self.mode else SDict.info(self)

    def join_fn(self):
        return join_paths

    def havoc(self, info, name="d", aspects=()):
        if info != ("path",):
            return SDict.havoc(self, info, name, aspects)
        c = ctx()
        self.mode = "path"
        h, r, p, w = c.fresh_fn("has_path", I, B), c.fresh_fn("node_of", I, I), c.fresh_fn("path_of", I, I), c.fresh_fn("made_at", I, I)
        self.has, self.ref, self.pathof, self.wit = (lambda q: h(q)), (lambda q: r(q)), (lambda u: p(u)), (lambda u: w(u))
        self.count = c.fresh("npaths", I)


def join_paths(a, b):
    if a == ("path",) or b == ("path",):
        for x in (a, b):
            if x != ("path",) and x:
                raise Unsupported("dict of call paths and other entries")
        return ("path",)
    return engine.join_dict(a, b)


class TreeHeap(NodeHeap):
    """with a ghost: the index of every node in the list of children it was last appended to"""

    def havoc(self, info, name="heap", aspects=()):
        NodeHeap.havoc(self, info, name, aspects)
        f = ctx().fresh_fn("child_index", I, I)
        self.f_idx = lambda u: f(u)
        self.hooks = {"append": self.appended}

    def appended(self, r, n, x):
        old = self.f_idx
        self.f_idx = lambda u: z3.If(u == x, n, old(u))


def node_part(v):
    return v._r if hasattr(type(v), "vc_same") and hasattr(type(v), "add_child") else None


class Spec:
    def __init__(self, c, m):
        self.c, self.m, self.P = c, m, c.env["paths"]
        P = self.P
        self.open, self.prev, self.hasprev = c.fresh_fn("open_before", I, I), c.fresh_fn("row_before", I, I), c.fresh_fn("has_row_before", I, B)

        def ax(r):
            q = self.prev(r)
            m.T.row(q)
            S = P.term(self.open(r))
            return [z3.Implies(self.el(r), z3.And(
                S == z3.If(self.hasprev(r), self.after(q), P.nil),
                z3.Implies(self.hasprev(r), z3.And(m.inrange(q), q < r, m.sameloc(q, r), self.el(q))),
                z3.Implies(z3.And(m.leave(r), S != P.nil), P.last(S) == m.nm(r))))]
        m.T.rows_universal(ax)
        c.universal([m.T.tag, m.T.tag], lambda q, r: z3.Implies(z3.And(m.inrange(q), m.inrange(r), q < r, m.sameloc(q, r), self.el(q), self.el(r)),
                                                               z3.And(self.hasprev(r), q <= self.prev(r))))

    def el(self, r):
        return z3.Or(self.m.enter(r), self.m.leave(r))

    def after(self, r):
        S, P = self.open(r), self.P
        P.term(S)
        return P.term(z3.If(self.m.enter(r), self.path(r), z3.If(S == P.nil, P.nil, P.par(S))))

    def path(self, r):
        return self.P.ext(self.open(r), self.m.nm(r))


class Tree:
    """the parts of the state, as they are now"""

    def __init__(self, st):
        c = ctx()
        self.h = freeze_heap(c.env["heap"])
        self.graphs = [x for x in st.L.values() if type(x) is c.env["Graph"] and isinstance(x.__dict__.get("roots"), SList)]
        self.roots = [engine.freeze(g.roots) for g in self.graphs]
        self.dicts = [x for v, x in sorted(st.L.items()) if isinstance(x, PathDict)]
        self.cells = [(v, x) for v, x in maybe_lists(st.L, c.env["model"].T.n) if x.ekind[0] == "none" or x.ekind[1][0] == "node"]


def goal(c, tag, t):
    """a term of interest, of a clause to be proved (not of its instances as a hypothesis)"""
    if not c._busy:
        c.term(tag, t)


def freeze_heap(h):
    import copy
    return copy.copy(h)


def tree_clauses(c, st, done):
    """done(r): the row has been processed"""
    m, S, P, h0 = c.env["model"], c.env["spec"], c.env["paths"], c.env["h0"]
    t = Tree(st)
    h = t.h
    out = []
    mine = lambda u: z3.And(h0 <= u, u < h.next)
    out.append(("nodes are allocated upwards", [], lambda: h.next >= h0, True))
    out.append(("ids are numbered in the order of creation", ["node"], lambda u: z3.Implies(mine(u), h.f_nid(u) == u - h0), True))
    for v, x in sorted(st.L.items()):
        if v in st.names and isinstance(x, (int, SNum)) and not isinstance(x, bool) and (isinstance(x, int) or x.isint):
            out.append(("%s is the number of nodes" % v, [], lambda x=x: expr(x) == h.next - h0, True))
    for D in t.dicts:
        def entry(p, D=D):
            u = D.ref(p)
            return z3.Implies(D.has(p), z3.And(p != P.nil, mine(u), D.pathof(u) == p, h.f_level(u) == P.len(p) - 1, h.f_pnull(u) == (P.len(p) == 1),
                                               z3.Implies(P.len(p) > 1, z3.And(D.has(P.par(p)), h.f_parent(u) == D.ref(P.par(p))))))

        def known(u, D=D):
            p = D.pathof(u)
            goal(c, "path", p)
            return z3.Implies(mine(u), z3.And(D.has(p), D.ref(p) == u))

        def used(u, D=D):
            p, w = D.pathof(u), D.wit(u)
            goal(c, m.T.tag, w)
            return z3.Implies(mine(u), z3.And(m.inrange(w), m.enter(w), done(w), S.path(w) == p))
        out.append(("the node of a path has its level and the node of the shorter path as parent", ["path"], entry, True))
        out.append(("every node is the node of one path", ["node"], known, True))
        out.append(("every node is that of an Enter row processed", ["node"], used, True))
        out.append(("as many paths as nodes", [], lambda D=D: (D.count if D.mode else z3.IntVal(0)) == h.next - h0, True))
        for v, x in t.cells:
            X = c01.column(x) if x.ekind[0] != "none" else None

            def cell(r, X=X, D=D):
                d = z3.And(m.enter(r), done(r))
                if X is None:
                    return z3.Implies(m.inrange(r), z3.Not(d))
                p = S.path(r)
                y = X(r)
                return z3.Implies(m.inrange(r), z3.And(y.null == z3.Not(d), z3.Implies(d, z3.And(D.has(p), y.val._r == D.ref(p)))))
            out.append(("the Enter rows processed, and no others, refer to the node of their path in %s" % v, [m.T.tag], cell, True))
    out += listed(c, h, t.roots[0] if t.roots else None, mine)
    return out


def listed(c, h, roots, mine):
    """every node is listed exactly once, among its parent's children or among the roots"""
    out = []
    n, ch = h.f_nch, h.f_ch

    def child(u, i):
        v = ch(u, i)
        return z3.Implies(z3.And(mine(u), 0 <= i, i < n(u)), z3.And(mine(v), z3.Not(h.f_pnull(v)), h.f_parent(v) == u, h.f_idx(v) == i))

    def there(u):
        p, i = h.f_parent(u), h.f_idx(u)
        return z3.And(z3.Implies(mine(u), n(u) >= 0), z3.Implies(z3.And(mine(u), z3.Not(h.f_pnull(u))), z3.And(mine(p), 0 <= i, i < n(p), ch(p, i) == u)))
    out.append(("children have the node as parent, and each is listed once", ["node", "ci"], child, True))
    out.append(("every node with a parent is listed among its children", ["node"], there, True))
    if roots is not None:
        R, N = roots, roots.length()
        empty = R.concrete and not R.items

        def ref(i):
            v = node_part(R.at(i))
            return z3.IntVal(-1) if v is None else v

        pos = next(g for g in R.ghosts if isinstance(g, engine.MapGhost)).pos

        def root(i):
            return z3.BoolVal(True) if empty else z3.Implies(z3.And(0 <= i, i < N), z3.And(mine(ref(i)), h.f_pnull(ref(i)), pos(ref(i)) == i))

        def listed_root(u):
            i = pos(u)
            if empty:
                return z3.Not(z3.And(mine(u), h.f_pnull(u)))
            return z3.Implies(z3.And(mine(u), h.f_pnull(u)), z3.And(0 <= i, i < N, ref(i) == u))
        out.append(("roots have no parent, and each is listed once", [R.tag], root, True))
        out.append(("every node without parent is listed among the roots", ["node"], listed_root, True))
    return out


class Locations(Invariant):
    name = "locations"

    def match(self, st):
        return c01.OuterInv.match(self, st)

    def clauses(self, c, st, bind):
        s = bind["set"]
        S, k = c.env["spec"], st.k
        return tree_clauses(c, st, lambda r: z3.And(S.el(r), s.rank(*s.tup(r)) < k))

    def iteration(self, c, st, bind):
        c.term(bind["set"].tag, st.k)
        c.env["outer"] = (bind["set"], st.k)


class Events(Invariant):
    name = "events"

    def match(self, st):
        if "outer" not in ctx().env:
            return None
        v = c01.view_loop(st)
        return None if v is None else {"view": v}

    def open(self, c, bind, k):
        """what is open before the k-th row"""
        S, P = c.env["spec"], c.env["paths"]
        cnt, at, pos, tag = bind["view"].enum()
        q = c.env["model"].T.row(at(k - 1))
        return P.term(z3.simplify(z3.If(k <= 0, P.nil, S.after(q))))

    def clauses(self, c, st, bind):
        m, S, P, V = c.env["model"], c.env["spec"], c.env["paths"], bind["view"]
        cnt, at, pos, tag = V.enum()
        s, ko = c.env["outer"]
        k = st.k
        o = self.open(c, bind, k)
        done = lambda r: z3.And(S.el(r), z3.Or(s.rank(*s.tup(r)) < ko, z3.And(V.member(r), pos(r) < k)))
        out = tree_clauses(c, st, done)
        for v, x in sorted(st.L.items()):
            if isinstance(x, PathDict):
                out.append(("what is open has a node [%s]" % v, [], lambda x=x: z3.Implies(o != P.nil, x.has(o)), True))
            if v in st.names and isinstance(x, (int, SNum)) and not isinstance(x, bool) and (isinstance(x, int) or x.isint):
                out.append(("%s is the number of calls open" % v, [], lambda x=x: expr(x) == P.len(o), True))
            if v in st.names and path_expr(x) is not None:
                out.append(("%s is what is open" % v, [], lambda x=x: path_expr(x) == o, True))
            if isinstance(x, SList) and not (not x.concrete and z3.is_true(z3.simplify(x.n == m.T.n))):
                n = x.length()
                empty = x.concrete and not x.items
                out.append(("%s has an entry for every call open" % v, [], lambda n=n: n == P.len(o), True))
                if empty or x.fold is not None and x.fold.pid is not None:
                    out.append(("%s holds what is open" % v, [], lambda x=x: x.fold is not None and x.fold.pid is not None and x.fold.pid == o, True))
                if empty or x.ekind is not None and x.ekind[0] == "node" or x.concrete and node_part(x.items[0]) is not None:
                    for w, D in sorted(st.L.items()):
                        if isinstance(D, PathDict):
                            def el(j, x=x, n=n, D=D, empty=empty):
                                if empty:
                                    return z3.BoolVal(True)
                                c.term("plen", j + 1)
                                q = P.term(P.pre(o, j + 1))
                                u = node_part(x.at(j))
                                return z3.Implies(z3.And(0 <= j, j < n), z3.And(D.has(q), u == D.ref(q)))
                            out.append(("entries of %s are the nodes of the calls open" % v, [x.tag], el, True))
        return out

    def iteration(self, c, st, bind):
        m, V, S, P = c.env["model"], bind["view"], c.env["spec"], c.env["paths"]
        cnt, at, pos, tag = V.enum()
        c.term(tag, st.k)
        c.term(tag, st.k - 1)
        r = c.env["cur_row"] = m.T.row(at(st.k))
        m.T.row(S.prev(r))
        c.term(tag, pos(S.prev(r)))
        o = self.open(c, bind, st.k)
        c.prove("the calls open before a row are those after the row processed before it", S.open(r) == o)
        c.term("plen", P.len(o))
        c.term("plen", P.len(o) + 1)
        S.path(r)
        for v, x in sorted(st.L.items()):
            if isinstance(x, SList) and v in st.L and not (not x.concrete and z3.is_true(z3.simplify(x.n == m.T.n))):
                c.term(x.tag, x.length() - 1)


class Search(Invariant):
    """search of the stack for the Enter of the same name, from the top: with proper nesting, the top is it"""
    name = "search"

    def match(self, st):
        e = ctx().env
        if "outer" not in e or "cur_row" not in e or isinstance(st.seq, SSet) or st.seq is not None and c01.view_loop(st) is not None:
            return None
        return {}

    def clauses(self, c, st, bind):
        out = []
        m = c.env["model"]
        for s, S in sorted(st.L.items()):
            if not isinstance(S, SList) or S.fold is None or S.fold.pid is None or not S.concrete and z3.is_true(z3.simplify(S.n == m.T.n)):
                continue
            n = S.length()
            if st.seq is not None:
                out.append(("only the top of %s is looked at" % s, [], lambda n=n: st.k <= 0, True))
                continue
            for i in st.names:
                vi = st.L.get(i)
                if not (isinstance(vi, int) and not isinstance(vi, bool) or isinstance(vi, SNum) and vi.isint):
                    continue
                ie = expr(vi)
                c.term(S.tag, z3.simplify(ie + 1))
                c.term(S.tag, ie)
                out.append(("%s is one of the two top positions of %s or -1" % (i, s), [], lambda ie=ie, n=n: z3.And(-1 <= ie, ie <= n - 1, ie >= n - 2), True))
                for v in st.names:
                    if v == i:
                        continue
                    x = st.L.get(v, c01.UNBOUND_)

                    def eqc(x=x, n=n, ie=ie, S=S):
                        if x is c01.UNBOUND_ or isinstance(x, instrument._Unbound) or x is None:
                            return ie + 1 >= n
                        if S.concrete and not S.items or not isinstance(x, (str, SName)):
                            return z3.BoolVal(False)
                        return z3.And(ie + 1 < n, expr(x) == expr(S.at(ie + 1)))
                    out.append(("%s is the name in %s above %s, if it was looked at" % (v, s, i), [], eqc, True))
        return out

    def variant(self, c, st, bind):
        return c01.SearchInv.variant(self, c, st, bind)


class CreateCct(Contract):
    name = "create_cct"
    functions = ["pipit.util.cct.create_cct", "pipit.trace.Trace.create_cct", "pipit.graph.Node.__init__", "pipit.graph.Node.add_child", "pipit.graph.Graph.__init__", "pipit.graph.Graph.add_root"]
    invariants = [Locations, Events, Search]
    trusted = PANDAS
    max_paths = 2000

    def stubs(self):
        return {"pandas": pandas_mod(), "numpy": numpy_mod()}

    def run(self, c, load):
        c.max_depth = 1
        P = c.env["paths"] = Paths(c)
        m = TraceModel(c, load)
        c.env["model"] = m
        g, k = load("pipit.graph"), load("pipit.util.cct")
        h = c.env["heap"] = TreeHeap(g.Node)
        g.Node = h.cls
        k.Node = h.cls
        c.env["Graph"] = k.Graph
        S = c.env["spec"] = Spec(c, m)
        h0 = c.env["h0"] = h.next
        c.env["list_ghosts"] = [lambda l: engine.MapGhost(l, node_part)]
        c.env["list_fold"] = PathFold
        made = []

        def mk():
            made.append(PathDict())
            return made[-1]
        c.env["empty_dict"] = mk
        guarded(c, "create_cct", lambda: m.trace.create_cct())
        f, G = m.trace.events, m.trace.cct
        if type(G) is not c.env["Graph"] or not isinstance(G.__dict__.get("roots"), SList) or "Graph_Node" not in f.cols:
            c.prove("the tree is stored in the trace and the column Graph_Node added", False)
            return
        N = f.colfn("Graph_Node")
        for D in made:
            if D.mode is None:
                D.empty()
        D = made[-1] if made else None

        def cell(r):
            x = N(r)
            if isinstance(x, SMaybe):
                return x.null, node_part(x.val)
            return (z3.BoolVal(True), z3.IntVal(-1)) if x is None or isnan(x) else (z3.BoolVal(False), node_part(x))
        r, q, u, w = m.T.skolem("r"), m.T.skolem("q"), c.fresh("u", I), c.fresh("w", I)
        for x in (r, q):
            S.path(x)
        for x in (u, w):
            c.term("node", x)
        mine = lambda x: z3.And(h0 <= x, x < h.next)
        (rn, ru), (qn, qu) = cell(r), cell(q)
        for x in (ru, qu):
            c.term("node", x)
        c.prove("exactly the Enter rows refer to a node", rn == z3.Not(m.enter(r)))
        both = z3.And(m.enter(r), m.enter(q))
        c.prove("two Enter rows refer to the same node exactly if they have the same call path", z3.Implies(both, (ru == qu) == (S.path(r) == S.path(q))))
        c.prove("the rows refer to nodes made by this call", z3.Implies(m.enter(r), mine(ru)))
        c.prove("different nodes have different ids", z3.Implies(z3.And(mine(u), mine(w), u != w), h.f_nid(u) != h.f_nid(w)))
        p = S.path(r)
        c.prove("the level of a node is the length of its path minus one", z3.Implies(m.enter(r), h.f_level(ru) == P.len(p) - 1))
        c.prove("a node of a path of length one has no parent", z3.Implies(m.enter(r), h.f_pnull(ru) == (P.len(p) == 1)))
        P.term(P.par(p))
        c.prove("the parent of a node is the node of the path without its last function",
                z3.Implies(z3.And(both, S.path(q) == P.par(p)), z3.And(z3.Not(h.f_pnull(ru)), h.f_parent(ru) == qu)))
        if D is not None:
            x = D.wit(u)
            m.T.row(x)
            S.path(x)
            xn, xu = cell(x)
            c.prove("a node of a longer path has the node of the shorter path as parent", z3.Implies(z3.And(m.enter(r), P.len(p) > 1), z3.And(
                mine(h.f_parent(ru)), D.pathof(h.f_parent(ru)) == P.par(p))))
            c.prove("every node is that of some Enter row", z3.Implies(mine(u), z3.And(m.inrange(x), m.enter(x), z3.Not(xn), xu == u)))
        ci, cj = c.fresh("i", I), c.fresh("j", I)
        R = G.roots
        for x in (ci, cj):
            c.term("ci", x)
            c.term(R.tag, x)
        sk = {"node": u, "ci": ci, R.tag: ci}
        for nm, tags, fn, _ in listed(c, freeze_heap(h), engine.freeze(R), mine):
            c.prove("finally, " + nm, fn(*[sk[t] for t in tags]))
        m.frame_condition("create_cct")


def contracts():
    return [CreateCct()]


ASSUMPTIONS = ["row numbers and node ids are mathematical integers", "the process and thread columns have no missing values",
               "call paths are finite sequences of names: the free algebra of none and ext (a tuple of the names on the stack is the term built by ext from them)"]
