"""C06: queries on tree nodes.  anc(n, d): the ancestor of n at level d (n itself at its own level); the forest is well formed:
level = number of ancestors, and node ids are unique."""
import z3
from contract import *
from heap import NodeHeap, same_node


def forest(c, load):
    """an arbitrary well-formed forest; returns heap, anc"""
    g = load("pipit.graph")
    h = NodeHeap(g.Node)
    g.Node = h.cls
    anc = c.fresh_fn("anc", I, I, I)
    lev, par, pn, nid = h.f_level, h.f_parent, h.f_pnull, h.f_nid
    c.universal(["node"], lambda n: [lev(n) >= 0, pn(n) == (lev(n) == 0), z3.Implies(lev(n) > 0, lev(par(n)) == lev(n) - 1), anc(n, lev(n)) == n])
    # definition of anc by levels, and its consequence (lemma AncStep below) that parents of ancestors are ancestors
    c.universal(["node", "lev"], lambda n, d: z3.Implies(z3.And(0 <= d, d <= lev(n)), z3.And(
        lev(anc(n, d)) == d, z3.Implies(d > 0, z3.And(z3.Not(pn(anc(n, d))), par(anc(n, d)) == anc(n, d - 1))), pn(anc(n, d)) == (d == 0))))
    c.universal(["node", "node"], lambda a, b: z3.Implies(nid(a) == nid(b), a == b))
    return h, anc


class NodeVars:
    """local variables holding nodes at a loop"""

    @staticmethod
    def of(st, h):
        return {v: x for v, x in st.L.items() if (x is None or type(x) is h.cls) and not v.startswith("__")}


class IntersectInv(Invariant):
    name = "walk up"

    def match(self, st):
        e = ctx().env
        if st.seq is not None or "c06" not in e or e["c06"]["what"] != "intersection":
            return None
        return {}

    def clauses(self, c, st, bind):
        q = c.env["c06"]
        h, anc, A, Bn = q["h"], q["anc"], q["A"], q["B"]
        lev = h.f_level
        vs = NodeVars.of(st, h)
        out = []
        names = sorted(v for v in st.L if isinstance(st.L[v], h.cls) or st.L[v] is None)
        for v in names:
            x = vs[v]
            if x is not None:
                c.term("lev", lev(x._r))
            for nm, X in (("self", A), ("node", Bn)):
                out.append(("%s is an ancestor of %s" % (v, nm), [], lambda x=x, X=X: z3.BoolVal(True) if x is None else z3.And(lev(x._r) <= lev(X), x._r == anc(X, lev(x._r))), True))
            d0 = q["d0"]
            out.append(("no common ancestor deeper than %s" % v, [],
                        lambda x=x: z3.Implies(z3.And(d0 <= lev(A), d0 <= lev(Bn), d0 > (lev(x._r) if x is not None else -1), d0 >= 0), anc(A, d0) != anc(Bn, d0)), True))
            for w in names:
                if v != w:
                    y = vs[w]
                    out.append(("%s at least as deep as %s" % (v, w), [], lambda x=x, y=y: z3.BoolVal(x is None and y is None) if x is None or y is None else lev(x._r) >= lev(y._r), True))
        return out

    def variant(self, c, st, bind):
        h = c.env["c06"]["h"]
        s = z3.IntVal(0)
        for v, x in NodeVars.of(st, h).items():
            if x is not None and v not in ("self",):
                s = s + h.f_level(x._r) + 1
        return s


class Intersection(Contract):
    name = "Node.get_intersection"
    functions = ["pipit.graph.Node.get_intersection", "pipit.graph.Node.get_level", "pipit.graph.Node.__eq__"]
    invariants = [IntersectInv]

    def run(self, c, load):
        h, anc = forest(c, load)
        a = h.ref(c.fresh("a", I))
        lev = h.f_level
        if c.choose(2, "other node is None"):
            r, _ = guarded(c, self.name, lambda: a.get_intersection(None))
            c.prove("the intersection with none is none", r is None)
            return
        b = h.ref(c.fresh("b", I))
        d0 = c.fresh("d0", I)
        for t in (lev(a._r), lev(b._r), z3.IntVal(0), d0):
            c.term("lev", t)
        c.env["c06"] = {"what": "intersection", "h": h, "anc": anc, "A": a._r, "B": b._r, "d0": d0}
        before = (h.f_level, h.f_parent, h.f_pnull, h.f_nid)
        r, _ = guarded(c, self.name, lambda: a.get_intersection(b))
        c.prove("the tree is not modified", (h.f_level, h.f_parent, h.f_pnull, h.f_nid) == before)
        common0 = anc(a._r, 0) == anc(b._r, 0)
        if r is None:
            c.prove("none only if the nodes lie in different trees", z3.Implies(z3.And(0 <= d0, d0 <= lev(a._r), d0 <= lev(b._r)), anc(a._r, d0) != anc(b._r, d0)))
        elif type(r) is not h.cls:
            c.prove("the intersection is a node of the tree", False)
        else:
            c.prove("the intersection is an ancestor of both", z3.And(lev(r._r) <= lev(a._r), lev(r._r) <= lev(b._r), anc(a._r, lev(r._r)) == r._r, anc(b._r, lev(r._r)) == r._r))
            c.prove("no common ancestor is deeper", z3.Implies(z3.And(d0 > lev(r._r), d0 <= lev(a._r), d0 <= lev(b._r)), anc(a._r, d0) != anc(b._r, d0)))


class ListInv(Invariant):
    name = "collect ancestors"

    def match(self, st):
        e = ctx().env
        if st.seq is not None or "c06" not in e or e["c06"]["what"] != "list":
            return None
        return {}

    def clauses(self, c, st, bind):
        q = c.env["c06"]
        h, anc, A, m = q["h"], q["anc"], q["A"], q["min"]
        lev = h.f_level
        out = []
        for v, x in sorted(NodeVars.of(st, h).items()):
            if x is not None:
                c.term("lev", lev(x._r))
            out.append(("%s is an ancestor of the node" % v, [], lambda x=x: z3.BoolVal(True) if x is None else z3.And(lev(x._r) <= lev(A), x._r == anc(A, lev(x._r))), True))
            for l, s in sorted(st.L.items()):
                if isinstance(s, SList) and l != "self":
                    out.append(("%s holds the levels above %s" % (l, v), [], lambda x=x, s=s: s.length() == lev(A) - (lev(x._r) if x is not None else -1), True))
        for l, s in sorted(st.L.items()):
            if isinstance(s, SList) and not (s.concrete and s.items and not isinstance(s.items[0], h.cls)):
                def el(j, s=s):
                    c.term("lev", lev(A) - j)
                    if s.concrete and not s.items:
                        return z3.BoolVal(True)
                    try:
                        return z3.Implies(z3.And(0 <= j, j < s.length()), z3.And(s.at(j)._r == anc(A, lev(A) - j), lev(A) - j > m, lev(A) - j >= 0))
                    except EmptyElem:
                        return z3.BoolVal(True)
                out.append(("elements of %s are the ancestors in upward order" % l, ["j"], el, True))
        return out

    def variant(self, c, st, bind):
        h = c.env["c06"]["h"]
        s = z3.IntVal(0)
        for v, x in NodeVars.of(st, h).items():
            if x is not None and v != "self":
                s = s + h.f_level(x._r) + 1
        return s


class NodeList(Contract):
    name = "Node.get_node_list"
    functions = ["pipit.graph.Node.get_node_list"]
    invariants = [ListInv]

    def run(self, c, load):
        h, anc = forest(c, load)
        a = h.ref(c.fresh("a", I))
        lev = h.f_level
        m = SNum(c.fresh("min_level", I))
        j0 = c.fresh("j0", I)
        c.term("lev", lev(a._r))
        c.term("j", j0)
        c.env["c06"] = {"what": "list", "h": h, "anc": anc, "A": a._r, "min": m.e}
        r, _ = guarded(c, self.name, lambda: a.get_node_list(m))
        if not isinstance(r, (SList, list)):
            c.prove("the result is a list", False)
            return
        low = z3.If(m.e < -1, z3.IntVal(-1), m.e)
        want = z3.If(lev(a._r) > low, lev(a._r) - low, z3.IntVal(0))
        n = r.length()
        c.term("j", n - 1)
        c.prove("one entry per ancestor above the minimum level", n == want)
        if not (isinstance(r, SList) and r.concrete and not r.items):
            c.prove("the entries are the node and its ancestors in upward order", z3.Implies(z3.And(0 <= j0, j0 < n), r.at(j0)._r == anc(a._r, lev(a._r) - j0)))


class Level(Contract):
    """_calculate_level is verified against its own contract at the recursive call (on the parent, one level closer to the root)"""
    name = "Node._calculate_level"
    functions = ["pipit.graph.Node._calculate_level", "pipit.graph.Node.get_level", "pipit.graph.Node.__init__"]

    def run(self, c, load):
        g = load("pipit.graph")
        real = g.Node
        h = NodeHeap(real)
        depth = c.fresh_fn("depth", I, I)      # ghost: number of ancestors
        c.universal(["node"], lambda n: [depth(n) >= 0, depth(n) == z3.If(h0["pn"](n), z3.IntVal(0), 1 + depth(h0["par"](n)))])
        h0 = {"pn": h.f_pnull, "par": h.f_parent, "lev": h.f_level}
        me = []

        def rec(self):
            if me:
                c.prove("the recursion is on the parent", self._r == h0["par"](me[0]), assume=False)
            return SNum(depth(self._r))
        which = c.choose(2, "method")
        if which == 0:
            n = h.ref(c.fresh("n", I))
            me.append(n._r)
            h.cls._calculate_level = rec
            r, _ = guarded(c, self.name, lambda: real._calculate_level(n))
            c.prove("_calculate_level returns the number of ancestors", expr(r) == depth(n._r))
            return
        # constructor: the level of a new node whose parent's level is right
        h.cls._calculate_level = lambda self: SNum(z3.If(h.f_pnull(self._r), z3.IntVal(0), 1 + depth(h.f_parent(self._r))))
        p = None if c.choose(2, "parent") else h.ref(c.fresh("p", I))
        lv = None
        if p is not None:
            c.assume(p._r < h.next)
            c.assume(h.f_level(p._r) == depth(p._r))
        given = c.choose(2, "level given")
        if given:
            lv = SNum(z3.IntVal(0) if p is None else 1 + depth(p._r))
        i = SNum(c.fresh("id", I))
        n, _ = guarded(c, self.name, lambda: h.cls(i, p, lv))
        want = z3.IntVal(0) if p is None else 1 + depth(p._r)
        c.prove("the level of a new node is its number of ancestors", h.f_level(n._r) == want)
        r, _ = guarded(c, self.name, lambda: n.get_level())
        c.prove("get_level returns it", expr(r) == want)
        c.prove("the new node has its id and parent and no children", z3.And(h.f_nid(n._r) == i.e, h.f_pnull(n._r) == z3.BoolVal(p is None), h.f_nch(n._r) == 0, *([h.f_parent(n._r) == p._r] if p is not None else [])))


class AncStep(Contract):
    """lemma used above: with anc defined downwards from the node (anc(n, level n) = n, anc(n, d) = anc(parent n, d) for d < level n),
    level(anc(n, d)) = d and parent(anc(n, d)) = anc(n, d-1); by induction on level(n)"""
    name = "lemma: ancestors by level"
    functions = []

    def run(self, c, load):
        lev, par, pn, anc = c.fresh_fn("lev", I, I), c.fresh_fn("par", I, I), c.fresh_fn("pn", I, B), c.fresh_fn("anc", I, I, I)
        n, d = c.fresh("n", I), c.fresh("d", I)

        def wf(n):
            return z3.And(lev(n) >= 0, pn(n) == (lev(n) == 0), z3.Implies(lev(n) > 0, lev(par(n)) == lev(n) - 1))

        def df(n, d):
            return z3.And(anc(n, lev(n)) == n, z3.Implies(z3.And(0 <= d, d < lev(n)), anc(n, d) == anc(par(n), d)))

        def claim(n, d):
            return z3.Implies(z3.And(0 <= d, d <= lev(n)), z3.And(lev(anc(n, d)) == d, z3.Implies(d > 0, z3.And(z3.Not(pn(anc(n, d))), par(anc(n, d)) == anc(n, d - 1))), pn(anc(n, d)) == (d == 0)))
        for m in (n, par(n), anc(n, d), anc(par(n), d), anc(n, d - 1)):
            c.assume(wf(m))
        for m in (n, par(n)):
            for e in (d, d - 1):
                c.assume(df(m, e))
        for e in (d, d - 1, lev(n) - 1):
            c.assume(df(n, e))
            c.assume(df(par(n), e))
            c.assume(z3.Implies(lev(n) > 0, claim(par(n), e)))     # induction hypothesis
        c.prove("holds for a node if it holds for its parent", claim(n, d))


def contracts():
    return [Level(), AncStep(), Intersection(), NodeList()]


ASSUMPTIONS = ["nodes form a well-formed forest with distinct ids (established by the CCT builders, C05/C20/C21)", "integers are mathematical integers (Python's are)"]
