"""C10: load_imbalance.  The flat profile enters through its contract (C09): for every function f with Enter rows a series over
the m(f) >= 1 processes executing it, with positive values v(f, p).  Sorting such a series enumerates exactly its processes, in order of
value.  For an arbitrary row of the result: it belongs to a function with Enter rows, every such function has exactly one row, and
mean, ratio and the processes listed are as specified; rows are in order of descending mean."""
import z3
from contract import *
from tables import *
from tracebase import *
from engine import KIND_MAKERS

DESC, ASC, ORIG = 0, 1, 2


class Profile:
    """the numbers of the flat profile"""

    def __init__(self, c, m):
        self.c, self.m = c, m
        self.count = c.fresh_fn("executing", I, I)
        self.v = c.fresh_fn("total", I, m.pr(z3.IntVal(0)).sort(), R)
        self.total = c.fresh_fn("sum_over_processes", I, R)
        self.part = c.fresh_fn("sum_of_part", I, I, I, I, R)
        P = m.pr(z3.IntVal(0)).sort()
        self.at_ = [c.fresh_fn("process_at_%d" % o, I, I, P) for o in range(3)]
        self.rank_ = [c.fresh_fn("rank_%d" % o, I, P, I) for o in range(3)]
        m.T.rows_universal(lambda r: [z3.Implies(z3.And(m.enter(r), m.inrange(r)), self.count(m.nm(r)) >= 1)])
        self.seen = set()

    def ordered(self, fs, ps, ks):
        """facts about the orders of the series of the functions fs, at the processes ps and positions ks"""
        c = self.c
        for f in fs:
            n = self.count(f)
            for o in range(3):
                for p in ps:
                    k = self.rank_[o](f, p)
                    c.assume(z3.Implies(self.present(f, p), z3.And(0 <= k, k < n, self.at_[o](f, k) == p)))
                    for j in ks:
                        if o == DESC:
                            c.assume(z3.Implies(z3.And(self.present(f, p), 0 <= j, j < n), z3.And(z3.Implies(j < k, self.v(f, self.at_[o](f, j)) >= self.v(f, p)), z3.Implies(k < j, self.v(f, p) >= self.v(f, self.at_[o](f, j))))))
                for j in ks:
                    p = self.at_[o](f, j)
                    c.assume(z3.Implies(z3.And(0 <= j, j < n), z3.And(self.present(f, p), self.rank_[o](f, p) == j)))
                    for i in ks:
                        a, b = self.v(f, self.at_[o](f, i)), self.v(f, p)
                        if not i.eq(j) and o != ORIG:
                            c.assume(z3.Implies(z3.And(0 <= i, i < j, j < n), a >= b if o == DESC else a <= b))

    def start(self):
        self.present = self.c.fresh_fn("executes", I, self.m.pr(z3.IntVal(0)).sort(), B)

    def at(self, f, o, k):
        return z3.If(o == DESC, self.at_[DESC](f, k), z3.If(o == ASC, self.at_[ASC](f, k), self.at_[ORIG](f, k)))

    def mean(self, f):
        return self.total(f) / z3.ToReal(self.count(f))


class Ref:
    def __init__(self, *e):
        self.e = tuple(x if z3.is_expr(x) else z3.IntVal(x) for x in e)
    __hash__ = None

    def vc_kind(self): return (self.kind,)

    def vc_same(self, o):
        return z3.And(*[a == b for a, b in zip(self.e, o.e)]) if type(o) is type(self) else z3.BoolVal(False)

    def vc_ite(self, cond, o):
        return type(self)(*[z3.If(cond, a, b) for a, b in zip(self.e, o.e)]) if type(o) is type(self) else NotImplemented

    def __eq__(self, o): raise Unsupported("comparison of objects")

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("%s.%s" % (self.kind, a))


class Procs(Ref):
    """the first n processes of a function's series, in one of three orders: (function, order, n)"""
    kind, fields = "procs", 3

    def vc_list(self): return self
    to_list = tolist = vc_list
    def vc_len(self): return self.e[2]

    @property
    def values(self): return self

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Procs(self.e[0], self.e[1], head(k, self.e[2]))
        w = ctx().env["w"]
        f, o, n = self.e
        e = idx_expr(k)
        ctx().prove("no IndexError", z3.And(-n <= e, e < n))
        return SNum(w.at(f, o, z3.If(e < 0, e + n, e)))


class Vals(Ref):
    kind, fields = "vals", 3

    def vc_len(self): return self.e[2]

    def __getitem__(self, k):
        w = ctx().env["w"]
        f, o, n = self.e
        if isinstance(k, slice):
            return Vals(f, o, head(k, n))
        e = idx_expr(k)
        ctx().prove("no IndexError", z3.And(-n <= e, e < n))
        return SNum(w.v(f, w.at(f, o, z3.If(e < 0, e + n, e))))


def head(k, n):
    if k.step is not None or not (k.start is None or isinstance(k.start, int) and k.start == 0):
        raise Unsupported("slice of a series")
    if k.stop is None:
        return n
    e = idx_expr(k.stop)
    e = z3.If(e < 0, e + n, e)
    return z3.If(e < 0, z3.IntVal(0), z3.If(e < n, e, n))


class Ser(Ref):
    """(a part from the front of) the series of a function over its processes: (function, order, n)"""
    kind, fields = "series", 3

    def sort_values(self, ascending=True, kind="quicksort", **kw):
        if kw or not isinstance(ascending, bool):
            raise Unsupported("sort_values of a series with these arguments")
        w = ctx().env["w"]
        f, o, n = self.e
        if not ctx().x.check(ctx(), n == w.count(f)):
            raise Unsupported("part of a series sorted")
        return Ser(f, ASC if ascending else DESC, n)

    def head(self, n=5): return Ser(self.e[0], self.e[1], head(slice(None, n), self.e[2]))
    def nlargest(self, n=5): return self.sort_values(ascending=False).head(n)
    def vc_len(self): return self.e[2]
    def count(self): return SNum(self.e[2])

    @property
    def size(self): return SNum(self.e[2])

    @property
    def shape(self): return (SNum(self.e[2]),)

    @property
    def iloc(self): return SerAt(self)

    @property
    def values(self): return Vals(*self.e)

    @property
    def index(self): return Procs(*self.e)

    def _sum(self):
        w = ctx().env["w"]
        f, o, n = self.e
        return z3.If(n == w.count(f), w.total(f), w.part(f, o, n, z3.IntVal(0)))

    def sum(self): return SNum(self._sum())

    def mean(self):
        n = self.e[2]
        ctx().prove("no mean of nothing", n > 0)
        return SNum(self._sum() / z3.ToReal(n))

    def extreme(self, which):
        w = ctx().env["w"]
        f, o, n = self.e
        if not ctx().x.check(ctx(), n == w.count(f)):
            raise Unsupported("extreme of a part of a series")
        return w.at_[which](f, z3.IntVal(0))

    def max(self):
        return SNum(ctx().env["w"].v(self.e[0], self.extreme(DESC)))

    def min(self):
        return SNum(ctx().env["w"].v(self.e[0], self.extreme(ASC)))

    def idxmax(self): return SNum(self.extreme(DESC))


class SerAt:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Ser(self.s.e[0], self.s.e[1], head(k, self.s.e[2]))
        return Vals(*self.s.e)[k]


class PSeries:
    """the profile's metric, by function and process"""

    def __getitem__(self, f):
        if not isinstance(f, (str, SName)):
            raise Unsupported("profile entry %s" % type(f).__name__)
        c, w = ctx(), ctx().env["w"]
        e = nameexpr(f)
        c.prove("no KeyError (the function has entries)", w.count(e) >= 1)
        return Ser(e, ORIG, w.count(e))

    @property
    def loc(self): return self

    def xs(self, f, level=NM):
        if level not in (NM, 0):
            raise Unsupported("cross section by %r" % (level,))
        return self[f]

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("profile.%s" % a)


class PFrame:
    def __getitem__(self, k):
        c = ctx()
        if not isinstance(k, (str, SName)):
            raise Unsupported("columns of the profile")
        c.prove("no KeyError (metric of a profile)", nameexpr(k) == code(c.env["w"].metric))
        return PSeries()

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("profile.%s" % a)


for _k in (Procs, Vals, Ser):
    KIND_MAKERS[_k.kind] = lambda kind, name, K=_k: K(*[ctx().fresh(name, I) for _ in range(K.fields)])

    def _fam(kind, name, argsorts, K=_k):
        fs = [ctx().fresh_fn(name, *(tuple(argsorts) + (I,))) for _ in range(K.fields)]
        return lambda *a: K(*[f(*a) for f in fs])
    KIND_MAKERS[("family", _k.kind)] = _fam


class Functions(Invariant):
    """loop over the functions with Enter rows"""
    name = "functions"

    def match(self, st):
        w = ctx().env.get("w")
        s = st.seq
        if w is None:
            return None
        s = s if isinstance(s, SSet) else next((q for q in getattr(s, "seqs", []) if isinstance(q, SSet)), None)
        if s is None or s.arity != 1 or s.kinds[0] != ("name",):
            return None
        return {"set": s}

    def lists(self, st):
        out = []
        for v, x in sorted(st.L.items()):
            if isinstance(x, SList):
                out.append((v, x))
            if isinstance(x, SDict):
                out += [("%s[%r]" % (v, k), y) for k, y in sorted(x.d.items(), key=lambda p: repr(p[0])) if isinstance(y, SList)]
        return [(v, x) for v, x in out if x.oid in st.mods]

    def clauses(self, c, st, bind):
        w, s, k = c.env["w"], bind["set"], st.k
        out = []
        for v, x in self.lists(st):
            x = x.vc_freeze()
            out.append(("%s: one element per function visited" % v, [], lambda x=x: x.length() == k, True))
            kd = None
            if not (x.concrete and not x.items):
                try:
                    kd = kind_of(x.at(c.fresh("i", I)))
                except EmptyElem:
                    kd = None
                if kd is None:
                    continue
            f = lambda i: s.E(i)[0]

            def cl(what, want, kinds, x=x, kd=kd):
                def g(i):
                    if kd is None:
                        return z3.Implies(k > 0, z3.BoolVal(False))
                    return z3.Implies(z3.And(0 <= i, i < k), want(x.at(i), f(i)))
                if kd is None or kd[0] in kinds:
                    out.append(("%s: %s" % (v, what), [s.tag], g, True))
            top = lambda f: w.v(f, w.at_[DESC](f, z3.IntVal(0)))
            cl("the means", lambda y, f: real(y) == w.mean(f), ("real",))
            cl("the maxima", lambda y, f: real(y) == top(f), ("real",))
            cl("the ratios", lambda y, f: real(y) * w.mean(f) == top(f), ("real",))
            cl("the functions", lambda y, f: expr(y) == f, ("name",))
            cl("the processes", lambda y, f: z3.And(y.e[0] == f, y.e[1] == DESC, y.e[2] == w.shown(f)), ("procs", "series"))
        return out

    def enter(self, c, st, bind):
        pass

    def iteration(self, c, st, bind):
        w = c.env["w"]
        f = bind["set"].E(st.k)[0]
        c.assume(z3.And(*w.facts(f)))
        w.ordered([f], [], [z3.IntVal(0)])


class LoadImbalance(Contract):
    name = "Trace.load_imbalance"
    functions = ["pipit.trace.Trace.load_imbalance"]
    invariants = [Functions]
    trusted = PANDAS + ["Trace.flat_profile: its contract, proved for C09", "Series.sort_values enumerates exactly the entries, in order of value; iloc/head/index/values/mean/max of a series",
                        "the number of processes executing a function is at most the number of distinct processes of the trace (cardinality)"]

    def stubs(self):
        return {"pandas": pandas_mod(DataFrame=pd_DataFrame), "numpy": numpy_mod()}

    def run(self, c, load):
        m = TraceModel(c, load, threads=False)
        m.numeric_family()
        w = c.env["w"] = Profile(c, m)
        w.start()
        how = c.choose(3, "metric")
        w.metric = ["time.exc", "time.inc", "time.exc"][how]
        kw = {} if how == 2 else {"metric": w.metric}
        n = c.fresh("num_processes", I)
        c.assume(n >= 1)
        if c.choose(2, "num_processes"):
            kw["num_processes"] = SNum(n)
        else:
            c.assume(n == 1)
        w.shown = lambda f: z3.If(n < w.count(f), n, w.count(f))
        w.facts = lambda f: [z3.Implies(w.count(f) >= 1, z3.And(w.total(f) > 0))] + [w.count(f) <= s.n for s in w.procsets]
        w.procsets = []

        def distinct(s, series):
            if s.arity == 1 and s.view.table is m.T and s.kinds[0][0] in ("int", "real"):
                r = c.fresh("r", I)
                if c.x.check(c, z3.Implies(z3.And(m.inrange(r), m.enter(r)), z3.And(s.view.member(r), real(s.tup(r)[0]) == real(m.pr(r))))):
                    w.procsets.append(s)
        c.env["distinct"] = distinct

        def flat_profile(metrics="time.exc", groupby_column="Name", per_process=False):
            ms = columns_of(metrics)
            if len(ms) != 1 or not (isinstance(groupby_column, str) and groupby_column == NM):
                raise Unsupported("flat profile of several metrics or groups")
            if per_process is not True:
                raise Unsupported("flat profile not per process")
            c.prove("the profile has the metric asked for", nameexpr(ms[0]) == code(w.metric))
            return PFrame()
        m.trace.__dict__["flat_profile"] = flat_profile
        g, _ = guarded(c, "load_imbalance", lambda: m.trace.load_imbalance(**kw))
        if not isinstance(g, SFrame):
            raise Unsupported("result of type %s" % type(g).__name__)
        names = [w.metric + ".imbalance", "Top processes", w.metric + ".mean"]
        c.prove("the columns are the imbalance, the top processes and the mean", set(g.cols) == set(names) and not g.maybe and not g.family and not g.writes)
        if not (g.labels and g.labels.fn):
            raise Unsupported("labels of the result")
        t = g.view.table
        c.prove("all rows are shown", g.view.is_all)
        k, k2 = t.skolem("row"), t.skolem("row2")
        for s in c.env.get("sets", []):
            c.term(s.tag, k), c.term(s.tag, k2)
        label = lambda r: nameexpr(g.labels.fn(r))
        f, f2 = label(k), label(k2)
        top0, mean0, imb0 = g.colfn(names[1])(k), g.colfn(names[2]), g.colfn(names[0])
        i, j = c.fresh("i", I), c.fresh("j", I)
        p = c.fresh("p", m.pr(z3.IntVal(0)).sort())
        w.ordered([f], [p], [z3.IntVal(0), i, j])
        c.assume(z3.And(*w.facts(f)))
        c.prove("every row is a function with Enter rows", EXISTS(m.T, lambda r: z3.And(m.enter(r), m.nm(r) == f)))
        c.prove("no function has two rows", z3.Implies(k != k2, f != f2))
        r0 = m.T.skolem("event")
        base = t
        while getattr(base, "origin", None):
            base = base.origin[0][0].table
        wit = []
        for s in c.env.get("sets", []):
            if s.arity == 1 and s.kinds[0] == ("name",) and s.view.table is m.T:
                for _, _, fwd in Origin(g, base).ways():
                    q = s.rank(m.nm(r0))
                    c.term(s.tag, q), base.row(q)
                    _, row = fwd(q)
                    t.row(row)
                    wit.append(row)
        c.prove("every function with Enter rows has a row", z3.Implies(m.enter(r0), z3.Or(*[z3.And(0 <= q, q < t.n, label(q) == m.nm(r0)) for q in wit])) if wit else False)
        c.prove("the mean is that of the totals of the processes executing the function", real(mean0(k)) == w.mean(f))
        c.prove("the imbalance is the largest total divided by the mean", real(imb0(k)) * w.mean(f) == w.v(f, w.at_[DESC](f, z3.IntVal(0))))
        mx = w.v(f, w.at_[DESC](f, z3.IntVal(0)))
        c.prove("(the largest total is one of them, and none is larger)", z3.And(w.present(f, w.at_[DESC](f, z3.IntVal(0))), z3.Implies(w.present(f, p), w.v(f, p) <= mx)))
        c.prove("rows are in order of descending mean", z3.Implies(k < k2, real(mean0(k)) >= real(mean0(k2))))
        if not isinstance(top0, (Procs, Ser)):
            raise Unsupported("Top processes of type %s" % type(top0).__name__)
        tf, to, tn = top0.e
        c.prove("the top processes are as many as requested, all if there are fewer", tn == w.shown(f))
        el = lambda q: w.at(tf, to, q)
        c.prove("the top processes execute the function", z3.Implies(z3.And(0 <= i, i < tn), w.present(f, el(i))))
        c.prove("the top processes are different", z3.Implies(z3.And(0 <= i, i < j, j < tn), el(i) != el(j)))
        c.prove("the top processes are in descending order", z3.Implies(z3.And(0 <= i, i < j, j < tn), w.v(f, el(i)) >= w.v(f, el(j))))
        listed = z3.And(0 <= w.rank_[DESC](f, p), w.rank_[DESC](f, p) < tn, el(w.rank_[DESC](f, p)) == p)
        c.prove("no process left out has a larger total than one listed", z3.Implies(z3.And(w.present(f, p), z3.Not(listed), 0 <= i, i < tn), w.v(f, p) <= w.v(f, el(i))))
        m.frame_condition("load_imbalance")


def contracts():
    return [LoadImbalance()]


ASSUMPTIONS = NUMERIC + ["totals of functions per process are positive (as the statement says) and present for every executing process"]
