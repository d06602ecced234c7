"""C12: time_profile.  Edges E(0..n) are evenly spaced from the first to the last timestamp (numpy.linspace, trusted).  For a matched
call r and an interval b, ov(r, b) is the length of the part of the interval inside the call.  Every function's value in interval b is
the sum over its matched calls of ov(r, b) minus the ov(ch, b) of the direct callees ch of r; idle time is the width times the number
of processes with Enter rows minus the sum of these values; values below 0.01 are 0, values are divided by the same number if
normalized.  Lemma: the ov(r, b) of a call over all intervals add up to its duration."""
import z3
from contract import *
from tables import *
from tracebase import *
from engine import KIND_MAKERS
from c01 import view_loop
from c02 import celem
from c04 import use_caller_callee
from c10 import Ref


class BinDict(Ref):
    """stands for a dict shown to hold, for every function entered, its value in interval e[0]; e[1] is 1 if it has an entry for every
    function entered"""
    kind, fields = "bindict", 2


KIND_MAKERS[BinDict.kind] = lambda kind, name: BinDict(ctx().fresh(name, I), ctx().fresh(name, I))


def _fam(kind, name, argsorts):
    f, g = ctx().fresh_fn(name, *(tuple(argsorts) + (I,))), ctx().fresh_fn(name, *(tuple(argsorts) + (I,)))
    return lambda *a: BinDict(f(*a), g(*a))


KIND_MAKERS[("family", BinDict.kind)] = _fam


def zmax(a, b): return z3.If(a >= b, a, b)
def zmin(a, b): return z3.If(a <= b, a, b)


class Bins:
    """the specification"""

    def __init__(self, c, m, S):
        self.c, self.m, self.S = c, m, S
        self.C = c.env["children"]
        f, v, a = c.fresh_fn("children_in_bin", I, I, I, R), c.fresh_fn("value", I, I, R), c.fresh_fn("absent", I, I, B)
        self.sb_, self.value, self.absent_ = f, v, a
        self.rowsum = c.fresh_fn("sum_of_values", I, R)
        self.E = None

    def edge(self, k):
        if self.E is None:
            raise Unsupported("intervals not made by linspace")
        ctx().term("bin", k)
        return self.E(k)

    def mts(self, r):
        return self.m.ts(self.m.match(r))

    def ov(self, r, b):
        return zmax(z3.RealVal(0), zmin(self.mts(r), self.edge(b + 1)) - zmax(self.m.ts(r), self.edge(b)))

    def sb(self, p, i):
        return self.sb_(self.c.env["bin"], p, i)

    def start(self, p):
        self.c.assume(self.sb(p, z3.IntVal(0)) == 0)

    def step(self, p, i):
        ch = celem(self.C)(p, i)
        self.m.T.row(ch)
        self.c.assume(self.sb(p, i + 1) == self.sb(p, i) + self.ov(ch, self.c.env["bin"]))

    def exc(self, r):
        b = self.c.env["bin"]
        return self.ov(r, b) - z3.If(self.C.null(r), z3.RealVal(0), self.sb(r, self.C.len(r)))

    def nothing_outside(self, p):
        """Lemma: the callees of a call that does not meet the interval do not either (induction over the list of callees)"""
        c, m, S, b = self.c, self.m, self.S, self.c.env["bin"]
        i = c.fresh("i", I)
        self.start(p)
        ch = celem(self.C)(p, i)
        m.T.row(ch)
        c.term(c.env["celltag"], i)
        self.step(p, i)
        c.assume(S.nested(p, ch))
        for x, y in ((p, ch), (m.match(ch), m.match(p))):
            c.assume(z3.Implies(z3.And(m.inrange(x), m.inrange(y), x < y), m.ts(x) <= m.ts(y)))
        hyp = z3.And(0 <= i, i < self.C.len(p), z3.Not(self.C.null(p)), S.ME(p), self.ov(p, b) == 0, self.sb(p, i) == 0)
        c.prove("callees of a call that does not meet an interval do not meet it", z3.And(self.sb(p, z3.IntVal(0)) == 0, z3.Implies(hyp, self.sb(p, i + 1) == 0)), assume=False)
        c.assume(z3.Implies(z3.And(S.ME(p), self.ov(p, b) == 0, z3.Not(self.C.null(p)), self.C.len(p) >= 0), self.sb(p, self.C.len(p)) == 0))


def linspace(a, b, num=50, *more, **kw):
    if more or kw:
        raise Unsupported("linspace with these arguments")
    c, w = ctx(), ctx().env["w"]
    n = idx_expr(num)
    c.prove("at least one interval", n >= 2)
    E, d = c.fresh_fn("edge", I, R), c.fresh("width", R)
    lo, hi = real(a), real(b)
    w.E, w.n, w.width = (lambda k: E(k)), n, d
    c.assume(z3.And(E(z3.IntVal(0)) == lo, E(n - 1) == hi))
    c.assume(z3.Implies(hi > lo, d > 0))
    c.universal(["bin"], lambda k: z3.Implies(z3.And(0 <= k, k < n - 1), E(k + 1) == E(k) + d))
    c.universal(["bin"], lambda k: z3.Implies(z3.And(0 < k, k <= n - 1), E(k) == E(k - 1) + d))

    def at(k):
        c.term("bin", k)
        return E(k)
    return Vector(n, at)


class Column:
    """one value per interval"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def _op(self, o, f):
        if isinstance(o, Column):
            return Column(self.n, lambda i: f(self.fn(i), o.fn(i)))
        if isinstance(o, (int, float, SNum)):
            return Column(self.n, lambda i: f(self.fn(i), o))
        raise Unsupported("operation on a column and %s" % type(o).__name__)

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._op(o, lambda a, b: a / b)
    def __neg__(self): return Column(self.n, lambda i: -self.fn(i))
    def rsub(self, o): return o - self
    def sub(self, o): return self - o
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("column.%s" % a)


class Flags:
    def __init__(self, cond): self.cond = cond
    def __invert__(self): return Flags(lambda v: z3.Not(self.cond(v)))


class ProfileFrame(SObj):
    """one row per interval, one column per function (cell(i, name)) and further columns by name"""

    def __init__(self, n, names, cell):
        SObj.__init__(self)
        self.n, self.names, self.cell = n, names, cell
        self.extra, self.pristine, self.replaced = {}, True, {}

    def vc_len(self): return self.n
    def vc_kind(self): return ("obj", self.oid)

    def copy(self, deep=True):
        f = ProfileFrame(self.n, self.names, self.cell)
        f.extra, f.pristine = dict(self.extra), self.pristine
        return f

    def _map(self, f, inplace=False):
        g = self if inplace else self.copy()
        g.touch()
        old = self.cell
        g.cell = lambda i, e: f(old(i, e))
        g.extra = {k: (lambda i, fn=fn: f(fn(i))) for k, fn in self.extra.items()}
        g.pristine = False
        return None if inplace else g

    def sum(self, axis=0, **kw):
        if axis not in (1, "columns") or kw or not self.pristine or self.extra:
            raise Unsupported("sum of a profile after it changed, or over intervals")
        return Column(self.n, lambda i: SNum(self.rowsum(i)))

    def _cmp(self, o, f):
        if not isinstance(o, (int, float, SNum)):
            raise Unsupported("comparison of a profile and %s" % type(o).__name__)
        return Flags(lambda v: tobool(f(v, o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    lt, le, gt, ge = __lt__, __le__, __gt__, __ge__
    __hash__ = None

    def mask(self, cond, other=float("nan"), inplace=False):
        if not isinstance(cond, Flags) or not isinstance(other, (int, float)):
            raise Unsupported("mask with these arguments")
        return self._map(lambda v: ite(cond.cond(v), nan_like(v) if isnan(other) else coerced(other, v), v), inplace)

    def where(self, cond, other=float("nan"), inplace=False):
        if not isinstance(cond, Flags):
            raise Unsupported("where with these arguments")
        return self.mask(~cond, other, inplace)

    def fillna(self, value=None, inplace=False):
        if not isinstance(value, (int, float)):
            raise Unsupported("fillna with these arguments")
        return self._map(lambda v: ite(v.null, coerced(value, v.val), v.val) if isinstance(v, SMaybe) else v, inplace)

    def __truediv__(self, o):
        if not isinstance(o, (int, float, SNum)):
            raise Unsupported("profile divided by %s" % type(o).__name__)
        return self._map(lambda v: v / o)
    div = truediv = __truediv__

    def __itruediv__(self, o):
        g = self / o
        self.touch()
        self.cell, self.extra, self.pristine = g.cell, g.extra, False
        return self

    def __mul__(self, o):
        if not isinstance(o, (int, float, SNum)):
            raise Unsupported("profile times %s" % type(o).__name__)
        return self._map(lambda v: v * o)

    def __setitem__(self, k, v):
        if isinstance(k, Flags):
            self.mask(k, v, True)
            return
        if not isinstance(k, str):
            raise Unsupported("column of a profile named symbolically")
        c = ctx()
        self.touch()
        if isinstance(v, Column):
            fn, n = v.fn, v.n
        elif isinstance(v, SSeqBase):
            v = freeze(v)
            fn, n = v.at, v.length()
        elif isinstance(v, (int, float, SNum)):
            fn, n = (lambda i: v), self.n
        else:
            raise Unsupported("column of a profile given by %s" % type(v).__name__)
        c.prove("no ValueError (one value per interval)", n == self.n)
        self.extra[k] = fn

    def insert(self, loc, column, value, allow_duplicates=False):
        if not isinstance(column, str) or column in self.extra:
            raise Unsupported("insertion of this column")
        self[column] = value

    def __getitem__(self, k):
        if isinstance(k, str) and k in self.extra:
            return Column(self.n, self.extra[k])
        raise Unsupported("column of a profile")

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("profile.%s" % a)


def coerced(x, v):
    return SNum(real(engine.numexpr(x)))


def DataFrame(data=None, columns=None, **kw):
    c, w = ctx(), ctx().env["w"]
    if kw or not isinstance(data, SList) or not isinstance(columns, SSet):
        raise Unsupported("DataFrame of %s" % type(data).__name__)
    data = data.vc_freeze()
    if not data.concrete and kind_of(data.at(c.fresh("i", I)))[0] != BinDict.kind:
        raise Unsupported("DataFrame of a list of other things")
    which = lambda i, k=0: (c.term(data.tag, i), data.at(i))[1].e[k]
    c.prove("the columns are the functions entered", columns_are_entered(columns))

    def cell(i, f):
        b = which(i)
        v = SNum(w.value(b, f))
        return SMaybe(z3.And(which(i, 1) != 1, w.absent_(b, f)), v)
    d = ProfileFrame(data.length(), columns, cell)
    d.rowsum = lambda i: w.rowsum(which(i))
    return d


def columns_are_entered(s):
    m, f = ctx().env["model"], ctx().env["f0"]
    if s.arity != 1 or s.view.table is not m.T or s.kinds[0] != ("name",):
        return z3.BoolVal(False)
    return tobool(s.vc_contains(SName(f))) == EXISTS(m.T, lambda r: z3.And(m.enter(r), m.nm(r) == f))


class Intervals(Invariant):
    """loop over the intervals"""
    name = "intervals"

    def match(self, st):
        w = ctx().env.get("w")
        if w is None or w.E is None or "bin" in ctx().env:
            return None
        return {} if self.runs_over(st, ctx().env["n"]) else None

    def clauses(self, c, st, bind):
        out = []
        for v, x in sorted(st.L.items()):
            if not isinstance(x, SList) or x.oid not in st.mods:
                continue
            x = x.vc_freeze()
            out.append(("%s: one element per interval done" % v, [], lambda x=x: x.length() == st.k, True))

            def g(j, x=x):
                if x.concrete and not x.items:
                    return None
                y = x.at(j)
                return z3.Implies(z3.And(0 <= j, j < st.k), y.e[0] == j) if isinstance(y, BinDict) else None
            out.append(("%s: element j is about interval j" % v, [x.tag], g, True))

            def full(j, x=x):
                if x.concrete and not x.items:
                    return None
                y = x.at(j)
                return z3.Implies(z3.And(0 <= j, j < st.k), y.e[1] == 1) if isinstance(y, BinDict) else None
            out.append(("%s: element j has an entry for every function" % v, [x.tag], full, True))
        return out

    def iteration(self, c, st, bind):
        c.env["bin"] = st.k
        c.term("bin", st.k)

    def backedge(self, c, st, bind):
        for v, x in st.L.items():
            if isinstance(x, SList):
                c.term(x.tag, st.k - 1)

    def exit(self, c, st, bind):
        c.env.pop("bin", None)


def bin_lists(st):
    """the local lists with one number per row of a view"""
    m = ctx().env["model"]
    out = []
    for v, x in sorted(st.L.items()):
        if isinstance(x, SList) and not x.concrete and x.cells is None:
            V = view_of_count(x.n)
            if V is None or V.table is not m.T or V.is_all:
                continue
            k = x.ekind or kind_of(x._at(z3.IntVal(0)))
            if (k[1] if k[0] == "maybe" else k)[0] == "real":
                out.append((v, x, V))
    return out


def cellof(x, V):
    x = x.vc_freeze()
    pos = V.enum()[2]

    def f(r):
        y = x._at(pos(r))
        return y if isinstance(y, SMaybe) else SMaybe(False, y)
    return f


class Parents(Invariant):
    """loop over the calls of an interval that have callees"""
    name = "calls with callees"

    def match(self, st):
        if "bin" not in ctx().env:
            return None
        v = view_loop(st)
        return None if v is None else {"view": v}

    def clauses(self, c, st, bind):
        w, F = c.env["w"], bind["view"]
        m, b = w.m, c.env["bin"]
        pos = F.enum()[2]
        out = []
        for v, x, V in bin_lists(st):
            if not st.changed(x):
                continue
            X = cellof(x, V)

            def g(r, X=X, V=V):
                y = X(r)
                return z3.Implies(V.member(r), z3.And(z3.Not(y.null), real(y.val) == z3.If(z3.And(F.member(r), pos(r) < st.k), w.exc(r), w.ov(r, b))))
            out.append(("%s: time in the interval, less that of the callees for calls done" % v, [m.T.tag], g, True))
        return out

    def iteration(self, c, st, bind):
        p = bind["view"].enum()[1](st.k)
        c.env["row"] = p

    def exit(self, c, st, bind):
        c.env.pop("row", None)


class Callees(Invariant):
    """loop over the callees of a call"""
    name = "callees"

    def match(self, st):
        p, C = ctx().env.get("row"), ctx().env.get("children")
        if p is None or "bin" not in ctx().env:
            return None
        if isinstance(st.seq, engine.CellSeq) and z3.simplify(st.seq.q).eq(z3.simplify(p)) or self.runs_over(st, C.len(p)):
            return {"row": p}
        return None

    def enter(self, c, st, bind):
        st.extra["entry"] = {v: cellof(x, V) for v, x, V in bin_lists(st)}
        c.env["w"].start(bind["row"])

    def clauses(self, c, st, bind):
        w, p, b = c.env["w"], bind["row"], c.env["bin"]
        m = w.m
        out = []
        for v, x, V in bin_lists(st):
            X0 = st.extra["entry"].get(v)
            if X0 is None or not st.changed(x):
                continue
            X = cellof(x, V)

            def g(r, X=X, X0=X0, V=V):
                y = X(r)
                return z3.Implies(V.member(r), z3.If(r == p, z3.And(z3.Not(y.null), real(y.val) == w.ov(p, b) - w.sb(p, st.k)), same(y, X0(r))))
            out.append(("%s: the call's time less that of the callees visited, others unchanged" % v, [m.T.tag], g, True))
        return out

    def iteration(self, c, st, bind):
        w, p = c.env["w"], bind["row"]
        w.m.T.row(celem(w.C)(p, st.k))
        c.term(c.env["celltag"], st.k)
        w.step(p, st.k)


class TimeProfile(Contract):
    name = "Trace.time_profile"
    functions = ["pipit.trace.Trace.time_profile"]
    invariants = [Callees, Parents, Intervals]
    trusted = PANDAS + ["_match_events, _match_caller_callee, calc_inc_metrics: their contracts, proved for C01, C02 and C03",
                        "numpy.linspace(a, b, n) gives n evenly spaced values from a to b (in exact arithmetic)",
                        "DataFrame(list of dicts, columns): row i has the values of dict i, missing where it has no such key"]

    def stubs(self):
        return {"pandas": pandas_mod(DataFrame=DataFrame), "numpy": numpy_mod(linspace=linspace)}

    def run(self, c, load):
        c.max_depth = 1
        m = c.env["model"] = TraceModel(c, load, threads=False)
        S = use_caller_callee(c, m)
        w = c.env["w"] = Bins(c, m, S)
        m.T.rows_universal(lambda r: [z3.Implies(S.ME(r), z3.And(m.inrange(m.match(r)), m.ts(r) <= m.ts(m.match(r))))])
        inc, incn = c.fresh_fn("inc", I, R), c.fresh_fn("inc_null", I, B)
        INC = lambda r: SMaybe(incn(r), SNum(inc(r)))
        m.there("time.inc", INC, None, "inc_before")

        def calc_inc(columns=None):
            m.trace.__dict__["_match_events"]()
            m.trace.events.set_col("time.inc", INC)
        m.trace.__dict__["calc_inc_metrics"] = calc_inc
        n = c.env["n"] = c.fresh("num_bins", I)
        c.assume(n >= 1)
        f0 = c.env["f0"] = c.fresh("function", I)
        NP = c.fresh("processes", I)
        c.assume(NP >= 1)      # there are Enter rows

        def distinct(s, series):
            if s.arity == 1 and s.view.table is m.T and s.kinds[0][0] in ("int", "real"):
                r = c.fresh("r", I)
                m.T.row(r)
                if c.x.check(c, z3.And(s.view.member(r) == z3.And(m.inrange(r), m.enter(r)), z3.Implies(s.view.member(r), real(s.tup(r)[0]) == real(m.pr(r))))):
                    c.assume(s.n == NP)
                    s.n = NP
        c.env["distinct"] = distinct

        def element(v):
            if not isinstance(v, GroupedDict):
                return v
            if "bin" not in c.env:
                raise Unsupported("values appended outside the loop over the intervals")
            g = v.g
            b = c.env["bin"]
            if not (len(g.keys) == 1 and g.keys[0] == NM and g.agg == "sum"):
                c.prove("values are added up by function", False)
            F = g.f
            r = m.T.skolem("call")
            key, vf = F.colfn(NM), F.colfn(g.cols[0])
            hit = z3.And(F.view.member(r), z3.Not(nullof(key(r))), valof(key(r)) == f0)
            w.nothing_outside(r)
            got = z3.If(z3.And(hit, z3.Not(nullof(vf(r)))), real(valof(vf(r))), z3.RealVal(0))
            want = z3.If(z3.And(S.ME(r), m.nm(r) == f0), w.exc(r), z3.RealVal(0))
            c.prove("every call adds its time in the interval less that of its direct callees to its function", got == want)
            e = m.T.skolem("entered")
            # pandas: grouping by a categorical with observed=False has every category of the column, else only the values that occur
            full = not (g.observed or F.cols[NM].dtype != "category" or not c.x.check(c, same(key(e), SName(m.nm(e)))))
            return BinDict(b, int(full))
        c.env["element"] = element
        import inspect
        par = inspect.signature(m.mod.Trace.time_profile).parameters.get("normalized")
        if par is None or not isinstance(par.default, (bool, type(None))):
            raise Unsupported("parameters of time_profile")
        c.prove("values are not normalized unless asked for", not par.default)
        norm = c.fresh("normalized", B)
        lo, hi = EXTREME("min", m.T.all, lambda r: SNum(m.ts(r))), EXTREME("max", m.T.all, lambda r: SNum(m.ts(r)))
        c.assume(z3.And(m.T.n > 0, lo < hi))
        d, _ = guarded(c, "time_profile", lambda: m.trace.time_profile(num_bins=SNum(n), normalized=SBool(norm)))
        if not isinstance(d, ProfileFrame):
            raise Unsupported("result of type %s" % type(d).__name__)
        i = c.fresh("i", I)
        c.assume(z3.And(0 <= i, i < n))
        c.term("bin", i)
        c.prove("one row per interval", d.n == n)
        c.prove("the columns are the functions, idle_time, bin_start and bin_end", set(d.extra) == {"idle_time", "bin_start", "bin_end"})
        E = w.edge
        num = lambda v: z3.And(z3.Not(nullof(v)))
        bs, be = d.extra["bin_start"], d.extra["bin_end"]
        c.prove("the first interval starts at the first timestamp", real(valof(bs(z3.IntVal(0)))) == lo)
        c.prove("the last interval ends at the last timestamp", real(valof(be(n - 1))) == hi)
        c.prove("intervals have the same width", z3.And(num(bs(i)), num(be(i)), real(valof(be(i))) - real(valof(bs(i))) == E(z3.IntVal(1)) - E(z3.IntVal(0))))
        c.prove("each interval starts where the one before ends", z3.Implies(i + 1 < n, real(valof(bs(i + 1))) == real(valof(be(i)))))
        c.prove("interval i goes from edge i to edge i + 1", z3.And(real(valof(bs(i))) == E(i), real(valof(be(i))) == E(i + 1)))
        total = (E(z3.IntVal(1)) - E(z3.IntVal(0))) * z3.ToReal(NP)
        c.assume(z3.Implies(w.absent_(i, f0), w.value(i, f0) == 0))      # no entry: no call with this name in the interval
        cut = lambda v: z3.If(v < real(engine.numexpr(0.01)), z3.RealVal(0), v)
        for what, v, spec in (("a function's value", d.cell(i, f0), w.value(i, f0)), ("idle time", d.extra["idle_time"](i), total - w.rowsum(i))):
            c.prove("%s is not missing" % what, num(v))
            c.prove("%s is as specified, 0 if below 0.01" % what, z3.Implies(z3.Not(norm), real(valof(v)) == cut(spec)))
            c.prove("%s is divided by width times processes if normalized" % what, z3.Implies(norm, real(valof(v)) == cut(spec) / total))
        m.frame_condition("time_profile")


class Telescope(Contract):
    name = "sum over the intervals"
    functions = []

    def run(self, c, load):
        """the parts of a call over intervals 0..k-1 add up to the part of the call before edge k; all of it for k = n"""
        E, P, n, k = c.fresh_fn("edge", I, R), c.fresh_fn("partial", I, R), c.fresh("n", I), c.fresh("k", I)
        t0, t1 = c.fresh("start", R), c.fresh("end", R)
        ov = lambda b: zmax(z3.RealVal(0), zmin(t1, E(b + 1)) - zmax(t0, E(b)))
        before = lambda j: zmax(z3.RealVal(0), zmin(t1, E(j)) - t0)
        c.assume(z3.And(E(z3.IntVal(0)) <= t0, t0 <= t1, t1 <= E(n), n >= 1, 0 <= k, k < n, E(k) < E(k + 1), E(z3.IntVal(0)) <= E(k)))
        c.assume(P(z3.IntVal(0)) == 0)
        c.prove("before the first interval there is nothing", P(z3.IntVal(0)) == before(z3.IntVal(0)), assume=False)
        c.prove("the last edge is after the call", before(n) == t1 - t0, assume=False)
        c.assume(P(k + 1) == P(k) + ov(k))
        c.assume(P(k) == before(k))
        c.prove("each interval adds its part", P(k + 1) == before(k + 1))


def contracts():
    return [TimeProfile(), Telescope()]


ASSUMPTIONS = NUMERIC + ["rows are in order of time on each process; calls are properly nested (as the statement says); the trace has a positive time span and Enter rows; at least one interval is asked for",
                         "no function is named idle_time, bin_start or bin_end",
                         "sum of the functions' values over all intervals: by the proved pointwise equations, the lemma on single calls and exchange of finite sums (up to the rounding of values below 0.01 to 0)"]
