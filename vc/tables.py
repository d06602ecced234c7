"""Trusted semantics of the pandas operations the code uses, over tables with an unbounded number of rows.

A table has rows 0..N-1 (N arbitrary); a frame is a subset of the rows of a table (given by a membership predicate, in row
order, keeping the row numbers as labels) with columns that are functions of the row; a series is one such function.  Every
operation is defined row by row, so a contract about all rows is checked at one arbitrary (Skolem) row.  Each definition is
tested against the installed pandas by vc/conformance.py.
"""
import z3
from engine import *
import engine, instrument
from instrument import SRange, Zip, mknum, CSet


class Table:
    """a universe of rows 0..N-1"""

    def __init__(self, name="T"):
        c = ctx()
        self.name = name
        self.id = len(c.env.setdefault("tables", []))
        c.env["tables"].append(self)
        self.n = c.fresh("N_" + name, I)
        c.assume(self.n >= 0)
        self.all = View(self, None)
        self.distinct = {}     # column -> number of distinct values
        self.tag = "row:%d" % self.id

    def row(self, r):
        """make r a row term (universals about rows are instantiated at it)"""
        return ctx().term(self.tag, r)

    def rows_universal(self, f):
        ctx().universal([self.tag], lambda r: z3.Implies(z3.And(0 <= r, r < self.n), z3.And(*[g for g in instrument.aslist(f(r))])))

    def skolem(self, name="r"):
        r = ctx().fresh(name, I)
        ctx().assume(z3.And(0 <= r, r < self.n))
        return self.row(r)


class View:
    """a subset of a table's rows in row order"""

    def __init__(self, table, member):
        self.table, self._m = table, member
        self._enum = None

    def member(self, r):
        inr = z3.And(0 <= r, r < self.table.n)
        return inr if self._m is None else z3.And(inr, self._m(r))

    @property
    def is_all(self):
        return self._m is None

    def filter(self, p):
        return View(self.table, p if self._m is None else (lambda r, m=self._m: z3.And(m(r), p(r))))

    def equals(self, o):
        """proof that the two views have the same rows"""
        if o is self:
            return True
        if o.table is not self.table:
            return False
        c = ctx()
        r = c.fresh("r", I)
        self.table.row(r)
        return c.x.check(c, self.member(r) == o.member(r))

    def enum(self):
        """(count, k -> row, row -> k)"""
        if self._enum:
            return self._enum
        c, t = ctx(), self.table
        if self.is_all:
            self._enum = (t.n, lambda k: k, lambda r: r, t.tag)
            return self._enum
        for v in t.__dict__.setdefault("views", []):
            if v._enum and v.equals(self):
                self._enum = v._enum
                return self._enum
        cnt, en, po = c.fresh("cnt", I), c.fresh_fn("row_at", I, I), c.fresh_fn("pos_of", I, I)
        tag = "pos:v%d" % c.nfresh
        c.assume(z3.And(cnt >= 0, cnt <= t.n))
        self._enum = (cnt, lambda k: en(k), lambda r: po(r), tag)
        t.views.append(self)
        c.env.setdefault("counts", []).append((cnt, self))

        def at(k):
            t.row(en(k))
            return z3.Implies(z3.And(0 <= k, k < cnt), z3.And(self.member(en(k)), po(en(k)) == k))

        def has(r):
            c.term(tag, po(r))
            return z3.Implies(self.member(r), z3.And(0 <= po(r), po(r) < cnt, en(po(r)) == r))

        def mono(j, k):
            return z3.Implies(z3.And(0 <= j, j < cnt, 0 <= k, k < cnt), (j < k) == (en(j) < en(k)))
        c.universal([tag], at)
        # the position of a row is a term of interest for rows the contract or the code names, not for rows reached through positions
        c.universal([t.tag], lambda r: None if is_enum_term(r) else has(r))
        c.universal([tag, tag], lambda j, k: mono(j, k) if not j.eq(k) else None)
        return self._enum

    def seq(self, fn):
        cnt, at, pos, tag = self.enum()
        return Seq(cnt, lambda k: fn(at(k)), tag, {"view": self, "fn": fn})


def is_enum_term(r):
    return z3.is_app(r) and r.num_args() == 1 and r.decl().name().startswith("row_at")


def view_of_count(n):
    """the view whose number of rows is this term"""
    for e, v in ctx().env.get("counts", []):
        if z3.is_expr(n) and (e.eq(n) or e.eq(z3.simplify(n))):
            return v
    for t in ctx().env.get("tables", []):
        if z3.is_expr(n) and (t.n.eq(n) or z3.simplify(n).eq(t.n)):
            return t.all
    n2 = z3.simplify(n)
    if z3.is_app(n2) and n2.decl().kind() == z3.Z3_OP_ITE:
        for ch in n2.children():
            v = view_of_count(ch) if not z3.is_int_value(ch) and ch.sort() == I else None
            if v is not None:
                return v
    return None


# ----------------------------------------------------------------------------- sums, existence, extrema over rows
class Registry:
    """terms defined by a function of the rows (or keys) of a domain; equal functions have equal terms (checked pointwise)"""

    def __init__(self, kind, sort):
        self.kind, self.sort = kind, sort
        self.items = []   # (domain, closure, const)


def _reg(kind, sort):
    return ctx().env.setdefault("reg", {}).setdefault(kind, Registry(kind, sort))


def _define(kind, sort, domain, f, compare, intro=None):
    c = ctx()
    reg = _reg(kind, sort)
    sk = c.fresh(kind + "_i", I)
    if isinstance(domain, Table):
        domain.row(sk)
    for d, g, k in reg.items:
        if (d is domain or isinstance(d, tuple) and d == domain) and c.x.check(c, compare(f, g, sk)):
            return k
    k = c.fresh(kind, sort)
    reg.items.append((domain, f, k))
    if intro:
        intro(k)
    return k


def SUM(domain, f):
    """sum over the domain of f (row or key -> z3 Real); domain a Table (rows 0..N-1) or any other hashable (keys)"""
    def g(r):
        e = f(r)
        e = z3.ToReal(e) if e.sort() == I else e
        return z3.If(z3.And(0 <= r, r < domain.n), e, z3.RealVal(0)) if isinstance(domain, Table) else e
    return _define("SUM", R, domain, g, lambda a, b, i: a(i) == b(i))


def EXISTS(domain, p):
    """some row (or key) satisfies p"""
    c = ctx()

    def g(r):
        return z3.And(0 <= r, r < domain.n, p(r)) if isinstance(domain, Table) else p(r)

    def intro(k):
        w = c.fresh("witness", I)
        if isinstance(domain, Table):
            domain.row(w)
            c.universal([domain.tag], lambda r: z3.Implies(g(r), k))
        else:
            c.universal([domain], lambda r: z3.Implies(g(r), k))
        c.assume(z3.Implies(k, g(w)))
    return _define("EXISTS", B, domain, g, lambda a, b, i: a(i) == b(i), intro)


def EXTREME(which, view, f):
    """the smallest / largest value of f over a non-empty view; equal views and functions have equal extremes"""
    c, t = ctx(), view.table

    def cmp(a, b, i):
        return z3.And(a[0](i) == b[0](i), z3.Implies(a[0](i), a[1](i) == b[1](i)))

    def intro(k):
        w = c.fresh("extreme_at", I)
        t.row(w)
        any_ = EXISTS(t, lambda r: view.member(r))
        c.assume(z3.Implies(any_, z3.And(view.member(w), real(f(w)) == k)))
        c.universal([t.tag], lambda r: z3.Implies(view.member(r), k <= real(f(r)) if which == "min" else k >= real(f(r))))
    return _define(which.upper(), R, t, (view.member, lambda r: real(f(r))), cmp, intro)


def real(e):
    e = expr(e) if not z3.is_expr(e) else e
    return z3.ToReal(e) if e.sort() == I else e


class ViewSum:
    """partial sums along a view's enumeration: PS(0) = 0, PS(k+1) = PS(k) + f(row_at(k)); PS(count) is the sum over its rows"""

    def __init__(self, view, f):
        c = ctx()
        self.view, self.f = view, f
        cnt, at, pos, tag = view.enum()
        ps = c.fresh_fn("PS", I, R)
        self.ps = lambda k: ps(k)
        c.assume(ps(z3.IntVal(0)) == 0)
        c.universal([tag], lambda k: z3.Implies(z3.And(0 <= k, k < cnt), ps(k + 1) == ps(k) + real(f(at(k)))))
        tot = SUM(view.table, lambda r: z3.If(view.member(r), real(f(r)), z3.RealVal(0)))
        c.assume(ps(cnt) == tot)
        self.total = tot


# ----------------------------------------------------------------------------- series
def lift2(f):
    def op(self, o):
        return self._bin(o, f)
    return op


class SSeries:
    """a column over a view; kind 'series' (labelled by row) or 'array' (positional, after .values)"""

    def __init__(self, view, fn, array=False, dtype=None, labels=None, name=None):
        self.view, self.fn, self.array, self.dtype = view, fn, array, dtype
        self.labels = labels      # set if the labels are not the row numbers
        self.name = name
        self.base = None

    def _like(self, fn, dtype=None):
        return SSeries(self.view, fn, self.array, dtype, self.labels, self.name)

    def _bin(self, o, f):
        if isinstance(o, SSeries):
            if o.view is not self.view:
                if o.array and self.array or o.labels or self.labels:
                    ok = o.view.equals(self.view)
                    ctx().prove("arrays combined position by position cover the same rows", ok)
                elif o.view.table is not self.view.table:
                    raise Unsupported("operation on series of different tables")
                elif not (o.array or self.array):
                    if not o.view.equals(self.view):
                        raise Unsupported("operation on series with different labels")
                else:
                    ctx().prove("arrays combined position by position cover the same rows", o.view.equals(self.view))
            if self.labels is not o.labels and not (self.array or o.array):
                raise Unsupported("operation on series with different labels")
            return SSeries(self.view, lambda r: f(self.fn(r), o.fn(r)), self.array and o.array, None, self.labels)
        return self._like(lambda r: f(self.fn(r), o))

    __add__ = lift2(lambda a, b: a + b)
    __radd__ = lift2(lambda a, b: b + a)
    __sub__ = lift2(lambda a, b: a - b)
    __rsub__ = lift2(lambda a, b: b - a)
    __mul__ = lift2(lambda a, b: a * b)
    __rmul__ = lift2(lambda a, b: b * a)
    __truediv__ = lift2(lambda a, b: a / b)
    __floordiv__ = lift2(lambda a, b: a // b)
    __mod__ = lift2(lambda a, b: a % b)
    __lt__ = lift2(lambda a, b: a < b)
    __le__ = lift2(lambda a, b: a <= b)
    __gt__ = lift2(lambda a, b: a > b)
    __ge__ = lift2(lambda a, b: a >= b)
    __eq__ = lift2(lambda a, b: eqv(a, b))
    __ne__ = lift2(lambda a, b: SBool(z3.Not(tobool(eqv(a, b)))))
    __and__ = lift2(lambda a, b: SBool(z3.And(tobool(a), tobool(b))))
    __rand__ = __and__
    __or__ = lift2(lambda a, b: SBool(z3.Or(tobool(a), tobool(b))))
    __ror__ = __or__
    __hash__ = None

    def __invert__(self):
        return self._like(lambda r: SBool(z3.Not(tobool(self.fn(r)))))

    def __neg__(self):
        return self._like(lambda r: -self.fn(r))

    def __bool__(self):
        raise Unsupported("truth value of a series")

    def __iter__(self):
        raise Unsupported("iteration over a series")

    # named forms
    def eq(self, o): return self == o
    def ne(self, o): return self != o
    def lt(self, o): return self < o
    def le(self, o): return self <= o
    def gt(self, o): return self > o
    def ge(self, o): return self >= o
    def sub(self, o): return self - o
    def add(self, o): return self + o
    def mul(self, o): return self * o
    def div(self, o): return self / o

    def isin(self, values):
        if hasattr(values, "vc_contains_value"):
            return self._like(lambda r: SBool(values.vc_contains_value(self.fn(r))))
        if isinstance(values, (SSeries, SSet)):
            f, v = (values.fn, values.view)
            c, t, old = ctx(), self.view.table, self.fn
            inn, wit = c.fresh_fn("is_in", I, B), c.fresh_fn("found_at", I, I)
            c.universal([t.tag], lambda r: z3.Implies(inn(r), z3.And(v.member(wit(r)), tobool(eqv(f(wit(r)), old(r))))))
            c.universal([t.tag, v.table.tag], lambda r, q: z3.Implies(z3.And(v.member(q), tobool(eqv(f(q), old(r)))), inn(r)))

            def fn(r):
                t.row(r)
                return SBool(inn(r))
            return self._like(fn)
        vals = list(freeze(values))
        return self._like(lambda r: SBool(z3.Or(*[tobool(eqv(self.fn(r), v)) for v in vals])) if vals else SBool(z3.BoolVal(False)))

    def notnull(self):
        return self._like(lambda r: SBool(z3.Not(nullof(self.fn(r)))))
    notna = notnull

    def isnull(self):
        return self._like(lambda r: SBool(nullof(self.fn(r))))
    isna = isnull

    def applied(self, f):
        r = ctx().fresh("each", I)
        self.view.table.row(r)
        return applied(snap(f), lambda: self.fn(r), self.view.member(r))

    def apply(self, f):
        f = self.applied(f)
        return self._like(lambda r: f(self.fn(r)))

    def map(self, f):
        if isinstance(f, (dict, SDict)):
            raise Unsupported("Series.map of a dict")
        if hasattr(f, "vc_lookup"):
            return self._like(lambda r: f.vc_lookup(self.fn(r)))
        f = self.applied(f)
        return self._like(lambda r: f(self.fn(r)))

    @property
    def values(self):
        return SSeries(self.view, self.fn, True, self.dtype)

    def to_numpy(self):
        return self.values

    def to_list(self):
        s = self.view.seq(self.fn)
        v = s.at(ctx().fresh("j", I))
        if is_sym(v):
            l = SList(None, s.length(), s._at, kind_of(v))
            l.tag = s.tag
            l.meta = {"view": self.view, "fn": self.fn}
            return l
        return s
    tolist = to_list

    def vc_list(self):
        return self.to_list()

    def vc_iter(self):
        return self.view.seq(self.fn)

    def vc_set(self):
        return SSet(self.view, self.fn, self)

    def unique(self):
        return SSet(self.view, self.fn, self)

    def nunique(self, dropna=True):
        if isinstance(self.fn(z3.IntVal(0)), SMaybe):
            raise Unsupported("nunique of a column with missing values")
        return SSet(self.view, self.fn, self).size

    def vc_zip(self, xs):
        if all(isinstance(x, SSeries) for x in xs):
            return SSeries(self.view, lambda r: tuple(x.fn(r) for x in xs), True) if all(x.view is self.view or x.view.equals(self.view) for x in xs) else None
        return Zip([x.vc_iter() if isinstance(x, SSeries) else x for x in xs])

    @property
    def index(self):
        if self.labels:
            raise Unsupported("index of a series labelled by values")
        return SIndex(self.view)

    def vc_len(self):
        return self.view.enum()[0]

    @property
    def empty(self):
        return SBool(self.view.enum()[0] == 0)

    def copy(self, deep=True):
        return self._like(self.fn, self.dtype)

    def astype(self, dt):
        dt = getattr(dt, "vc_pytype", dt)
        nullable = isinstance(dt, str) and dt[:1] in "IU" and dt.lower() in INT_TYPES
        dt = dt.lower() if isinstance(dt, str) and dt.lower() in INT_TYPES else dt
        if not nullable and (dt is int or dt == "int" or dt in INT_TYPES):
            r = ctx().fresh("r", I)
            self.view.table.row(r)
            n = z3.simplify(nullof(self.fn(r)))
            if not z3.is_false(n):
                ctx().prove("no missing value is converted to an integer", z3.Implies(self.view.member(r), z3.Not(n)))
        if dt in INT_TYPES and dt not in ctx().env.get("wide", ("int32", "int64", "uint32", "uint64")):
            lo, hi = INT_TYPES[dt]
            r = ctx().fresh("r", I)
            self.view.table.row(r)
            v = self.fn(r)
            ctx().prove("values converted to %s fit" % dt, z3.Implies(z3.And(self.view.member(r), z3.Not(nullof(v))), z3.And(lo <= valof(v), valof(v) <= hi)))
        if dt is int or dt == "int" or dt in INT_TYPES:
            def f(r):
                v = self.fn(r)
                return SMaybe(v.null, toint(v.val)) if isinstance(v, SMaybe) else toint(v)
            return self._like(f, str(dt))
        if dt is float or dt in ("float", "float64"):
            return self._like(lambda r: instrument.sfloat(self.fn(r)), "float")
        if dt in ("category", "object"):
            return self._like(self.fn, dt)
        raise Unsupported("astype %r" % (dt,))

    def replace(self, a, b=None, inplace=False):
        old = self.fn
        if hasattr(a, "vc_lookup"):
            def g(r):
                v = a.vc_lookup(old(r))
                return ite(v.null, old(r), v.val) if isinstance(v, SMaybe) else v
            return self.replaced(g, inplace)
        pairs = list(a.items()) if isinstance(a, (dict, SDict)) else list(zip(list(a), list(b))) if not isinstance(a, str) else [(a, b)]

        def f(r):
            v = old(r)
            out = v
            for x, y in reversed(pairs):
                out = ite(tobool(eqv(v, x)), y, out)
            return out
        return self.replaced(f, inplace)

    def replaced(self, f, inplace):
        if not inplace:
            return self._like(f)
        if self.base is None or not isinstance(self.name, str):
            raise Unsupported("replacement in place")
        self.base.set_col(self.name, f)       # a column taken from its frame is changed in the frame (pandas 2.x)
        self.fn = f
        return None

    def __getitem__(self, k):
        if isinstance(k, SSeries):
            probe = k.fn(ctx().fresh("r", I))
            if isinstance(probe, SBool):
                return SSeries(self.view.filter(lambda r: tobool(k.fn(r))), self.fn, self.array, self.dtype, self.labels)
            # labels: the values of k name rows of self
            c = ctx()
            if self.labels:
                raise Unsupported("lookup in a series whose labels are not the row numbers")
            r = c.fresh("r", I)
            self.view.table.row(r)
            v = k.fn(r)
            nul, e = (v.null, expr(v.val)) if isinstance(v, SMaybe) else (z3.BoolVal(False), expr(v))
            e = z3.ToInt(e) if e.sort() == R else e
            self.view.table.row(e)
            c.prove("no KeyError (labels of a series lookup exist)", z3.Implies(k.view.member(r), z3.And(z3.Not(nul), self.view.member(e))))

            def f(r):
                v = k.fn(r)
                e = expr(v.val if isinstance(v, SMaybe) else v)
                e = z3.ToInt(e) if e.sort() == R else e
                self.view.table.row(e)
                return self.fn(e)
            return SSeries(k.view, f, False, self.dtype, labels=k)
        if self.labels and not isinstance(k, slice):
            raise Unsupported("lookup in a series whose labels are not the row numbers")
        if isinstance(k, (int, SNum)):
            e = idx_expr(k)
            ctx().prove("no KeyError (label of a series lookup exists)", self.view.member(e))
            self.view.table.row(e)
            return self.fn(e)
        if isinstance(k, slice) and k == slice(None, None, None):
            return self
        raise Unsupported("series indexed by %s" % type(k).__name__)

    @property
    def loc(self):
        return self

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def at(self):
        return self

    def sum(self):
        f = lambda r: z3.If(z3.And(self.view.member(r), z3.Not(nullof(self.fn(r)))), real(valof(self.fn(r))), z3.RealVal(0))
        return SNum(SUM(self.view.table, f))
    vc_sum = sum

    def min(self): return SNum(EXTREME("min", self.view, self.fn))
    def max(self): return SNum(EXTREME("max", self.view, self.fn))
    def vc_minmax(self, w): return SNum(EXTREME(w, self.view, self.fn))

    def where(self, cond, other=None):
        return self._like(lambda r: ite(tobool(cond.fn(r)), self.fn(r), nan_like(self.fn(r)) if other is None else other.fn(r) if isinstance(other, SSeries) else other))

    def equals(self, o):
        """same values in the same order (the columns compared have the same dtype: integers)"""
        if not (isinstance(o, SSeries) and (o.view is self.view or o.view.equals(self.view))):
            raise Unsupported("Series.equals")
        return SBool(z3.Not(EXISTS(self.view.table, lambda r: z3.And(self.view.member(r), z3.Not(same(self.fn(r), o.fn(r)))))))

    def vc_kind(self):
        return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("Series.%s" % a)


class ILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, (int, SNum)):
            cnt, at, pos, tag = self.s.view.enum()
            e = idx_expr(k)
            e = z3.simplify(z3.If(e < 0, e + cnt, e))
            ctx().prove("no IndexError", z3.And(0 <= e, e < cnt))
            ctx().term(tag, e)
            r = at(e)
            self.s.view.table.row(r)
            return self.s.fn(r) if isinstance(self.s, SSeries) else unsupported("frame.iloc[row]")
        raise Unsupported("iloc slice")


INT_TYPES = {k + str(b): (0 if k == "uint" else -2 ** (b - 1), 2 ** (b if k == "uint" else b - 1) - 1) for k in ("int", "uint") for b in (8, 16, 32, 64)}


def unsupported(w):
    raise Unsupported(w)


def toint(v):
    if isnan(v):
        return v
    return instrument.sint(v)


def nan_like(v):
    return SMaybe(True, v.val if isinstance(v, SMaybe) else v)


def eqv(a, b):
    """== on cells: a missing value equals nothing"""
    r = a == b
    if r is NotImplemented:
        raise Unsupported("comparison")
    return SBool(r) if isinstance(r, bool) else r


def nullof(v):
    if isinstance(v, SMaybe):
        return v.null
    if v is None or isnan(v):
        return z3.BoolVal(True)
    if hasattr(v, "vc_is_none"):
        return tobool(v.vc_is_none())
    return z3.BoolVal(False)


def valof(v):
    return expr(v.val if isinstance(v, SMaybe) else v)


class SIndex(SSeqBase):
    """the labels of a view (row numbers)"""

    def __init__(self, view):
        self.view = view
        cnt, at, pos, tag = view.enum()
        self.tag = tag
        self.meta = {"view": view, "fn": lambda r: SNum(r), "inverse": None}

    def length(self): return self.view.enum()[0]

    def at(self, k): return mknum(self.view.enum()[1](k))
    def to_list(self): return self.vc_list()
    tolist = to_list

    @property
    def values(self): return SSeries(self.view, lambda r: SNum(r), True)

    def vc_list(self):
        return SSeries(self.view, lambda r: SNum(r)).to_list()

    def vc_set(self):
        return RowSet(self.view)

    def vc_contains(self, x):
        e = idx_expr(x)
        self.view.table.row(e)
        return SBool(self.view.member(e))

    def vc_contains_value(self, v):
        return self.view.member(expr(v))

    # as the keys of a dict: labels are distinct
    def E(self, k): return [self.view.enum()[1](k)]

    def vc_value_at(self, v):
        """(is it a label, its position)"""
        e = idx_expr(v)
        c = ctx()
        cnt, at, pos, tag = self.view.enum()
        self.view.table.row(e)
        k = pos(e)
        c.term(tag, k)
        m = self.view.member(e)
        c.assume(z3.Implies(m, z3.And(0 <= k, k < cnt, at(k) == e)))
        return m, k

    def __getitem__(self, k):
        return seq_get(self, k)

    def isin(self, vals):
        return SSeries(self.view, lambda r: SNum(r)).isin(vals)

    @property
    def size(self): return mknum(self.length())

    def vc_kind(self): return ("fixed", self)


class RowSet:
    def __init__(self, view):
        self.view = view

    def vc_contains(self, x):
        e = idx_expr(x)
        self.view.table.row(e)
        return SBool(self.view.member(e))
    vc_contains_value = lambda self, v: self.view.member(expr(v))
    def vc_len(self): return self.view.enum()[0]


class SSet(SSeqBase):
    """the set of the values of a column over a view, iterated in an arbitrary order, each value once"""

    def __init__(self, view, fn, series=None):
        c, t = ctx(), view.table
        self.view, self.fn = view, fn
        probe = fn(c.fresh("r", I))
        self.arity = len(probe) if isinstance(probe, tuple) else 1
        self.kinds = [kind_of(x) for x in probe] if isinstance(probe, tuple) else [kind_of(probe)]
        if any(k[0] not in SORTS for k in self.kinds):
            raise Unsupported("set of values of kind %r" % (self.kinds,))
        sorts = [SORTS[k[0]] for k in self.kinds]
        self.n = c.fresh("nvals", I)
        c.assume(self.n >= 0)
        es = [c.fresh_fn("val_at", I, s) for s in sorts]
        rank = c.fresh_fn("rank", *(sorts + [I]))
        wit = c.fresh_fn("occurs_at", I, I)
        self.tag = "pos:s%d" % c.nfresh
        self.E, self.rank = (lambda k: [e(k) for e in es]), rank
        tup = lambda r: [expr(x) for x in fn(r)] if self.arity > 1 or isinstance(fn(r), tuple) else [expr(fn(r))]
        self.tup = tup

        def at(k):
            t.row(wit(k))
            return z3.Implies(z3.And(0 <= k, k < self.n), z3.And(rank(*self.E(k)) == k, view.member(wit(k)), *[x == y for x, y in zip(tup(wit(k)), self.E(k))]))

        def has(r):
            if z3.is_app(r) and r.decl().name().startswith("occurs_at"):
                return None
            k = rank(*tup(r))
            c.term(self.tag, k)
            return z3.Implies(view.member(r), z3.And(0 <= k, k < self.n, *[x == y for x, y in zip(self.E(k), tup(r))]))
        c.universal([self.tag], at)
        c.universal([t.tag], has)
        d = c.env.get("distinct")
        if d:
            d(self, series)
        c.env.setdefault("sets", []).append(self)

    def length(self): return self.n

    def at(self, k):
        v = [wrap(kd, e) for kd, e in zip(self.kinds, self.E(k))]
        return tuple(v) if isinstance(self.fn(z3.IntVal(0)), tuple) else v[0]

    def vc_contains(self, v):
        vs = v if isinstance(v, tuple) else (v,)
        return SBool(EXISTS(self.view.table, lambda r: z3.And(self.view.member(r), *[x == expr(y) for x, y in zip(self.tup(r), vs)])))

    def vc_value_at(self, v):
        """(is v in the set, its position)"""
        vs = [expr(y) for y in (v if isinstance(v, tuple) else (v,))]
        k = self.rank(*vs)
        ctx().term(self.tag, k)
        return z3.And(0 <= k, k < self.n, *[x == y for x, y in zip(self.E(k), vs)]), k

    def tolist(self): return self
    to_list = tolist
    def vc_list(self): return self
    def vc_set(self): return self
    def vc_sorted(self, key, reverse):
        return self     # some order, as before (that it is sorted is not known)
    def vc_kind(self): return ("fixed", self)

    @property
    def size(self): return mknum(self.n)


# ----------------------------------------------------------------------------- frames
class Labels:
    """row labels that are not the row numbers; fn gives them where they are known"""

    def __init__(self, fn=None):
        self.fn = fn

    def moved(self, back):
        return Labels(self.fn and (lambda k: self.fn(back(k))))


class LabelIndex:
    """the labels of a frame"""

    def __init__(self, frame):
        self.frame = frame

    def label(self, r):
        return self.frame.labels.fn(r)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("labels.%s" % a)


class Col:
    __slots__ = ("fn", "dtype", "shared", "key")

    def __init__(self, fn, dtype=None, shared=False):
        self.fn, self.dtype, self.shared = fn, dtype, shared


class SFrame(SObj):
    """a DataFrame over a view.  Columns with literal names are kept by name; `family` gives columns with symbolic names."""

    def __init__(self, view, cols=None, family=None):
        SObj.__init__(self)
        self.view = view
        self.cols = dict(cols or {})     # name -> Col (literal names)
        self.family = family             # (presence(nameexpr) -> z3 Bool, fn(nameexpr, row) -> value), or None
        self.writes = []                 # [(SName, Col)] newest last
        self.maybe = {}                  # literal name -> z3 Bool: column present? (columns whose presence is not known)
        self.labels = None               # set if the row labels are not the row numbers (after sorting, concatenation)

    # -- columns
    def has(self, name):
        """z3 Bool: does the column exist"""
        if isinstance(name, str):
            r = self.maybe.get(name, z3.BoolVal(True)) if name in self.cols else z3.BoolVal(False)
            if name not in self.cols and self.family:
                r = self.family[0](z3.IntVal(code(name)))
            for k, _ in self.writes:
                r = z3.Or(r, k.e == code(name))
            return r
        e = nameexpr(name)
        r = self.family[0](e) if self.family else z3.BoolVal(False)
        for n in self.cols:
            p = self.maybe.get(n, z3.BoolVal(True))
            r = z3.If(e == code(n), p, r)
        for k, _ in self.writes:
            r = z3.Or(r, k.e == e)
        return r

    def colfn(self, name):
        """row -> value of the column of that name, as it is now"""
        cols, writes, family = dict(self.cols), list(self.writes), self.family
        if isinstance(name, str) and not writes:
            if name in cols:
                return cols[name].fn
            if family:
                return lambda r: family[1](z3.IntVal(code(name)), r)
            raise Unsupported("column %s of unknown content" % name)
        e = nameexpr(name)

        def mix(cond, a, b):
            if a is None or b is None:
                return a if b is None else b
            cond = z3.simplify(cond)
            if z3.is_false(cond):
                return b
            try:
                return ite(cond, a, b)
            except Unsupported:      # columns of different kinds: fine only if the names cannot be equal
                if ctx().sat(cond) != z3.unsat:
                    raise
                return b

        def fn(r):
            if isinstance(name, str) and name in cols:
                base = cols[name].fn(r)
            else:
                base = family[1](e, r) if family else None
                if not isinstance(name, str):
                    for n, col in cols.items():
                        base = mix(e == code(n), col.fn(r), base)
            for k, col in writes:
                base = mix(k.e == e, col.fn(r), base)
            return base
        return fn

    def famfn(self, e):
        """row -> value of a column known not to be one of the columns with fixed names"""
        family, writes = self.family, list(self.writes)

        def fn(r):
            base = family[1](e, r)
            for k, col in writes:
                base = ite(k.e == e, col.fn(r), base)
            return base
        return fn

    def check_col(self, name):
        h = z3.simplify(self.has(name))
        if z3.is_true(h):
            return
        ctx().prove("no KeyError (column %s exists)" % (name if isinstance(name, str) else "named symbolically"), h)

    def series(self, name):
        self.check_col(name)
        fn = self.colfn(name)
        s = SSeries(self.view, fn, dtype=self.cols[name].dtype if isinstance(name, str) and name in self.cols else None, name=name, labels=self.labels)
        s.base = self
        return s

    def set_col(self, name, fn, dtype=None):
        self.touch(*(["col:" + name] if isinstance(name, str) else []))
        if isinstance(name, str):
            name_in_writes = any(ctx().sat(k.e == code(name)) != z3.unsat for k, _ in self.writes)
            if not name_in_writes:
                self.cols[name] = Col(fn, dtype)
                self.maybe.pop(name, None)
                return
            name = SName(z3.IntVal(code(name)))
        self.writes.append((name, Col(fn, dtype)))

    # -- protocol
    def __getitem__(self, k):
        if isinstance(k, (str, SName)):
            return self.series(k)
        if isinstance(k, SSeries):
            return self.select(k)
        if isinstance(k, ColumnNames):
            return k.frame(self)
        if isinstance(k, (list, SList)):
            names = list(k)
            if names and isinstance(names[0], (str, SName)):
                return self.project(names)
        raise Unsupported("frame indexed by %s" % type(k).__name__)

    def project(self, names):
        f = SFrame(self.view)
        for n in names:
            self.check_col(n)
            if not isinstance(n, str):
                f.writes.append((n, Col(self.colfn(n))))
            else:
                f.cols[n] = Col(self.colfn(n), self.cols[n].dtype if n in self.cols else None)
        return f

    def select(self, mask):
        if not isinstance(mask, SSeries):
            raise Unsupported("selection by %s" % type(mask).__name__)
        if mask.view is not self.view:
            if mask.view.table is not self.view.table:
                raise Unsupported("mask of another table")
            # label alignment: every row of self must be covered by the mask
            c = ctx()
            r = c.fresh("r", I)
            self.view.table.row(r)
            c.prove("the mask covers the rows selected from", z3.Implies(self.view.member(r), mask.view.member(r)))
        return self.with_view(self.view.filter(lambda r: tobool(mask.fn(r))))

    def with_view(self, view):
        f = SFrame(view, {n: Col(k.fn, k.dtype) for n, k in self.cols.items()}, self.family)
        f.writes = list(self.writes)
        f.maybe = dict(self.maybe)
        f.labels = self.labels
        return f

    # -- new tables: other row orders
    def moved(self, table, back, labels):
        """the contents of a frame whose row k is row back(k) of this one"""
        f = SFrame(table.all, {n: Col(lambda k, fn=col.fn: fn(back(k)), col.dtype) for n, col in self.cols.items()})
        if self.family:
            h, g = self.family
            f.family = (h, lambda e, k: g(e, back(k)))
        f.writes = [(n, Col(lambda k, fn=col.fn: fn(back(k)), col.dtype)) for n, col in self.writes]
        f.maybe, f.labels = dict(self.maybe), labels
        return f

    def become(self, f, inplace):
        if not inplace:
            return f
        self.touch()
        self.__dict__.update(view=f.view, cols=f.cols, family=f.family, writes=f.writes, maybe=f.maybe, labels=f.labels)
        return None

    def sort_values(self, by, axis=0, ascending=True, inplace=False, kind="quicksort", na_position="last", ignore_index=False, key=None):
        """rows in order of the keys, missing keys last; rows with equal keys keep their order if the sort is stable (sorting by
        several columns is: pandas sorts lexicographically by stable sorts), else come in an arbitrary order"""
        if axis not in (0, "index") or na_position != "last" or key is not None:
            raise Unsupported("sort_values with these arguments")
        names = columns_of(by)
        asc = [ascending] * len(names) if isinstance(ascending, bool) else list(ascending)
        for n in names:
            self.check_col(n)
        fns = [self.colfn(n) for n in names]
        stable = len(names) > 1 or kind in ("stable", "mergesort")
        if kind not in ("stable", "mergesort", "quicksort", "heapsort"):
            raise Unsupported("sort kind %r" % (kind,))

        def le(a, b, strict):
            """keys of row a come before those of row b (or are equal, unless strict)"""
            r = z3.BoolVal(not strict)
            for fn, up in reversed(list(zip(fns, asc))):
                x, y = fn(a), fn(b)
                if not isinstance(x, (SNum, SMaybe)) or isinstance(x, SMaybe) and not isinstance(x.val, SNum):
                    raise Unsupported("sorting by a column that is not numeric")
                nx, ny, vx, vy = nullof(x), nullof(y), real(valof(x)), real(valof(y))
                lt = z3.Or(z3.And(z3.Not(nx), ny), z3.And(z3.Not(nx), z3.Not(ny), vx < vy if up else vx > vy))
                eq = z3.Or(z3.And(nx, ny), z3.And(z3.Not(nx), z3.Not(ny), vx == vy))
                r = z3.Or(lt, z3.And(eq, r))
            return r
        t, back, fwd = permuted(self.view, "sorted")
        c = ctx()
        fwd_term = lambda e: z3.is_app(e) and e.num_args() == 1 and e.decl().name().startswith("went_to")

        def order(j, k):
            if j.eq(k) or fwd_term(j) or fwd_term(k):     # stated for rows the contract or the code names
                return None
            inr = z3.And(0 <= j, j < k, k < t.n)
            a, b = back(j), back(k)
            return z3.Implies(inr, z3.And(le(a, b, False), z3.Or(le(a, b, True), a < b) if stable else True))
        c.universal([t.tag, t.tag], order)
        f = self.moved(t, back, None if ignore_index else self.labels.moved(back) if self.labels else Labels())
        return self.become(f, inplace)

    def reset_index(self, level=None, drop=False, inplace=False):
        if level is not None or not drop:
            raise Unsupported("reset_index without drop")
        if self.view.is_all:
            f = self.with_view(self.view)
            f.labels = None
        else:
            t, back, fwd = renumbered(self.view)
            f = self.moved(t, back, None)
        return self.become(f, inplace)

    def rename(self, mapper=None, index=None, columns=None, axis=None, inplace=False, **kw):
        m = columns if columns is not None else mapper if axis in (1, "columns") else None
        if m is None or index is not None or kw or not isinstance(m, (dict, SDict)):
            raise Unsupported("rename with these arguments")
        f = self.with_view(self.view)
        for old, new in m.items():
            if not (isinstance(old, str) and isinstance(new, str)):
                raise Unsupported("rename of symbolic columns")
            h = z3.simplify(self.has(old))
            if z3.is_false(h):
                continue
            if not z3.is_true(h):
                if not ctx().branch(h):
                    f.cols.pop(old, None), f.maybe.pop(old, None)
                    continue
            if old not in self.cols or self.writes:
                raise Unsupported("rename of this column")
            ctx().prove("renaming does not make a duplicate column (%s)" % new, z3.Not(self.has(new)))
            col = f.cols.pop(old)
            f.maybe.pop(old, None)
            f.cols[new] = col
            f.maybe.pop(new, None)
        return self.become(f, inplace)

    def drop(self, labels=None, axis=0, columns=None, inplace=False, **kw):
        names = columns if columns is not None else labels if axis in (1, "columns") else None
        if names is None or kw:
            raise Unsupported("drop with these arguments")
        f = self.with_view(self.view)
        for n in columns_of(names):
            if not isinstance(n, str) or self.writes:
                raise Unsupported("drop of a symbolic column")
            self.check_col(n)
            f.drop_col(n)
        return self.become(f, inplace)

    def drop_col(self, n):
        self.cols.pop(n, None), self.maybe.pop(n, None)
        if self.family:
            h, g = self.family
            self.family = (lambda e: z3.And(e != code(n), h(e)), g)

    def pop(self, n):
        s = self.series(n)
        self.touch()
        self.drop_col(n)
        return s

    def vc_list(self): return ColumnNames(self)

    def select_dtypes(self, include=None, exclude=None):
        return SomeColumns()

    def __setitem__(self, k, v):
        if isinstance(k, (str, SName)):
            fn, dt = self.as_column(v)
            self.set_col(k, fn, dt)
            return
        raise Unsupported("frame assignment by %s" % type(k).__name__)

    def as_column(self, v):
        """(row -> value) for a value assigned to a column of this frame"""
        c = ctx()
        if isinstance(v, SSeries):
            if not v.array and v.labels is not self.labels:
                raise Unsupported("a series with other labels assigned to a column")
            if v.array or v.labels:
                c.prove("values assigned to a column cover its rows, in order", v.view.equals(self.view))
                return v.fn, None
            if v.view is self.view or v.view.equals(self.view):
                return v.fn, v.dtype
            if v.view.table is not self.view.table:
                raise Unsupported("series of another table assigned to a column")
            return (lambda r: ite(v.view.member(r), v.fn(r), nan_like(v.fn(r)))), None
        if isinstance(v, SList) or isinstance(v, Seq):
            cnt, at, pos, tag = self.view.enum()
            c.prove("a list assigned to a column has one value per row", v.length() == cnt)
            lst = v = freeze(v)
            src = v._at if not (isinstance(v, SList) and v.concrete) else v.at

            def fn(r):
                p = pos(r)
                if lst.tag:
                    c.term(lst.tag, p)
                return src(p)
            return fn, None
        if isinstance(v, list):
            raise Unsupported("concrete list assigned to a column")
        if isinstance(v, (int, float, str, bool)) or is_sym(v) or v is None:
            return (lambda r: v), None
        raise Unsupported("assignment of %s to a column" % type(v).__name__)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        if a in self.__dict__.get("cols", {}):
            return self.series(a)
        raise Unsupported("DataFrame.%s" % a)

    @property
    def columns(self):
        return Columns(self)

    @property
    def index(self):
        if self.labels and self.labels.fn:
            return LabelIndex(self)
        if self.labels:
            raise Unsupported("the labels of rows that are not the row numbers")
        return SIndex(self.view)

    @index.setter
    def index(self, v):
        if not isinstance(v, SSeqBase) or not self.view.is_all or isinstance(v, SSeries):
            raise Unsupported("assignment of labels")
        ctx().prove("no ValueError (number of labels)", v.length() == self.view.table.n)
        v = freeze(v)
        self.touch()

        def fn(r):
            if getattr(v, "tag", None):
                ctx().term(v.tag, r)
            return v.at(r)
        self.labels = Labels(fn)

    def set_index(self, keys, drop=True, inplace=False):
        names = columns_of(keys)
        if len(names) != 1 or isinstance(keys, (list, SList)) or not drop:
            raise Unsupported("set_index with these arguments")
        self.check_col(names[0])
        fn = self.colfn(names[0])
        f = self.drop(columns=[names[0]])
        f.labels = Labels(fn)
        return self.become(f, inplace)

    @property
    def loc(self):
        return Loc(self)

    @property
    def shape(self):
        return (mknum(self.view.enum()[0]), mknum(z3.IntVal(len(self.cols))))

    @property
    def empty(self):
        return SBool(self.view.enum()[0] == 0)

    def vc_len(self):
        return self.view.enum()[0]

    def rename_axis(self, name):
        f = self.with_view(self.view)
        f.axis = name
        return f

    def copy(self, deep=True):
        f = self.with_view(self.view)
        if not deep:
            for n in f.cols:
                f.cols[n].shared = True
        return f

    def astype(self, m):
        f = self.with_view(self.view)
        if not isinstance(m, (dict, SDict)):
            raise Unsupported("astype of a whole frame")
        for n, dt in m.items():
            self.check_col(n)
            s = self.series(n).astype(dt)
            if isinstance(n, str) and n in f.cols:
                f.cols[n] = Col(s.fn, s.dtype)
            else:
                f.writes.append((n if isinstance(n, SName) else SName(z3.IntVal(code(n))), Col(s.fn, s.dtype)))
        f.parent = self
        return f

    def assign(self, **kw):
        f = self.copy()
        for n, v in kw.items():
            f[n] = v(f) if callable(v) and not isinstance(v, (SSeries, SList)) else v
        return f

    def groupby(self, by, observed=False, **kw):
        if kw:
            raise Unsupported("groupby with %s" % ", ".join(kw))
        keys = columns_of(by)
        for k in keys:
            self.check_col(k)
        return GroupBy(self.vc_freeze(), keys, observed)

    def vc_kind(self):
        return ("obj", self.oid)

    def vc_freeze(self):
        import copy
        o = copy.copy(self)
        o.cols, o.writes, o.maybe = dict(self.cols), list(self.writes), dict(self.maybe)
        return o

    # -- loops: a loop may add columns (literal names: contents havocked; symbolic names: see havoc_family)
    def info(self):
        return ()

    def havoc(self, info, name="df", aspects=()):
        c = ctx()
        for n in sorted(a[4:] for a in aspects if a.startswith("col:")):        # columns with literal names assigned in the loop: numeric ones join the family
            if n in self.cols:
                k = kind_of(self.cols[n].fn(c.fresh("r", I)))
                if (k[1] if k[0] == "maybe" else k)[0] not in ("int", "real", "undef", "none"):
                    raise Unsupported("a loop assigns the column %s" % n)
                del self.cols[n]
                self.maybe.pop(n, None)
        has, fam = c.fresh_fn("has_col", I, B), c.fresh_fn("col", I, I, R)
        nul = c.fresh_fn("col_null", I, I, B)
        self.writes = []
        self.family = (lambda e: has(e), lambda e, r: SMaybe(nul(e, r), SNum(fam(e, r))))
        self.havocked = True


class Columns:
    def __init__(self, f):
        self.f = f

    def vc_contains(self, name):
        return SBool(self.f.has(name))

    def __contains__(self, name):
        return bool(SBool(self.f.has(name)))

    def __iter__(self):
        if self.f.family or self.f.maybe or self.f.writes:
            raise Unsupported("iteration over the columns")
        return iter(list(self.f.cols))

    def vc_list(self):
        return SList(list(self))

    @property
    def values(self):
        return SList(list(self))


class SomeColumns:
    """the columns of certain dtypes: some of the frame's columns"""

    @property
    def columns(self): return self
    @property
    def values(self): return self
    def vc_list(self): return SymCols(SName(ctx().fresh("numeric_col", I)))
    to_list = tolist = vc_list
    def vc_kind(self): return ("fixed", self)


class ColumnPos:
    """the position of a column in a list of a frame's columns"""

    def __init__(self, name): self.name = name
    def vc_kind(self): return ("fixed", self)


class ColumnNames:
    """list(frame): the names of its columns (each once, as long as nothing is popped or inserted)"""

    def __init__(self, f):
        self.f = f.vc_freeze() if isinstance(f, SFrame) else f
        self.delta = {}

    def index(self, n):
        if not isinstance(n, str):
            raise Unsupported("position of a symbolic column")
        if self.delta.get(n):
            raise Unsupported("position of a column popped or inserted")
        self.f.check_col(n)
        return ColumnPos(n)

    def vc_contains(self, n):
        if any(self.delta.values()):
            raise Unsupported("membership in a changed list of columns")
        return SBool(self.f.has(n))

    def __contains__(self, n): return bool(self.vc_contains(n))

    def change(self, n, d):
        self.delta[n] = self.delta.get(n, 0) + d

    def pop(self, p):
        if not isinstance(p, ColumnPos):
            raise Unsupported("pop from a list of columns by position")
        self.change(p.name, -1)
        return p.name

    def remove(self, n): self.pop(self.index(n))

    def insert(self, p, n):
        if not isinstance(n, str):
            raise Unsupported("insertion of a symbolic column")
        self.change(n, 1)

    def append(self, n): self.insert(None, n)

    def frame(self, f):
        """f[list of columns]"""
        g = f.with_view(f.view)
        for n, d in self.delta.items():
            if d > 0:
                raise Unsupported("a column listed twice")
            if d < 0:
                g.drop_col(n)
        return g

    def __iter__(self):
        raise Unsupported("iteration over the columns")

    def vc_kind(self): return ("fixed", self)


# ----------------------------------------------------------------------------- other row orders
def permuted(view, name):
    """a new table whose rows are the rows of a view in another order: (table, row -> old row, old row -> row)"""
    c = ctx()
    t, old = Table(name), view.table
    cnt = view.enum()[0]
    c.assume(t.n == cnt)
    src, dst = c.fresh_fn("came_from", I, I), c.fresh_fn("went_to", I, I)

    def at(k):
        old.row(src(k))
        return z3.Implies(z3.And(0 <= k, k < t.n), z3.And(view.member(src(k)), dst(src(k)) == k))

    def has(r):
        if z3.is_app(r) and r.num_args() == 1 and r.decl().eq(src(z3.IntVal(0)).decl()):
            return None
        t.row(dst(r))
        return z3.Implies(view.member(r), z3.And(0 <= dst(r), dst(r) < t.n, src(dst(r)) == r))
    c.universal([t.tag], at)
    c.universal([old.tag], has)
    t.origin = [(view, lambda k: z3.And(0 <= k, k < t.n), lambda k: src(k), lambda r: dst(r))]
    return t, (lambda k: src(k)), (lambda r: dst(r))


def renumbered(view):
    """a new table with the rows of a view, in their order"""
    c = ctx()
    t = Table("renumbered")
    cnt, at, pos, tag = view.enum()
    c.assume(t.n == cnt)

    def back(k):
        c.term(tag, k)
        return at(k)
    c.universal([t.tag], lambda k: (c.term(tag, k), None)[1])
    c.universal([tag], lambda k: (t.row(k), None)[1])
    t.origin = [(view, lambda k: z3.And(0 <= k, k < t.n), back, pos)]
    return t, back, pos


def pd_concat(objs, axis=0, ignore_index=False, **kw):
    """the rows of the frames, one frame after the other"""
    fs = list(objs)
    if axis not in (0, "index") or kw or not fs or not all(isinstance(f, SFrame) and f.view is not None for f in fs):
        raise Unsupported("concat with these arguments")
    c = ctx()
    t = Table("concat")
    enums = [f.view.enum() for f in fs]
    starts, off = [], z3.IntVal(0)
    for e in enums:
        starts.append(off)
        off = off + e[0]
    c.assume(t.n == off)
    t.origin = []
    made = {}        # row terms made here (and not turned back: the two directions are inverse by arithmetic)
    for f, (cnt, at, pos, tag), st in zip(fs, enums, starts):
        here = lambda k, st=st, cnt=cnt: z3.And(st <= k, k < st + cnt)
        def down(k, tag=tag, st=st):
            if k.get_id() not in made:
                e = z3.simplify(k - st)
                made[e.get_id()] = e
                c.term(tag, e)

        def up(r, pos=pos, st=st):
            if r.get_id() not in made and not is_enum_term(r):
                e = z3.simplify(pos(r) + st)
                made[e.get_id()] = e
                t.row(e)
        c.universal([t.tag], down)
        c.universal([f.view.table.tag], up)
        t.origin.append((f.view, here, lambda k, at=at, st=st: at(z3.simplify(k - st)), lambda r, pos=pos, st=st: z3.simplify(pos(r) + st)))
    names = list(dict.fromkeys(n for f in fs for n in f.cols))
    out = SFrame(t.all)
    if any(f.writes for f in fs):
        raise Unsupported("concat of frames with columns named symbolically")

    def join(get):
        """value at row k from the frame it belongs to"""
        def fn(k):
            v = None
            for f, (view, here, back, fwd) in reversed(list(zip(fs, t.origin))):
                x = get(f, back(k))
                v = x if v is None else ite(here(k), x, v)
            return v
        return fn
    for n in names:
        hs = [z3.simplify(f.has(n)) for f in fs]
        if not all(h.eq(hs[0]) for h in hs):
            raise Unsupported("concat of frames with different columns")
        if not z3.is_true(hs[0]):
            out.maybe[n] = hs[0]
        dts = {f.cols[n].dtype for f in fs}
        out.cols[n] = Col(join(lambda f, r, n=n: f.colfn(n)(r)), dts.pop() if len(dts) == 1 else None)
    fams = [f.family for f in fs]
    if any(fams):
        if not all(fams):
            raise Unsupported("concat of frames with different columns")
        e = c.fresh("e", I)
        for g in fams[1:]:
            if not c.x.check(c, fams[0][0](e) == g[0](e)):
                raise Unsupported("concat of frames with different columns")
        out.family = (fams[0][0], lambda e, k: join(lambda f, r: f.family[1](e, r))(k))
    out.labels = None if ignore_index else Labels()
    return out


class Origin:
    """where the rows of a frame come from: base rows, by the way they took (which parts of concatenations)"""

    def __init__(self, frame, base):
        self.frame, self.base = frame, base

    def ways(self):
        """[(way, row of the frame -> (condition, base row), base row -> (obligations, row of the frame))]"""
        out = []

        def walk(table, back, fwd, way):
            if table is self.base:
                out.append((way, back, fwd))
                return
            if not getattr(table, "origin", None):
                raise Unsupported("rows that do not come from the table read")
            for i, (view, here, b, f) in enumerate(table.origin):
                def back2(k, back=back, here=here, b=b):
                    cond, r = back(k)
                    return z3.And(cond, here(r)), b(r)

                def fwd2(r, fwd=fwd, view=view, f=f, table=table):
                    ob, q = view.member(r), f(r)
                    table.row(q)
                    ob2, row = fwd(q)
                    return [ob] + ob2, row
                walk(view.table, back2, fwd2, way + ((i,) if len(table.origin) > 1 else ()))
        v = self.frame.view
        walk(v.table, lambda k: (v.member(k), k), lambda r: ([v.member(r)], r), ())
        return out


class Loc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        f = self.f
        if isinstance(k, tuple) and len(k) == 2:
            rows, cols = k
            g = f if isinstance(rows, slice) and rows == slice(None, None, None) else f.select(rows) if isinstance(rows, SSeries) else None
            if isinstance(cols, ColumnNames) and g is not None:
                return cols.frame(g)
            if g is None:
                if isinstance(rows, (int, SNum)) and isinstance(cols, (str, SName)) and not f.labels:
                    return f.series(cols)[rows]
                raise Unsupported("loc by %s" % type(rows).__name__)
            return g[cols]
        if isinstance(k, SSeries):
            return f.select(k)
        raise Unsupported("loc by %s" % type(k).__name__)

    def __setitem__(self, k, v):
        f = self.f
        c = ctx()
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], SSeries) and isinstance(k[1], (str, SName))):
            raise Unsupported("loc assignment")
        mask, name = k
        sel = f.select(mask).view
        if isinstance(v, SSeries):
            if not v.array and v.labels is not f.labels:
                raise Unsupported("a series with other labels assigned to selected rows")
            if v.array or v.labels:
                c.prove("values assigned to the selected rows cover exactly these rows", v.view.equals(sel))
            elif v.view.table is not f.view.table:
                raise Unsupported("series of another table")
            vf = v.fn if (v.array or v.labels) else (lambda r: ite(v.view.member(r), v.fn(r), nan_like(v.fn(r))) if v.view is not f.view else v.fn(r))
        elif isinstance(v, (SList, Seq)):
            v = freeze(v)
            cnt, at, pos, tag = sel.enum()
            c.prove("one value per selected row", v.length() == cnt)
            src = v.at
            vf = lambda r: src(pos(r))
        elif isinstance(v, (int, float, str, bool)) or is_sym(v) or v is None:
            vf = lambda r: v
        else:
            raise Unsupported("loc assignment of %s" % type(v).__name__)
        h = z3.simplify(f.has(name))
        if isinstance(name, str) and name in f.cols and f.cols[name].shared:
            raise Unsupported("assignment into a column shared with another frame")
        if z3.is_false(h):
            old = None
        elif z3.is_true(h):
            old = f.colfn(name)
        else:
            if c.branch(h):
                old = f.colfn(name)
            else:
                old = None

        def fn(r):
            x = vf(r)
            o = nan_like(x) if old is None else old(r)
            if not isinstance(x, SMaybe) and isinstance(o, SMaybe) and not is_sym(x) and x is not None and not isnan(x):
                x = coerce(x, kind_of(o)) if kind_of(x) != kind_of(o) else x
            return ite(sel.member(r), x, o)
        f.set_col(name, fn)


class SymCols:
    """a Python list of column names, of any length: `elem` is an arbitrary one of them (operations on lists of columns act on
    each column by itself), or - for the columns grouped by - stands for all of them together (grouping by a list of columns is
    grouping by the tuple of their values)"""

    def __init__(self, elem, member=None, tail=()):
        self.elem, self.member, self.tail = elem, member, tuple(tail)

    def vc_columns(self): return [self.elem] + list(self.tail)
    def vc_isinstance(self, py): return py is list
    def vc_type(self): return instrument.LIST if hasattr(instrument, "LIST") else list

    def vc_contains(self, v):
        if self.member is None:
            raise Unsupported("membership in a list of columns")
        return SBool(z3.Or(self.member(expr(v)), *[expr(v) == expr(t) for t in self.tail]))

    def __contains__(self, v): return bool(self.vc_contains(v))

    def __add__(self, o):
        return SymCols(self.elem, self.member, self.tail + tuple(o))

    def copy(self): return SymCols(self.elem, self.member, self.tail)
    def vc_list(self): return self.copy()

    def __iter__(self):
        raise Unsupported("iteration over a list of columns")

    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("list operation .%s on a list of columns" % a)


def columns_of(by):
    return [by] if isinstance(by, (str, SName)) else by.vc_columns() if isinstance(by, SymCols) else list(by)


class GroupBy:
    def __init__(self, f, keys, observed, cols=None):
        self.f, self.keys, self.observed, self.cols = f, keys, observed, cols

    def __getitem__(self, cols):
        return GroupBy(self.f, self.keys, self.observed, cols)

    def _table(self, agg):
        f = self.f
        single = isinstance(self.cols, (str, SName))
        cols = columns_of(self.cols) if self.cols is not None else None
        if cols is None:
            raise Unsupported("aggregation of all columns")
        for x in cols:
            f.check_col(x)
        return Grouped(f, self.keys, cols, single, bool(self.observed), agg)

    def sum(self): return self._table("sum")
    def mean(self): return self._table("mean")

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("groupby.%s" % a)


class Grouped:
    """the result of groupby(keys)[cols].sum(): for every key tuple, presence and the value of each column"""

    def __init__(self, f, keys, cols, single, observed, agg):
        self.f, self.keys, self.cols, self.single, self.observed, self.agg = f, keys, cols, single, observed, agg

    def present(self, kv):
        """z3 Bool: the group of these key values (z3 terms) is a row of the result"""
        f = self.f
        fns = [f.colfn(k) for k in self.keys]
        if not self.observed:
            # pandas: with a categorical key and observed=False, unused combinations of categories appear too
            cat = [isinstance(k, str) and k in f.cols and f.cols[k].dtype == "category" for k in self.keys]
            if any(cat):
                allv = f.view.table.all
                ps = [EXISTS(f.view.table, lambda r, fn=fn, v=v, ct=ct: z3.And((allv if ct else f.view).member(r), z3.Not(nullof(fn(r))), valof(fn(r)) == v)) for fn, v, ct in zip(fns, kv, cat)]
                return z3.And(*ps)
        return EXISTS(f.view.table, lambda r: z3.And(f.view.member(r), *[z3.And(z3.Not(nullof(fn(r))), valof(fn(r)) == v) for fn, v in zip(fns, kv)]))

    def value(self, col, kv):
        f = self.f
        fns = [f.colfn(k) for k in self.keys]
        vf = f.colfn(col)
        hit = lambda r: z3.And(f.view.member(r), *[z3.And(z3.Not(nullof(fn(r))), valof(fn(r)) == v) for fn, v in zip(fns, kv)])
        s = SUM(f.view.table, lambda r: z3.If(z3.And(hit(r), z3.Not(nullof(vf(r)))), real(valof(vf(r))), z3.RealVal(0)))
        if self.agg == "sum":
            return s
        n = SUM(f.view.table, lambda r: z3.If(z3.And(hit(r), z3.Not(nullof(vf(r)))), z3.RealVal(1), z3.RealVal(0)))
        return s / n

    def __getitem__(self, k):
        if isinstance(k, (str, SName)):
            return Grouped(self.f, self.keys, [k], True, self.observed, self.agg)
        raise Unsupported("grouped[%s]" % type(k).__name__)

    def groupby(self, by, **kw):
        kw = {a: b for a, b in kw.items() if a != "observed"}
        if kw:
            raise Unsupported("groupby with %s" % ", ".join(kw))
        return Regroup(self, columns_of(by))

    def to_dict(self):
        if not self.single:
            raise Unsupported("to_dict of several columns")
        return GroupedDict(self)

    @property
    def loc(self):
        return GroupedLoc(self)

    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on an aggregated table" % a)


class GroupedDict:
    """{group: aggregated value}"""
    vc_element = True

    def __init__(self, g):
        self.g = g

    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on a dict of groups" % a)


class GroupedLoc:
    def __init__(self, g):
        self.g = g


class Regroup:
    def __init__(self, g, keys):
        self.g, self.keys = g, keys

    def __getitem__(self, k):
        return Regroup(self.g[k], self.keys)

    def _agg(self, a): return Regrouped(self.g, self.keys, a)
    def mean(self): return self._agg("mean")
    def sum(self): return self._agg("sum")
    def max(self): return self._agg("max")


class Regrouped:
    """grouped table aggregated once more over its other keys (one other key supported)"""

    def __init__(self, g, keys, agg):
        self.g, self.keys, self.agg = g, keys, agg
        self.cols, self.single = g.cols, g.single
        gk = list(g.keys)
        self.other = [k for k in gk if not any(k is q or isinstance(k, str) and k == q for q in keys)]
        if len(self.other) != 1 or len(keys) + 1 != len(gk):
            raise Unsupported("regrouping by other than all but one key")
        self.where = [gk.index(k) for k in keys]
        self.owhere = gk.index(self.other[0])

    def full(self, kv, o):
        out = [None] * (len(kv) + 1)
        for i, v in zip(self.where, kv):
            out[i] = v
        out[self.owhere] = o
        return out

    def present(self, kv):
        c = ctx()
        return EXISTS("key", lambda o: self.g.present(self.full(kv, o)))

    def value(self, col, kv):
        pres = lambda o: self.g.present(self.full(kv, o))
        s = SUM("key", lambda o: z3.If(pres(o), self.g.value(col, self.full(kv, o)), z3.RealVal(0)))
        if self.agg == "sum":
            return s
        if self.agg != "mean":
            raise Unsupported("aggregation " + self.agg)
        return s / SUM("key", lambda o: z3.If(pres(o), z3.RealVal(1), z3.RealVal(0)))

    def __getitem__(self, k):
        if isinstance(k, (str, SName)):
            return Regrouped(self.g[k], self.keys, self.agg)
        raise Unsupported("grouped[%s]" % type(k).__name__)

    def vc_kind(self): return ("fixed", self)


# ----------------------------------------------------------------------------- numpy / pandas modules
class Mod:
    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        return Missing(self._n + "." + a)


class Missing:
    def __init__(self, n):
        self._mn = n

    def __call__(self, *a, **k):
        raise Unsupported("call of " + self._mn)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        return Missing(self._mn + "." + a)


class Matrix(SObj):
    """a 2-d array with symbolic shape"""

    def __init__(self, shape, fn):
        SObj.__init__(self)
        self.shape_, self.fn = shape, fn

    @property
    def shape(self):
        return tuple(mknum(x) for x in self.shape_)

    def _idx(self, k):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Unsupported("matrix index")
        i, j = idx_expr(k[0]), idx_expr(k[1])
        ctx().prove("no IndexError (matrix)", z3.And(0 <= i, i < self.shape_[0], 0 <= j, j < self.shape_[1]))
        return i, j

    def __getitem__(self, k):
        if isinstance(k, (int, SNum)):
            return MatRow(self, idx_expr(k))
        i, j = self._idx(k)
        return SNum(self.fn(i, j))

    def __setitem__(self, k, v):
        i, j = self._idx(k)
        self.touch()
        old, e = self.fn, real(v)
        self.fn = lambda a, b: z3.If(z3.And(a == i, b == j), e, old(a, b))

    def sum(self, axis=None):
        if axis == 1:
            return Vector(self.shape_[0], lambda i: SUM(("range",), lambda j: z3.If(z3.And(0 <= j, j < self.shape_[1]), self.fn(i, j), z3.RealVal(0))))
        if axis == 0:
            return Vector(self.shape_[1], lambda j: SUM(("range",), lambda i: z3.If(z3.And(0 <= i, i < self.shape_[0]), self.fn(i, j), z3.RealVal(0))))
        raise Unsupported("matrix sum over all")

    @property
    def T(self):
        o = self.fn
        return Matrix((self.shape_[1], self.shape_[0]), lambda i, j: o(j, i))

    def info(self): return ()

    def havoc(self, info, name="m", aspects=()):
        f = ctx().fresh_fn(name, I, I, R)
        self.fn = lambda i, j: f(i, j)

    def vc_kind(self): return ("obj", self.oid)


class MatRow:
    def __init__(self, m, i):
        self.m, self.i = m, i

    def __getitem__(self, j):
        return self.m[SNum(self.i), j]

    def __setitem__(self, j, v):
        self.m[SNum(self.i), j] = v

    def vc_kind(self): return ("fixed", self)


class Vector(SSeqBase):
    """1-d array given by a function of the position"""
    tag = None

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def length(self): return self.n
    def at(self, k): return SNum(self.fn(k))
    def __getitem__(self, k): return seq_get(self, k)
    def vc_kind(self): return ("fixed", self)


def np_zeros(shape, dtype=None):
    if isinstance(shape, (tuple, list, SList)):
        sh = [idx_expr(x) for x in shape]
        if len(sh) == 2:
            return Matrix(tuple(sh), lambda i, j: z3.RealVal(0))
    raise Unsupported("np.zeros of this shape")


def np_full(n, v):
    e = idx_expr(n)
    return Seq(e, lambda k: v, None)


def numpy_mod(**extra):
    m = dict(zeros=np_zeros, full=np_full, nan=float("nan"), number="number", inf=float("inf"))
    m.update(extra)
    return Mod("numpy", **m)


def pandas_mod(**extra):
    return Mod("pandas", **dict({"concat": pd_concat}, **extra))


class Trusted:
    """record of a call to an external function that is specified by its documentation only"""

    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw

    def vc_kind(self): return ("fixed", self)


class SAttrs:
    """the attributes of an event: a mapping from fixed names; has(name, row) and get(name, row) tell its contents"""

    def __init__(self, has, get, r):
        self.has, self.get_, self.r = has, get, r

    def __getitem__(self, k):
        if not isinstance(k, str):
            raise Unsupported("attribute named symbolically")
        ctx().prove("no KeyError (attribute %s)" % k, self.has(k, self.r))
        return self.get_(k, self.r)

    def __contains__(self, k):
        return bool(SBool(self.has(k, self.r)))

    def vc_contains(self, k):
        return SBool(self.has(k, self.r))

    def get(self, k, d=None):
        return ite(self.has(k, self.r), self.get_(k, self.r), d)

    def vc_same(self, o):
        return self.r == o.r if isinstance(o, SAttrs) else z3.BoolVal(False)

    def vc_ite(self, cond, o):
        return SAttrs(self.has, self.get_, z3.If(cond, self.r, o.r)) if isinstance(o, SAttrs) else NotImplemented

    def vc_kind(self): return ("attrs",)
    __hash__ = None

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on attributes" % a)


class NewFrame(SFrame):
    """pd.DataFrame(): no rows and no columns; the first column assigned gives it its rows and labels"""

    def __init__(self):
        SFrame.__init__(self, None)

    def __setitem__(self, k, v):
        if self.view is None:
            if not (isinstance(v, SSeries) and not v.array and not v.labels):
                raise Unsupported("first column of a new frame given by %s" % type(v).__name__)
            self.view = v.view
        SFrame.__setitem__(self, k, v)

    def info(self):
        raise Unsupported("a new frame changed by a loop")


def pd_DataFrame(data=None, index=None, **kw):
    if kw or index is not None and not isinstance(data, (dict, SDict)):
        raise Unsupported("DataFrame(%s)" % ", ".join(kw))
    if index is not None:
        f = pd_DataFrame(data)
        f.index = index
        return f
    f = NewFrame()
    if data is None:
        return f
    if isinstance(data, (dict, SDict)):
        vals = list(data.values())
        if vals and all(isinstance(v, SSeqBase) for v in vals):      # a new table with one row per position
            c = ctx()
            t = Table("frame")
            c.assume(t.n == vals[0].length())
            for k, v in data.items():
                c.prove("the columns of a new frame have the same length", v.length() == t.n)
                v = freeze(v)

                def fn(r, v=v):
                    if getattr(v, "tag", None):
                        c.term(v.tag, r)
                    return v.at(r)
                f.cols[k] = Col(fn)
            f.view = t.all
            return f
        for k, v in data.items():
            f[k] = v
        return f
    if isinstance(data, SFrame):
        return data.copy()
    raise Unsupported("DataFrame of %s" % type(data).__name__)


class SOpaque:
    """a value the code only moves around"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def vc_same(self, o):
        return self.e == o.e if isinstance(o, SOpaque) else z3.BoolVal(False)

    def vc_ite(self, cond, o):
        return SOpaque(z3.If(cond, self.e, o.e)) if isinstance(o, SOpaque) else NotImplemented

    def vc_kind(self): return ("opaque",)
    __hash__ = None

    def __eq__(self, o):
        raise Unsupported("comparison of opaque values")

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on an opaque value" % a)
