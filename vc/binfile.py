"""A binary file of any contents: its bytes are seen through unsigned little-endian fields at positions.  U[n](p) is the value of the
n-byte field at p; reads advance the position; sub-ranges of what was read are fields of the file."""
import z3
from contract import *
import engine

SIZES = (1, 2, 4, 8)


class BinFile(SObj):
    def __init__(self, name="file"):
        SObj.__init__(self)
        c = ctx()
        self.U = {n: c.fresh_fn("u%d" % (8 * n), I, I) for n in SIZES}
        self.pos, self.lastread = z3.IntVal(0), None
        self.text = c.fresh_fn("utf8", I, I, I)      # the text of the bytes at a position

    def field(self, n, p):
        v = self.U[n](p)
        ctx().assume(z3.And(v >= 0, v < 2 ** (8 * n)), True)
        return v

    def seek(self, p, *a):
        if a:
            raise Unsupported("seek relative to another position")
        self.touch()
        self.pos, self.lastread = z3.simplify(idx_expr(p)), None
        return SNum(self.pos)

    def tell(self): return SNum(self.pos)

    def read(self, n=None):
        if n is None:
            raise Unsupported("read of a whole file")
        n = idx_expr(n)
        self.touch()
        r = Bytes(self, self.pos, n)
        self.read_at(self.pos, n)
        self.pos = z3.simplify(self.pos + n)
        return r

    def read_at(self, p, n): pass
    def info(self): return ()

    def havoc(self, info, name="file", aspects=()):
        self.pos, self.lastread = ctx().fresh("pos", I), None

    def vc_kind(self): return ("fixed", self)
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("file operation .%s" % a)


class Bytes:
    """the n bytes at p"""

    def __init__(self, f, p, n):
        self.f, self.p, self.n = f, p, z3.simplify(n)

    def vc_from_bytes(self, byteorder=None, signed=False):
        c = ctx()
        c.prove("numbers are read as unsigned little-endian", byteorder == "little" and not signed)
        if not z3.is_int_value(self.n) or self.n.as_long() not in SIZES:
            raise Unsupported("number of %s bytes" % self.n)
        return SNum(self.f.field(self.n.as_long(), z3.simplify(self.p)))

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step is not None:
            raise Unsupported("a byte of the file")
        a = z3.IntVal(0) if k.start is None else idx_expr(k.start)
        b = self.n if k.stop is None else idx_expr(k.stop)
        ctx().prove("no more bytes are looked at than were read", z3.And(0 <= a, a <= b, b <= self.n))
        return Bytes(self.f, z3.simplify(self.p + a), b - a)

    def vc_len(self): return SNum(self.n)
    def vc_kind(self): return ("bytes", self.f.oid, self.n.as_long() if z3.is_int_value(self.n) else None)

    def vc_decode(self, encoding="utf-8", errors="strict"):
        c = ctx()
        c.prove("texts are UTF-8", str(encoding).lower().replace("_", "-") in ("utf-8", "utf8") or bool(c.env.get("ascii")))
        if errors != "strict":
            raise Unsupported("decoding with error handling")
        if "decoded" in c.env:
            return c.env["decoded"](self)
        return SName(self.f.text(self.p, self.n))

    decode = vc_decode

    def vc_same(self, o):
        if isinstance(o, Bytes):
            return z3.Or(z3.And(self.n == 0, o.n == 0), z3.And(self.p == o.p, self.n == o.n)) if self.n is not o.n else z3.BoolVal(True)
        return NotImplemented

    def byte_is(self, o):
        if isinstance(o, bytes) and len(o) == 1 and z3.is_int_value(self.n) and self.n.as_long() == 1:
            return self.f.field(1, z3.simplify(self.p)) == o[0]
        raise Unsupported("comparison of bytes")

    def __eq__(self, o): return SBool(self.byte_is(o))
    def __ne__(self, o): return SBool(z3.Not(self.byte_is(o)))
    __hash__ = None

    def __add__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        if not isinstance(o, Bytes) or o.f is not self.f:
            raise Unsupported("concatenation of bytes")
        if ctx().sat(self.p + self.n != o.p) != z3.unsat:
            raise Unsupported("concatenation of bytes that do not follow each other")
        return Bytes(self.f, self.p, self.n + o.n)

    def __radd__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        raise Unsupported("concatenation of bytes")

    def vc_ite(self, cond, o):
        return Bytes(self.f, z3.If(cond, self.p, o.p), z3.If(cond, self.n, o.n)) if isinstance(o, Bytes) else NotImplemented

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on bytes" % a)


engine.KIND_MAKERS["bytes"] = lambda kind, name: Bytes(ctx().env["objs"][kind[1]], ctx().fresh(name, I), ctx().fresh(name + "_n", I) if kind[2] is None else z3.IntVal(kind[2]))


def _bytes_family(kind, name, sorts):
    c = ctx()
    p, n = c.fresh_fn(name, *(tuple(sorts) + (I,))), c.fresh_fn(name + "_n", *(tuple(sorts) + (I,)))
    return lambda *a: Bytes(ctx().env["objs"][kind[1]], p(*a), n(*a))


engine.KIND_MAKERS[("family", "bytes")] = _bytes_family


class Rec:
    """a record: a dict with fixed text keys, seen as a value (it must not be changed after it was put in a container)"""

    def __init__(self, keys, vals):
        self.keys_, self.vals = tuple(keys), tuple(vals)

    @staticmethod
    def of(d):
        if not isinstance(d, SDict):
            return d
        if not all(isinstance(k, str) for k in d.d):
            raise Unsupported("record with other keys than texts")
        d.frozen = True
        ks = sorted(d.d)
        return Rec(ks, [d.d[k] for k in ks])

    def __getitem__(self, k):
        if k not in self.keys_:
            ctx().prove("no KeyError", False)
            raise PathEnd()
        return self.vals[self.keys_.index(k)]

    def get(self, k, d=None): return self[k] if k in self.keys_ else d
    def vc_contains(self, k): return k in self.keys_
    def keys(self): return list(self.keys_)
    def vc_kind(self): return ("rec", self.keys_, ("tuple",) + tuple(kind_of(v) for v in self.vals))

    def vc_ite(self, cond, o):
        return Rec(self.keys_, [engine.ite(cond, a, b) for a, b in zip(self.vals, o.vals)]) if isinstance(o, Rec) and o.keys_ == self.keys_ else NotImplemented

    def matches(self, want):
        """the fields named in want have these values"""
        return z3.And(*[same(self[k], v) if k in self.keys_ else z3.BoolVal(False) for k, v in want.items()])

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on a record" % a)


engine.KIND_MAKERS["rec"] = lambda kind, name: Rec(kind[1], [engine.fresh_value(k, name) for k in kind[2][1:]])
engine.KIND_MAKERS[("default", "rec")] = lambda kind: Rec(kind[1], [engine.default_value(k) for k in kind[2][1:]])
engine.KIND_MAKERS[("coerce", "rec")] = lambda v, kind: Rec(kind[1], [engine.coerce(x, k) for x, k in zip(v.vals, kind[2][1:])])


def _rec_family(kind, name, sorts):
    fs = [engine.fresh_family(k, name, *sorts) for k in kind[2][1:]]
    return lambda *a: Rec(kind[1], [f(*a) for f in fs])


engine.KIND_MAKERS[("family", "rec")] = _rec_family


class FMap:
    """the contents of a dict as a value: keys are numbers or texts"""

    def __init__(self, kt, vk, has, get):
        self.kt, self.vk, self.has, self.get_ = kt, vk, has, get

    def vc_kind(self): return ("fmap", self.kt, self.vk)
    def vc_contains(self, k): return SBool(self.has(expr(k)))

    def __getitem__(self, k):
        ctx().prove("no KeyError", self.has(expr(k)))
        return self.get_(expr(k))

    def vc_ite(self, cond, o):
        if not isinstance(o, FMap) or o.kt != self.kt:
            return NotImplemented
        return FMap(self.kt, engine.join_kind(self.vk, o.vk), lambda q: z3.If(cond, self.has(q), o.has(q)), lambda q: engine.ite(cond, self.get_(q), o.get_(q)))


def _fmap_family(kind, name, sorts):
    h = ctx().fresh_fn(name + "_has", *(tuple(sorts) + (I, B)))
    g = engine.fresh_family(kind[2], name, *(tuple(sorts) + (I,)))
    return lambda *a: FMap(kind[1], kind[2], lambda q: h(*a, q), lambda q: g(*a, q))


engine.KIND_MAKERS[("family", "fmap")] = _fmap_family
engine.KIND_MAKERS["fmap"] = lambda kind, name: _fmap_family(kind, name, ())()
engine.KIND_MAKERS[("coerce", "fmap")] = lambda v, kind: FMap(kind[1], kind[2], v.has, lambda q: engine.coerce(v.get_(q), kind[2]))


class KMap(SDict):
    """a dict of any size with numbers or texts as keys"""

    def __init__(self, items=None):
        SDict.__init__(self, None)
        self.kt = self.vk = None
        self.has, self.get_ = (lambda q: z3.BoolVal(False)), None

    def key(self, k, write=False):
        kt = "name" if isinstance(k, (str, SName)) else "int" if isinstance(k, (int, SNum)) else None
        if kt is None or self.kt not in (None, kt):
            raise Unsupported("keys of several types in a dict")
        if write:
            self.kt = kt
        return expr(k)

    def vc_contains(self, k): return SBool(self.has(self.key(k)))
    def __contains__(self, k): return bool(self.vc_contains(k))

    def __getitem__(self, k):
        e = self.key(k)
        ctx().prove("no KeyError", self.has(e))
        if self.get_ is None:
            raise PathEnd()
        return self.get_(e)

    def get(self, k, d=None):
        return self[k] if bool(self.vc_contains(k)) else d

    def __setitem__(self, k, v):
        self.touch()
        e = self.key(k, True)
        v = Rec.of(v) if type(v) is SDict else v
        if isinstance(v, KMap):
            v = FMap(v.kt, v.vk, v.has, v.get_)
        oh, og = self.has, self.get_
        self.vk = engine.join_kind(self.vk, kind_of(v))
        if self.vk is None:
            raise Unsupported("values of several kinds in a dict")
        self.has = lambda q: z3.Or(q == e, oh(q))
        self.get_ = (lambda q: v) if og is None else (lambda q: engine.ite(q == e, v, og(q)))

    def setdefault(self, k, v=None):
        if not bool(self.vc_contains(k)):
            self[k] = v
        return self[k]

    def _find(self, k):
        raise Unsupported("operation on a dict of any size")

    def __bool__(self):
        raise Unsupported("operation on a dict of any size")

    def vc_len(self):
        raise Unsupported("operation on a dict of any size")
    keys = values = items = pop = update = copy = __iter__ = __delitem__ = __eq__ = lambda self, *a: self._find(None)
    __hash__ = None

    def vc_freeze(self):
        import copy
        return copy.copy(self)

    def info(self): return (self.kt, self.vk)
    def join_fn(self): return join_kmap

    def havoc(self, info, name="d", aspects=()):
        self.kt, self.vk = info
        if self.vk is None:
            return
        h = ctx().fresh_fn(name + "_has", I, B)
        self.has, self.get_ = (lambda q: h(q)), engine.fresh_family(self.vk, name, I)


def join_kmap(a, b):
    kt = a[0] or b[0]
    if (a[0] or kt) != (b[0] or kt):
        raise Unsupported("keys of several types in a dict")
    vk = engine.join_kind(a[1], b[1])
    if vk is None and (a[1] is not None or b[1] is not None):
        raise Unsupported("values of several kinds in a dict")
    return (kt, vk)


class Val:
    """a value the code only passes on (a number, a text or None): its str() is a text of its own"""
    __slots__ = ("e",)

    def __init__(self, e): self.e = e
    def vc_kind(self): return ("val",)
    def vc_same(self, o): return self.e == o.e if isinstance(o, Val) else z3.BoolVal(False)
    def vc_str(self): return SName(ctx().env["str_of"](self.e))
    def vc_ite(self, cond, o): return Val(z3.If(cond, self.e, o.e)) if isinstance(o, Val) else NotImplemented
    def __eq__(self, o): return SBool(self.vc_same(o))
    def __ne__(self, o): return SBool(z3.Not(self.vc_same(o)))
    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth of a value passed on")

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on a value passed on" % a)


engine.KIND_MAKERS["val"] = lambda kind, name: Val(ctx().fresh(name, I))
