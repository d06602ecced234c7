"""Symbolic heap of pipit.graph.Node objects.  A node is a reference (z3 Int); the fields are functions of the reference.
The class is a subclass of the instrumented Node, so every method body executed is the real one."""
import z3
from engine import *
import engine, instrument


class NodeHeap(SObj):
    """fields of all nodes: parent (maybe), level, nid, and the children lists (elements are references)"""

    def __init__(self, NodeCls, name="heap"):
        SObj.__init__(self)
        c = ctx()
        self.cls = make_class(NodeCls, self)
        self.base = NodeCls
        self.havoc(None)
        self.next = c.fresh("next", I)     # references >= next are unallocated
        self.hooks = {}

    # fields as closures on z3 refs
    def havoc(self, info, name="heap", aspects=()):
        c = ctx()
        pn, p, l, i = (c.fresh_fn("parent_null", I, B), c.fresh_fn("parent", I, I), c.fresh_fn("level", I, I), c.fresh_fn("nid", I, I))
        self.f_pnull, self.f_parent, self.f_level, self.f_nid = (lambda r: pn(r)), (lambda r: p(r)), (lambda r: l(r)), (lambda r: i(r))
        cn, cg = c.fresh_fn("nchildren", I, I), c.fresh_fn("child", I, I, I)
        self.f_nch, self.f_ch = (lambda r: cn(r)), (lambda r, k: cg(r, k))
        self.next = c.fresh("next", I)

    def info(self): return ()

    def ref(self, r):
        o = object.__new__(self.cls)
        object.__setattr__(o, "_r", r)
        c = ctx()
        c.term("node", r)
        return o

    def alloc(self):
        self.touch()
        r = self.next
        self.next = r + 1
        return r

    def set(self, field, r, v):
        self.touch()
        old = getattr(self, field)
        setattr(self, field, lambda q: z3.If(q == r, v, old(q)))


def same_node(a, b):
    """z3 Bool: identical references (None only equal to None)"""
    if a is None or b is None:
        return z3.BoolVal(a is b)
    return a._r == b._r


class ChildList(SSeqBase):
    def __init__(self, heap, r):
        self.h, self.r = heap, r
        self.tag = "children"

    def length(self):
        return self.h.f_nch(self.r)

    def at(self, k):
        return self.h.ref(self.h.f_ch(self.r, k))

    def __getitem__(self, k):
        return seq_get(self, k)

    def append(self, node):
        h, r = self.h, self.r
        h.touch()
        n, oc, on, x = h.f_nch(r), h.f_ch, h.f_nch, node._r
        h.f_ch = lambda q, k: z3.If(z3.And(q == r, k == n), x, oc(q, k))
        h.f_nch = lambda q: z3.If(q == r, n + 1, on(q))
        hk = h.hooks.get("append")
        if hk:
            hk(r, n, x)

    def vc_kind(self):
        return ("fixed", self)


def make_class(NodeCls, heap):
    class HeapNode(NodeCls):
        def __new__(cls, *a, **k):
            o = object.__new__(cls)
            object.__setattr__(o, "_r", heap.alloc())
            ctx().term("node", o._r)
            return o

        def __setattr__(self, a, v):
            if a == "parent":
                heap.set("f_pnull", self._r, z3.BoolVal(v is None))
                if v is not None:
                    heap.set("f_parent", self._r, v._r)
            elif a == "level":
                heap.set("f_level", self._r, expr(v))
            elif a == "_pipit_nid":
                heap.set("f_nid", self._r, expr(v))
            elif a == "children":
                if isinstance(v, SList) and v.concrete and not v.items:
                    heap.set("f_nch", self._r, z3.IntVal(0))
                elif isinstance(v, ChildList) and v.r.eq(self._r):
                    pass
                else:
                    raise Unsupported("assignment to Node.children")
            else:
                raise Unsupported("Node attribute " + a)

        def __getattribute__(self, a):
            if a == "parent":
                r = object.__getattribute__(self, "_r")
                if ctx().branch(heap.f_pnull(r)):
                    return None
                return heap.ref(heap.f_parent(r))
            if a == "level":
                return SNum(heap.f_level(object.__getattribute__(self, "_r")))
            if a == "_pipit_nid":
                return SNum(heap.f_nid(object.__getattribute__(self, "_r")))
            if a == "children":
                return ChildList(heap, object.__getattribute__(self, "_r"))
            return object.__getattribute__(self, a)

        __hash__ = None

        def vc_kind(self):
            return ("node", heap.oid)

        def vc_same(self, o):
            if not isinstance(o, HeapNode):
                return z3.BoolVal(False)
            return self._r == o._r

        def vc_is(self, o):
            return SBool(same_node(self, o)) if isinstance(o, HeapNode) or o is None else False

        def vc_ite(self, cond, o):
            if isinstance(o, HeapNode):
                return heap.ref(z3.If(cond, self._r, o._r))
            return NotImplemented
    HeapNode.__name__ = "Node"
    return HeapNode


def _heap(oid):
    return ctx().env["objs"][oid]


engine.KIND_MAKERS["node"] = lambda kind, name: _heap(kind[1]).ref(ctx().fresh(name, I))


def _family(kind, name, argsorts):
    h = _heap(kind[1])
    f = ctx().fresh_fn(name, *(tuple(argsorts) + (I,)))
    return lambda *a: h.ref(f(*a))


engine.KIND_MAKERS[("family", "node")] = _family


engine.KIND_MAKERS[("default", "node")] = lambda kind: _heap(kind[1]).ref(z3.IntVal(-1))
