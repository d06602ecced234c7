"""Instrumentation of the real source: what is executed symbolically is the text of /repo, re-read on every run, with these
rewrites and nothing else (so nothing is dropped; a construct without semantics stops the verification with no verdict):
  for T in X: S     ->  for it in iterate(site, X): [if it.cut: live variables = it.vals]; [if it.done: break]; T = it.elem; S
  while C: S        ->  for it in whiles(site, lambda: C): [if it.cut: ...]; if not C: break; S
  [..] {..} list/dict/set displays, comprehensions, f-strings   ->  calls building the verifier's own containers
  x is y, x is not y ->  is_(x, y)
  builtins (len, int, str, list, range, isinstance, ...) and imports (pandas, numpy, pipit.*) resolve to their semantics here
Docstrings, annotations, decorators, classes, defaults, closures are executed as written.
"""
import ast, os, sys
import z3
from engine import *
import engine

REPO = os.environ.get("PIPIT_REPO", "/repo")


class _Unbound:
    """value of a variable that may be unassigned at a loop head; any use stops the verification"""

    def __getattr__(self, a):
        raise Unsupported("a variable not assigned (as far as the loop invariant tells) is used")

    def _no(self, *a):
        raise Unsupported("a variable not assigned (as far as the loop invariant tells) is used")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __setitem__ = __bool__ = __iter__ = __contains__ = __call__ = __index__ = _no
    __hash__ = object.__hash__


UNBOUND = _Unbound()


# ----------------------------------------------------------------------------- liveness
def names_read(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}


def names_stored(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split(".")[0])
    return out


def stored_in_loop(body):
    """names assigned by the statements (comprehension variables are local to the comprehension)"""
    out = set()

    class V(ast.NodeVisitor):
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda = visit_ListComp

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    for s in body:
        V().visit(s)
    return out


def live_before(stmts, after, brk, cont, rets=frozenset()):
    live = set(after)
    for s in reversed(stmts):
        live = live_stmt(s, live, brk, cont)
    return live


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def live_stmt(s, live, brk, cont):
    if isinstance(s, (ast.Return, ast.Raise)):
        return names_read(s)
    if isinstance(s, ast.Break):
        return set(brk)
    if isinstance(s, ast.Continue):
        return set(cont)
    if isinstance(s, ast.If):
        return names_read(s.test) | live_before(s.body, live, brk, cont) | live_before(s.orelse, live, brk, cont)
    if isinstance(s, (ast.For, ast.While)):
        head_uses = names_read(s.iter) if isinstance(s, ast.For) else names_read(s.test)
        exit_live = live_before(s.orelse, live, brk, cont)
        head = set(exit_live) | (set() if isinstance(s, ast.For) else head_uses)
        while True:
            b = live_before(s.body, head, live, head)
            if isinstance(s, ast.For):
                b = (b - target_names(s.target)) | names_read(s.target)
            new = head | b
            if new == head:
                break
            head = new
        s._live_head = set(head)
        return head | head_uses
    if isinstance(s, ast.Try):
        h = set()
        for x in s.handlers:
            h |= live_before(x.body, live, brk, cont) | (names_read(x.type) if x.type else set())
        f = live_before(s.finalbody, live, brk, cont)
        e = live_before(s.orelse, f | live, brk, cont)
        return live_before(s.body, e | h | f, brk, cont) | h | names_read(s)
    if isinstance(s, ast.With):
        l = live_before(s.body, live, brk, cont)
        for i in reversed(s.items):
            if i.optional_vars is not None:
                l -= target_names(i.optional_vars)
            l |= names_read(i.context_expr)
        return l
    if isinstance(s, ast.Assign):
        t = set()
        for x in s.targets:
            t |= target_names(x)
        return (live - t) | names_read(s.value) | set().union(*[names_read(x) for x in s.targets])
    if isinstance(s, ast.AugAssign):
        return live | names_read(s) | target_names(s.target)
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        return (live - {s.name}) | names_read(s)
    if isinstance(s, ast.AnnAssign):
        return (live - target_names(s.target)) | names_read(s)
    return live | names_read(s)


# ----------------------------------------------------------------------------- the rewriting
class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []
        self.counter = [0]
        self.n = 0

    def call(self, name, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr=name, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        args = node.args
        params = {a.arg for a in args.args + args.kwonlyargs + args.posonlyargs}
        nested = set()
        for n in ast.walk(node):
            if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    nested |= names_read(n)
        live_before(node.body, set(nested), set(), set())
        for n in ast.walk(node):
            if isinstance(n, (ast.For, ast.While)) and hasattr(n, "_live_head"):
                n._live_head |= nested & stored_in_loop(n.body)
        self.scope.append(node.name)
        self.counter.append(0)
        node.returns = None
        self.generic_visit(node)
        self.counter.pop()
        self.scope.pop()
        return node

    def _site(self, kind, node):
        self.counter[-1] += 1
        return ast.Constant("%s:%s#%d" % (self.mod, ".".join(self.scope), self.counter[-1]))

    def _prologue(self, it, vars_):
        out = []
        if vars_:
            tgt = ast.Tuple(elts=[ast.Name(id=v, ctx=ast.Store()) for v in vars_], ctx=ast.Store())
            out.append(ast.If(test=ast.Attribute(value=ast.Name(id=it, ctx=ast.Load()), attr="cut", ctx=ast.Load()),
                              body=[ast.Assign(targets=[tgt], value=ast.Attribute(value=ast.Name(id=it, ctx=ast.Load()), attr="vals", ctx=ast.Load()))],
                              orelse=[]))
        return out

    def visit_For(self, node):
        live = getattr(node, "_live_head", None)
        stored = stored_in_loop(node.body) | target_names(node.target)
        vars_ = sorted(stored & live if live is not None else stored)
        site = self._site("for", node)
        self.n += 1
        it = "__it%d__" % self.n
        self.generic_visit(node)
        names = ast.Tuple(elts=[ast.Constant(v) for v in vars_], ctx=ast.Load())
        dead = ast.Tuple(elts=[ast.Constant(v) for v in sorted(stored - set(vars_))], ctx=ast.Load())
        import copy
        els = node.orelse
        done = ast.If(test=ast.Attribute(value=ast.Name(id=it, ctx=ast.Load()), attr="done", ctx=ast.Load()),
                      body=copy.deepcopy(els) + [ast.Break()], orelse=[])
        body = self._prologue(it, vars_) + [done, ast.Assign(targets=[node.target], value=ast.Attribute(value=ast.Name(id=it, ctx=ast.Load()), attr="elem", ctx=ast.Load()))] + node.body
        return ast.For(target=ast.Name(id=it, ctx=ast.Store()), iter=self.call("iterate", site, names, node.iter, dead), body=body, orelse=els)

    def visit_While(self, node):
        live = getattr(node, "_live_head", None)
        stored = stored_in_loop(node.body) | stored_in_loop([ast.Expr(node.test)])
        vars_ = sorted(stored & live if live is not None else stored)
        site = self._site("while", node)
        self.n += 1
        it = "__it%d__" % self.n
        import copy
        self.generic_visit(node)
        names = ast.Tuple(elts=[ast.Constant(v) for v in vars_], ctx=ast.Load())
        dead = ast.Tuple(elts=[ast.Constant(v) for v in sorted(stored - set(vars_))], ctx=ast.Load())
        cond = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=copy.deepcopy(node.test))
        exit_ = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=copy.deepcopy(node.orelse) + [ast.Break()], orelse=[])
        body = self._prologue(it, vars_) + [exit_] + node.body
        return ast.For(target=ast.Name(id=it, ctx=ast.Store()), iter=self.call("whiles", site, names, cond, dead), body=body, orelse=[])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            return self.call("is_" if isinstance(node.ops[0], ast.Is) else "is_not", node.left, node.comparators[0])
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return self.call("in_" if isinstance(node.ops[0], ast.In) else "not_in", node.left, node.comparators[0])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call("mod", node.left, node.right)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "format" and not any(isinstance(a, ast.Starred) for a in node.args) and not any(k.arg is None for k in node.keywords):
            return ast.Call(func=ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr="format", ctx=ast.Load()), args=[f.value] + node.args, keywords=node.keywords)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.call("mklist", node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return self.call("unsupported", ast.Constant("dict display with **"))
        return self.call("mkdict", ast.Tuple(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)], ctx=ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call("mkset", ast.Tuple(elts=node.elts, ctx=ast.Load()))

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return self.call("fstring", ast.Tuple(elts=[v.value if isinstance(v, ast.FormattedValue) else v for v in node.values], ctx=ast.Load()))

    def _comp(self, kind, node, elt):
        """[e for T in X if C] -> comp(kind, X, lambda-like generator).  The body stays a native comprehension over one element."""
        self.generic_visit(node)
        gens = node.generators
        # native form, used when everything iterated is concrete:  comp(kind, lambda: native)
        if len(gens) != 1:
            return self.call("comp_native", ast.Constant(kind), ast.Lambda(args=_noargs(), body=ast.ListComp(elt=elt, generators=gens)))
        g = gens[0]
        arg = ast.Name(id="__x__", ctx=ast.Load())
        # [e for T in (__x,)] evaluated for one element; [C.. for T in (__x,)] for the filter
        f = ast.Lambda(args=_args("__x__"), body=ast.Subscript(value=ast.ListComp(elt=elt, generators=[ast.comprehension(target=g.target, iter=ast.Tuple(elts=[arg], ctx=ast.Load()), ifs=[], is_async=0)]), slice=ast.Constant(0), ctx=ast.Load()))
        import copy
        if g.ifs:
            c = ast.Lambda(args=_args("__x__"), body=ast.Subscript(value=ast.ListComp(elt=ast.BoolOp(op=ast.And(), values=[copy.deepcopy(i) for i in g.ifs]) if len(g.ifs) > 1 else copy.deepcopy(g.ifs[0]), generators=[ast.comprehension(target=copy.deepcopy(g.target), iter=ast.Tuple(elts=[arg], ctx=ast.Load()), ifs=[], is_async=0)]), slice=ast.Constant(0), ctx=ast.Load()))
        else:
            c = ast.Constant(None)
        return self.call("comp", ast.Constant(kind), g.iter, f, c)

    def visit_ListComp(self, node):
        return self._comp("list", node, node.elt)

    def visit_SetComp(self, node):
        return self._comp("set", node, node.elt)

    def visit_GeneratorExp(self, node):
        return self._comp("gen", node, node.elt)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        n2 = ast.ListComp(elt=elt, generators=node.generators)
        # children were already rewritten
        save, self.generic_visit = self.generic_visit, lambda n: n
        try:
            return self._comp("dict", n2, elt)
        finally:
            del self.generic_visit

    def visit_Nonlocal(self, node):
        return ast.Expr(self.call("unsupported", ast.Constant("assignment to a variable of an outer function")))
    visit_Global = visit_Nonlocal

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.Pass()
        return ast.Assign(targets=[node.target], value=node.value)


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


def _args(*names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


# ----------------------------------------------------------------------------- loops
class It:
    __slots__ = ("cut", "done", "elem", "vals")

    def __init__(self, elem=None):
        self.cut, self.done, self.elem, self.vals = False, False, elem, None


class LoopState:
    """what an invariant sees: locals (by name), the number of finished iterations k, the iterated sequence and its length"""

    def __init__(self, site, frame_locals, seq, k, n, extra=None):
        self.site, self.seq, self.k, self.n = site, seq, k, n
        self.L = {v: engine.freeze(x) for v, x in frame_locals.items()}
        self.extra = extra or {}
        self.mods = set()

    def changed(self, x):
        """does the loop modify the object (a value among the locals)?"""
        return any((m[1] if isinstance(m, tuple) else m) == x.oid for m in self.mods)


class NoInvariant(Unsupported):
    pass


class VC:
    """the runtime of instrumented code"""

    def __init__(self, invariants=None):
        self.invariants = invariants or []   # list of Invariant

    # ---- loops
    def _invariant(self, st):
        for inv in self.invariants:
            b = inv.match(st)
            if b is not None:
                return inv, b
        return None, None

    def iterate(self, site, names, X, dead=()):
        seq = as_iterable(X)
        if not isinstance(seq, SSeqBase) or seq.concrete_len() is not None:
            for e in seq:
                yield It(e)
            return
        yield from self._cut(site, names, seq, None, sys._getframe(1), dead)

    def whiles(self, site, names, cond, dead=()):
        c = ctx()
        n = forks = 0
        if ("cut", site) in c.x.frames.mods:      # (see below)
            yield from self._cut(site, names, None, cond, sys._getframe(1), dead)
            return
        while True:
            c.probe = True
            try:
                v = cond()
                v = bool(v)
            except Probe:
                c.probe = False
                yield from self._cut(site, names, None, cond, sys._getframe(1), dead)
                return
            finally:
                c.probe = False
            d = len(c.taken)
            yield It()          # the body evaluates the condition itself and leaves the loop
            n += 1
            forks += len(c.taken) > d
            if forks > c.env.get("unroll", 8):       # the end of the loop is decided symbolically by its body: cut it at an invariant
                c.x.newframes.append(("mods", ("cut", site), [1]))
                raise Restart()
            if n > 100000:
                raise Unsupported("unbounded concrete while loop")

    def _cut(self, site, names, seq, cond, frame, dead):
        c = ctx()
        x = c.x
        key = (site, len(c.taken), tuple(c.taken))
        fr = x.frames
        n = seq.length() if seq is not None else None
        if n is not None and not z3.is_expr(n):
            n = z3.IntVal(n)
        L0 = {v: x for v, x in frame.f_locals.items() if v not in dead}      # invariants do not speak of variables that every iteration assigns anew
        entry = {v: L0.get(v, UNBOUND) for v in names}
        kinds = fr.kinds.setdefault(key, [])
        if self._note_kinds(fr, key, kinds, names, entry, entry):
            raise Restart()
        mods = fr.mods.setdefault(key, set())
        c.env.setdefault("entry_oid", {})[key] = c.noid
        st = LoopState(site, L0, seq, z3.IntVal(0), n)
        st.names, st.mods = names, mods
        inv, bind = self._invariant(st)
        if inv is None:
            inv, bind = NullInvariant(), {}
            c.blind = c.blind or site
        inv.enter(c, st, bind)
        label = inv.label(site)
        c.reach(label + ": entered")
        self._prove_clauses(c, inv, st, bind, label, "holds on entry", key, entry)
        # havoc
        vals = []
        vec = kinds[0] if len(kinds) == 1 else kinds[c.choose(len(kinds), "kinds")]      # the kinds the variables can have, jointly
        for v, k in zip(names, vec):
            if k[0] == "obj":
                o = c.env["objs"].get(k[1])
                vals.append(o if o is not None else UNBOUND)
            elif k[0] in ("unbound", "opaque"):
                vals.append(UNBOUND)
            elif k[0] == "entry":
                vals.append(L0.get(v, UNBOUND))
            else:
                vals.append(fresh_value(k, v))
        for oid in sorted(o for o in mods if isinstance(o, int)):
            o = c.env["objs"][oid]
            ik = (key, oid)
            if self._note_info(x, ik, o):
                raise Restart()
            c.written(oid)
            aspects = {m[0] for m in mods if isinstance(m, tuple) and m[1] == oid}      # what of the object changes
            for a in aspects:
                c.written((a, oid))
            o.havoc(fr.okinds[ik], "h%d" % oid, aspects)
        k = c.fresh("k", I)
        L1 = dict(L0)
        L1.update({v: val for v, val in zip(names, vals)})
        st1 = LoopState(site, L1, seq, k, n, st.extra)
        st1.names, st1.mods = names, mods
        if n is not None:
            c.assume(z3.And(k >= 0, k <= z3.If(n > 0, n, 0)))
            if getattr(seq, "tag", None):
                c.term(seq.tag, k)
        else:
            c.assume(k >= 0)
        for cl in list(inv.clauses(c, st1, bind)) + self._auto(st1, entry):
            nm, tags, f = cl[:3]
            if (key, nm) in x.dropped:
                continue
            c.universal(tags, f) if tags else [c.assume(g) for g in aslist(f())]
        it = It()
        it.cut, it.vals = True, tuple(vals)
        if n is not None:
            branch = c.choose(2, "iterate/exit")
            if branch == 1:
                c.assume(k == z3.If(n > 0, n, 0))
                inv.exit(c, st1, bind)
                if any(v is UNBOUND for v in vals) and c.sat() == z3.unsat:
                    raise Infeasible()
                it.done = True
                c.reach(label + ": left")
                yield it
                raise Unsupported("loop exit resumed")
            c.assume(k < n)
            if hasattr(type(seq), "at_iter"):
                it.elem = seq.at_iter(k)
            else:
                it.elem = seq.at(k)
            inv.iteration(c, st1, bind)
            c.reach(label + ": iteration")
        else:
            inv.iteration(c, st1, bind)
        v0 = inv.variant(c, st1, bind) if n is None else None
        # one iteration
        written = set()
        c.writes.append(written)
        c.loopdepth += 1
        try:
            yield it
        except GeneratorExit:
            # left by break or return (or an exception): execution goes on with the state reached
            c.loopdepth -= 1
            c.writes[:] = [w for w in c.writes if w is not written]
            for w in c.writes:
                w |= written
            raise
        # back edge
        Lb = {v: x for v, x in frame.f_locals.items() if v not in dead}
        last = self._last_oid_at_entry(c, key)
        new = {o for o in written if (o[1] if isinstance(o, tuple) else o) <= last}
        if any(isinstance(o, tuple) and o[0] == "attr" for o in new):
            raise Unsupported("a loop changes a set or an attribute of an object made before it")
        changed = False
        if not new <= mods:
            x.newframes.append(("mods", key, sorted(new, key=repr)))
            changed = True
        for oid in sorted(o for o in mods | new if isinstance(o, int)):
            o = c.env["objs"].get(oid)
            if o is None:
                continue
            changed |= self._note_info(x, (key, oid), o)
        back = {v: Lb.get(v, UNBOUND) for v in names}
        changed |= self._note_kinds(fr, key, kinds, names, back, entry)
        if changed:
            raise Restart()
        st2 = LoopState(site, Lb, seq, k + 1, n, st.extra)
        st2.names, st2.mods = names, mods
        inv.backedge(c, st2, bind)
        if c.x and not c.proving:
            raise PathEnd()
        c.reach(label + ": back edge")
        self._prove_clauses(c, inv, st2, bind, label, "is preserved", key, entry)
        v1 = inv.variant(c, st2, bind)
        if v1 is not None and v0 is not None:
            c.prove("%s: terminates" % label, z3.And(v1 < v0, v0 >= 0), assume=False)
        raise PathEnd()

    def _last_oid_at_entry(self, c, key):
        return c.env.setdefault("entry_oid", {}).get(key, 10**9)

    def _auto(self, st, entry):
        """candidates for every loop: a variable assigned in the loop has the value it had before it"""
        out = []
        for v in st.names:
            a, b = entry.get(v, UNBOUND), st.L.get(v, UNBOUND)
            if a is UNBOUND or b is UNBOUND or isinstance(a, _Unbound) or isinstance(b, _Unbound):
                continue
            ka, kb = kind_of(a), kind_of(b)
            if ka[0] in engine.SORTS and kb[0] in engine.SORTS:
                out.append(("%s is what it was before the loop" % v, [], lambda a=a, b=b, ok=ka == kb: engine.same(a, b) if ok else z3.BoolVal(False), True))
        return out

    def _prove_clauses(self, c, inv, st, bind, label, what, key, entry):
        if not c.proving:
            return
        groups = {}
        for cl in list(inv.clauses(c, st, bind)) + self._auto(st, entry):
            groups.setdefault(tuple(cl[1]), []).append(cl)
        for tags, cls in groups.items():
            cls = [cl for cl in cls if (key, cl[0]) not in c.x.dropped]
            if not cls:
                continue
            with c.scope():      # arbitrary terms; nothing is assumed about them, so the clauses can share them
                sk = [c.fresh("sk", I) for t in tags]
                for t, q in zip(tags, sk):
                    c.term(t, q)
                    if t.startswith("pos:") and t[4:].isdigit():
                        c.term(t, q + 1)
                for cl in cls:
                    name, f = cl[0], cl[2]
                    goals = [g for g in aslist(f(*sk)) if g is not None]
                    goal = z3.And(*goals) if len(goals) != 1 else goals[0]
                    if len(cl) > 3 and cl[3]:
                        if not c.x.candidate(c, "%s: invariant '%s' %s" % (label, name, what), goal):
                            c.x.dropped.add((key, name))
                        continue
                    c.prove("%s: invariant '%s' %s" % (label, name, what), goal, assume=False)

    def _note_kinds(self, fr, key, kinds, names, vals, entry):
        vec = []
        for v in names:
            val = vals[v]
            k = ("unbound",) if val is UNBOUND or isinstance(val, _Unbound) else kind_of(val)
            if k[0] == "fixed":
                k = ("entry",) if val is entry.get(v) or isinstance(val, str) and val == entry.get(v) else ("opaque",)
            vec.append(k)
        if engine.add_kinds(list(kinds), tuple(vec)):
            ctx().x.newframes.append(("kind", key, tuple(vec)))
            return True
        return False

    def _note_info(self, x, ik, o):
        """the contents of a modified object at the head of a loop"""
        cur, old = o.info(), x.frames.okinds.get(ik)
        j = cur if old is None else o.join_info(old, cur)
        if old is None or j != old:
            x.newframes.append(("okind", ik, (o.join_fn(), cur)))
            return True
        return False

    # ---- expressions
    def is_(self, a, b):
        if b is None or a is None:
            x = a if b is None else b
            if hasattr(x, "vc_is_none"):
                return x.vc_is_none()
            if isinstance(x, SMaybe):
                return SBool(x.null)
            return x is None
        if isinstance(a, SBool) and isinstance(b, bool):
            return a if b else ~a
        if isinstance(b, SBool) and isinstance(a, bool):
            return b if a else ~b
        if is_sym(a) or is_sym(b):
            raise Unsupported("identity of symbolic values")
        if hasattr(a, "vc_is"):
            return a.vc_is(b)
        if hasattr(b, "vc_is"):
            return b.vc_is(a)
        return a is b

    def is_not(self, a, b):
        r = self.is_(a, b)
        return ~r if isinstance(r, SBool) else not r

    def in_(self, a, b):
        if hasattr(b, "vc_contains"):
            return b.vc_contains(a)
        if isinstance(b, (list, tuple)) or isinstance(b, SList) and b.concrete:
            items = b.items if isinstance(b, SList) else b
            if is_sym(a) or any(is_sym(v) for v in items):
                r = z3.Or(*[tobool(v == a) for v in items]) if len(items) else z3.BoolVal(False)
                return SBool(r)
            return any(bool(v == a) for v in items)
        if isinstance(b, (dict, set, frozenset)) and is_sym(a):
            return SBool(z3.Or(*[same(v, a) for v in b])) if len(b) else False
        if isinstance(a, SName) and isinstance(b, str) or isinstance(b, SName):
            raise Unsupported("substring test on symbolic strings")
        return a in b

    def not_in(self, a, b):
        r = self.in_(a, b)
        return ~r if isinstance(r, SBool) else not r

    def mklist(self, items):
        return SList(list(items)) if engine.CTX is not None else list(items)

    def mkdict(self, items):
        if engine.CTX is not None and not items and "empty_dict" in ctx().env:
            return ctx().env["empty_dict"]()
        return SDict(list(items)) if engine.CTX is not None else dict(items)

    def mkset(self, items):
        return sset(items)

    def fstring(self, parts):
        r = None
        for p in parts:
            p = p if isinstance(p, (str, SName)) else sstr(p)
            r = p if r is None else r + p
        return r if r is not None else ""

    def mod(self, a, b):
        if isinstance(a, str):
            bs = b if isinstance(b, tuple) else (b,)
            if any(is_sym(x) or hasattr(x, "vc_str") for x in bs):
                import re
                parts = re.split(r"(%[sd%])", a)
                if sum(p in ("%s", "%d") for p in parts) != len(bs) or any("%" in p and p not in ("%s", "%d", "%%") for p in parts):
                    raise Unsupported("formatting of symbolic values")
                it = iter(bs)
                return self.fstring([next(it) if p in ("%s", "%d") else "%" if p == "%%" else p for p in parts if p != ""])
        return a % b

    def format(self, a, *args, **kw):
        vals = list(args) + list(kw.values())
        if isinstance(a, str) and any(is_sym(x) or hasattr(x, "vc_str") for x in vals):
            import string
            out, n = [], 0
            for lit, field, spec, conv in string.Formatter().parse(a):
                out.append(lit)
                if field is not None:
                    if spec or conv:
                        raise Unsupported("formatting of symbolic values")
                    if field == "":
                        out.append(args[n])
                        n += 1
                    elif field.isdigit():
                        out.append(args[int(field)])
                    elif field in kw:
                        out.append(kw[field])
                    else:
                        raise Unsupported("formatting of symbolic values")
            return self.fstring([p for p in out if not (isinstance(p, str) and p == "")])
        return a.format(*args, **kw)

    def unsupported(self, what):
        raise Unsupported(what)

    def comp_native(self, kind, f):
        return _pack(kind, f())

    def comp(self, kind, X, f, cond):
        seq = as_iterable(X)
        if not isinstance(seq, SSeqBase) or seq.concrete_len() is not None:
            return _pack(kind, [f(e) for e in seq if cond is None or cond(e)])
        if hasattr(seq, "vc_comp"):
            return seq.vc_comp(kind, snap(f), snap(cond))
        if cond is not None:
            raise Unsupported("filtered comprehension over a symbolic sequence")
        f = snap(f)
        if kind in ("list", "gen"):
            src = seq if isinstance(seq, Seq) else Seq(seq.length(), seq._at if isinstance(seq, SList) else freeze(seq).at, getattr(seq, "tag", None), getattr(seq, "meta", None))
            j = ctx().fresh("j", I)
            if src.tag:
                ctx().term(src.tag, j)
            out = []
            f0 = f
            f = engine.applied(lambda e: out.append(f0(e)) or out[-1], lambda: src.at(j), z3.And(0 <= j, j < src.length()))
            k = kind_of(out[0])
            if src.tag:
                src0, tag = src, src.tag
                src = Seq(src0.length(), lambda q: (ctx().term(tag, q), src0.at(q))[1], tag, dict(getattr(src0, "meta", {})))
            if k[0] in ("obj", "fixed"):
                return Seq(src.length(), lambda j: f(src.at(j)), src.tag, dict(getattr(src, "meta", {})))
            if k[0] == "none":
                return SList(None, src.length(), lambda j: None, k)
            return SList(None, src.length(), lambda j: f(src.at(j)), k)
        if kind == "dict":
            return over_set(seq, f) or SMap(seq, f)
        raise Unsupported("%s comprehension over a symbolic sequence" % kind)


def over_set(seq, f):
    """{x: V for x in a set} (also when the set is zipped with other sequences): the keys are the elements, in order"""
    s = next((q for q in getattr(seq, "seqs", [seq]) if hasattr(q, "vc_value_at")), None)
    if s is None:
        return None
    c = ctx()
    j = c.fresh("j", I)
    if seq.tag:
        c.term(seq.tag, j)
    out = []
    f0 = f
    f = engine.applied(lambda e: out.append(f0(e)) or out[-1], lambda: seq.at(j), z3.And(0 <= j, j < seq.length()))
    key = out[0][0]
    k, e = (key if isinstance(key, tuple) else (key,)), s.E(j)
    if len(k) != len(e) or not all(z3.eq(expr(a), b) for a, b in zip(k, e)):
        raise Unsupported("dict over a set whose keys are not its elements")
    return SetMap(s, Seq(seq.length(), lambda q: f(seq.at(q))[1]))


class SMap(SObj):
    """{K(x): V(x) for x in seq} over a symbolic sequence whose keys are distinct; needs the inverse of the key"""

    def __init__(self, seq, f):
        SObj.__init__(self)
        self.seq, self.f = seq, f
        inv = getattr(seq, "meta", {}).get("inverse")
        if inv is None:
            raise Unsupported("dict over a symbolic sequence without a known inverse of its keys")
        self.inverse = inv      # key -> (present, position)

    def vc_contains(self, k):
        p, pos = self.inverse(self, k)
        return SBool(p)

    def __getitem__(self, k):
        p, pos = self.inverse(self, k)
        ctx().prove("no KeyError", p)
        return self.f(self.seq.at(pos))[1]

    def get(self, k, d=None):
        p, pos = self.inverse(self, k)
        if bool(SBool(p)):
            return self.f(self.seq.at(pos))[1]
        return d

    def vc_kind(self):
        return ("obj", self.oid)


def _pack(kind, items):
    if kind in ("list", "gen"):
        return SList(list(items)) if engine.CTX is not None else list(items)
    if kind == "set":
        return sset(items)
    return SDict(list(items)) if engine.CTX is not None else dict(items)


def aslist(x):
    return [g for g in (x if isinstance(x, (list, tuple)) else [x]) if g is not None]


class Invariant:
    """base of the loop invariants of the contracts.  match(st) -> bindings or None (is this the loop I am about?);
    clauses(c, st, bind) -> [(name, tags, f)]: for all terms of the tags, f(*terms) holds."""
    name = "loop"

    def match(self, st):
        return None

    def label(self, site):
        return "%s (%s)" % (self.name, site)

    @staticmethod
    def runs_over(st, n):
        """does the loop make n iterations?"""
        if st.seq is None:
            return False
        m = st.n if z3.is_expr(st.n) else z3.IntVal(st.n)
        if m.eq(n):
            return True
        c = ctx()
        return c.x.check(c, m == z3.If(n > 0, n, 0)) and not z3.is_int_value(z3.simplify(m))

    def enter(self, c, st, bind): pass
    def iteration(self, c, st, bind): pass
    def exit(self, c, st, bind): pass
    def backedge(self, c, st, bind): pass

    def variant(self, c, st, bind):
        """a decreasing non-negative integer, for while loops (termination)"""
        return None

    def clauses(self, c, st, bind):
        return []


class NullInvariant(Invariant):
    name = "loop without invariant"


# ----------------------------------------------------------------------------- builtins
def as_iterable(X):
    if hasattr(X, "vc_iter"):
        return X.vc_iter()
    return X


def slen(x):
    if hasattr(x, "vc_len"):
        r = x.vc_len()
        return r if isinstance(r, (int, SNum)) else mknum(r)
    if isinstance(x, SSeqBase):
        return mknum(x.length())
    if isinstance(x, SName):
        raise Unsupported("length of a symbolic string")
    return len(x)


def mknum(e):
    if isinstance(e, int):
        return e
    v = z3.simplify(e)
    return v.as_long() if z3.is_int_value(v) else SNum(e)


class SRange(SSeqBase):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        self.tag = None

    def length(self):
        if self.step == 1:
            d = self.hi - self.lo
        else:
            d = self.lo - self.hi
        return z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))

    def at(self, k):
        return mknum(self.lo + k if self.step == 1 else self.lo - k)

    def __contains__(self, x):
        raise Unsupported("membership in a symbolic range")

    def vc_contains(self, x):
        e = idx_expr(x)
        return SBool(z3.And(e >= self.lo, e < self.hi) if self.step == 1 else z3.And(e <= self.lo, e > self.hi))


def sdivmod(a, b):
    return (a // b, a % b)


def srange(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    a = [idx_expr(x) for x in a]
    lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (a[0], a[1])
    step = 1
    if len(a) == 3:
        s = z3.simplify(a[2])
        if not z3.is_int_value(s) or s.as_long() not in (1, -1):
            if ctx().sat(s <= 0) != z3.unsat:
                raise Unsupported("range with a step that may not be positive")
            n = z3.If(hi > lo, (hi - lo + s - 1) / s, z3.IntVal(0))
            return Seq(n, lambda k: SNum(lo + k * s))
        step = s.as_long()
    return SRange(lo, hi, step)


class SetMap:
    """a dict whose keys are the elements of a set, in its order; the values are those of a sequence of the same length"""

    def __init__(self, keys, values):
        self.keys_, self.values_ = keys, values
        ctx().prove("a dict from a zip has a value for every key", values.length() >= keys.length())

    def vc_lookup(self, v):
        has, k = self.keys_.vc_value_at(v)
        x = self.values_.at(k)
        return SMaybe(z3.Not(has), x)

    def __getitem__(self, v):
        has, k = self.keys_.vc_value_at(v)
        ctx().prove("no KeyError", has)
        return self.values_.at(k)

    def vc_contains(self, v): return SBool(self.keys_.vc_value_at(v)[0])
    def __contains__(self, v): return bool(self.vc_contains(v))
    def vc_len(self): return self.keys_.length()
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on a dict made by zip" % a)


class Zip(SSeqBase):
    def __init__(self, seqs):
        self.seqs = seqs
        self.tag = next((s.tag for s in seqs if getattr(s, "tag", None)), None)

    def vc_dict(self):
        """dict(zip(keys, values)) where the keys are the elements of a set"""
        if len(self.seqs) == 2 and hasattr(self.seqs[0], "vc_value_at"):
            return SetMap(self.seqs[0], freeze(self.seqs[1]))
        raise Unsupported("dict of a zip")

    def length(self):
        ns = [s.length() for s in self.seqs]
        ns = [n if z3.is_expr(n) else z3.IntVal(n) for n in ns]
        r = ns[0]
        for n in ns[1:]:
            if not r.eq(n):
                r = z3.If(n < r, n, r)
        return r

    @property
    def meta(self):
        m = {}
        for s in self.seqs:
            m.update(getattr(s, "meta", {}))
        return m

    def at(self, k):
        return tuple(s.at(k) for s in self.seqs)


class Conc(SSeqBase):
    tag = None

    def __init__(self, items):
        self.items = items

    def length(self):
        return z3.IntVal(len(self.items))

    def at(self, k):
        k = z3.simplify(k) if z3.is_expr(k) else z3.IntVal(k)
        if z3.is_int_value(k):
            return self.items[k.as_long()]
        r = self.items[-1]
        for j in range(len(self.items) - 2, -1, -1):
            r = ite(k == j, self.items[j], r)
        return r


def szip(*xs):
    if xs and all(hasattr(x, "vc_zip") for x in xs):
        z = xs[0].vc_zip(list(xs))
        if z is not None:
            return z
    xs = [as_iterable(x) for x in xs]
    if any(isinstance(x, SSeqBase) and x.concrete_len() is None for x in xs):
        return Zip([x if isinstance(x, SSeqBase) else Conc(list(x)) for x in xs])
    return zip(*xs)


def senumerate(x, start=0):
    x = as_iterable(x)
    if isinstance(x, SSeqBase) and x.concrete_len() is None:
        n = x.length()
        return Zip([SRange(z3.IntVal(start), n + start), x])
    return enumerate(x, start)


def sreversed(x):
    x = as_iterable(x)
    if isinstance(x, SRange):
        n = x.length()
        return SRange(x.lo + n - 1, x.lo - 1, -1) if x.step == 1 else Seq(n, lambda k: x.at(n - 1 - k))
    if isinstance(x, SSeqBase) and x.concrete_len() is None:
        n = x.length()
        src = Seq(n, x._at) if isinstance(x, SList) else x
        return Seq(n, lambda k: src.at(n - 1 - k))
    return reversed(list(x))


def sint(x=0, *a):
    if isinstance(x, SNum):
        if x.isint:
            return x
        e = x.e
        return SNum(trunc(e))
    if isinstance(x, SBool):
        return SNum(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if hasattr(x, "vc_int"):
        return x.vc_int(*a)
    if isinstance(x, SMaybe):
        ctx().prove("no ValueError (int of a missing value)", z3.Not(x.null))
        return sint(x.val)
    if isinstance(x, SName):
        raise Unsupported("int of a symbolic string")
    return int(x, *a)


def sfloat(x=0.0):
    if isinstance(x, SNum):
        return SNum(z3.ToReal(x.e)) if x.isint else x
    if hasattr(x, "vc_float"):
        return x.vc_float()
    if isinstance(x, SMaybe):
        return SMaybe(x.null, sfloat(x.val))
    return float(x)


_strfn = {}


def sstr(x="", *a, **k):
    if hasattr(type(x), "vc_decode"):
        return x.vc_decode(*a, **k)
    if a or k:
        return str(x, *a, **k)
    if isinstance(x, SName):
        return x
    if hasattr(x, "vc_str"):
        return x.vc_str()
    if isinstance(x, SNum):
        if x.isint:
            f = _strfn.setdefault("int", (z3.Function("str_int", I, I), z3.Function("int_str", I, I)))
            ctx().assume(f[1](f[0](x.e)) == x.e)
            return SName(f[0](x.e))
        raise Unsupported("str of a symbolic real")
    if isinstance(x, SMaybe):
        return "None" if ctx().branch(x.null) else sstr(x.val)
    if is_sym(x):
        raise Unsupported("str of a symbolic value")
    return str(x)


def slist(x=()):
    if hasattr(x, "vc_list"):
        return x.vc_list()
    x = as_iterable(x)
    if isinstance(x, SSeqBase) and x.concrete_len() is None:
        if isinstance(x, SList):
            return x.copy()
        v = x.at(ctx().fresh("j", I))
        k = kind_of(v)
        if k[0] in ("obj", "fixed"):
            return x
        l = SList(None, x.length(), x.at, k)
        if getattr(x, "tag", None):
            l.tag = x.tag
        l.meta = dict(getattr(x, "meta", {}))
        return l
    return SList(list(x)) if engine.CTX is not None else list(x)


def stuple(x=()):
    if hasattr(x, "vc_tuple"):
        return x.vc_tuple()
    x = as_iterable(x)
    if isinstance(x, SList):
        if x.fold is not None:
            return x.fold.total(x)
        if not x.concrete:
            return FrozenSeq(x.n, x._at)
        return tuple(x.items)
    if isinstance(x, SSeqBase) and x.concrete_len() is None:
        return x
    return tuple(x)


class FrozenSeq(Seq):
    pass


class TSet(set):
    """a Python set; changing it is recorded (a cut loop that changes one gets no verdict)"""

    def __init__(self, *a):
        set.__init__(self, *a)
        self.vc_oid = engine.CTX.oid() if engine.CTX is not None else 0

    def _w(name):
        f = getattr(set, name)

        def g(self, *a):
            if engine.CTX is not None:
                engine.CTX.written(("attr", self.vc_oid))
            return f(self, *a)
        return g
    for _n in ("add", "discard", "remove", "update", "pop", "clear", "difference_update", "intersection_update", "__ior__", "__iand__", "__isub__"):
        locals()[_n] = _w(_n)


def tracked_setattr(self, a, v):
    """assignment to an attribute of an instance of a class of the code: recorded"""
    c = engine.CTX
    if c is not None:
        d = self.__dict__
        if "vc_oid" not in d:
            d["vc_oid"] = c.oid()
        c.written(("attr", d["vc_oid"]))
    object.__setattr__(self, a, v)


def sset(x=()):
    if hasattr(x, "vc_set"):
        return x.vc_set()
    x = as_iterable(x)
    if hasattr(x, "vc_set"):
        return x.vc_set()
    if isinstance(x, SSeqBase) and x.concrete_len() is None:
        raise Unsupported("set of a symbolic sequence")
    x = list(x)
    if any(is_sym(v) for v in x):
        out = []
        for v in x:
            if not any(bool(SBool(same(v, w))) for w in out):
                out.append(v)
        return CSet(out)
    return TSet(x)


class CSet:
    """a set of symbolic values known to be distinct"""

    def __init__(self, items):
        self.items = items

    def vc_len(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def vc_contains(self, v):
        return SBool(z3.Or(*[same(v, w) for w in self.items])) if self.items else False


def sdict(*a, **kw):
    if engine.CTX is None:
        return dict(*a, **kw)
    d = SDict() if a or kw or "empty_dict" not in ctx().env else ctx().env["empty_dict"]()
    if a:
        x = a[0]
        if isinstance(x, (dict, SDict)):
            x = x.items()
        if hasattr(x, "vc_dict"):
            return x.vc_dict()
        for k, v in x:
            d[k] = v
    for k, v in kw.items():
        d[k] = v
    return d


_isinstance = isinstance


def sisinstance(x, t):
    ts = t if _isinstance(t, tuple) else (t,)
    for q in ts:
        py = getattr(q, "vc_pytype", q)
        if hasattr(x, "vc_isinstance"):
            r = x.vc_isinstance(py)
            if r is not None:
                if r is True or (r is not False and bool(r)):
                    return True
                continue
        if py is list and _isinstance(x, (SList, list)):
            return True
        if py is dict and _isinstance(x, (SDict, dict)):
            return True
        if py is str and _isinstance(x, (SName, str)):
            return True
        if py is int and (_isinstance(x, SNum) and x.isint or _isinstance(x, (int, SBool))):
            return True
        if py is float and (_isinstance(x, SNum) and not x.isint or _isinstance(x, float)):
            return True
        if py is bool and _isinstance(x, (SBool, bool)):
            return True
        if _isinstance(py, type) and py not in (list, dict, str, int, float, bool) and _isinstance(x, py):
            return True
    return False


class Builtin:
    """a builtin type: callable, and recognised by isinstance/type"""

    def __init__(self, fn, pytype):
        self.fn, self.vc_pytype = fn, pytype
        self.__name__ = pytype.__name__

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __getattr__(self, a):
        if a == "from_bytes" and self.vc_pytype is int:
            return lambda x, *b, **k: x.vc_from_bytes(*b, **k) if hasattr(x, "vc_from_bytes") else int.from_bytes(x, *b, **k)
        return getattr(self.vc_pytype, a)

    def __eq__(self, o):
        return (o.vc_pytype if _isinstance(o, Builtin) else o) is self.vc_pytype

    def __hash__(self):
        return hash(self.vc_pytype)

    def __or__(self, o):
        return self


def stype(x, *a):
    if a:
        return type(x, *a)
    for b, cls in ((BOOL, (SBool, bool)), (STR, (SName, str)), (LIST, (SList, list)), (DICT, (SDict, dict))):
        if _isinstance(x, cls):
            return b
    if _isinstance(x, SNum):
        return INT if x.isint else FLOAT
    if hasattr(x, "vc_type"):
        return x.vc_type()
    if type(x) is int:
        return INT
    if type(x) is float:
        return FLOAT
    return type(x)


def _minmax(pick):
    def f(*a, key=None, default=None):
        if key is not None:
            raise Unsupported("min/max with a key")
        xs = a if len(a) > 1 else as_iterable(a[0])
        if hasattr(a[0], "vc_minmax") and len(a) == 1:
            return a[0].vc_minmax(pick)
        if _isinstance(xs, SSeqBase) and xs.concrete_len() is None:
            raise Unsupported("min/max of a symbolic sequence")
        xs = list(xs)
        r = xs[0]
        for v in xs[1:]:
            t = (v < r) if pick == "min" else (v > r)
            r = ite(t.e, v, r) if _isinstance(t, SBool) else (v if t else r)
        return r
    return f


def ssum(x, start=0):
    if hasattr(x, "vc_sum"):
        return x.vc_sum() + start if start else x.vc_sum()
    x = as_iterable(x)
    if _isinstance(x, SSeqBase) and x.concrete_len() is None:
        if hasattr(x, "vc_sum"):
            return x.vc_sum()
        raise Unsupported("sum of a symbolic sequence")
    r = start
    for v in x:
        r = r + v
    return r


def ssorted(x, key=None, reverse=False):
    x = as_iterable(x)
    if hasattr(x, "vc_sorted"):
        return x.vc_sorted(key, reverse)
    if _isinstance(x, SSeqBase) and x.concrete_len() is None:
        raise Unsupported("sorted of a symbolic sequence")
    x = list(x)
    if any(is_sym(v) for v in x):
        raise Unsupported("sorted of symbolic values")
    return SList(sorted(x, key=key, reverse=reverse))


def sany(x):
    for v in as_iterable(x):
        if v:
            return True
    return False


def sall(x):
    for v in as_iterable(x):
        if not v:
            return False
    return True


def sabs(x):
    return abs(x)


def sround(x, n=None):
    if is_sym(x):
        raise Unsupported("round of a symbolic value")
    return round(x, n) if n is not None else round(x)


INT, FLOAT, STR, LIST, DICT, BOOL = Builtin(sint, int), Builtin(sfloat, float), Builtin(sstr, str), Builtin(slist, list), Builtin(sdict, dict), Builtin(lambda x=False: bool(x), bool)
SET, TUPLE = Builtin(sset, set), Builtin(stuple, tuple)
FROZEN = Builtin(sset, frozenset)
BUILTINS = dict(len=slen, int=INT, float=FLOAT, str=STR, list=LIST, dict=DICT, bool=BOOL, set=SET, frozenset=FROZEN, tuple=TUPLE, range=srange, divmod=sdivmod, zip=szip,
                enumerate=senumerate, reversed=sreversed, isinstance=sisinstance, type=stype, min=_minmax("min"), max=_minmax("max"), sum=ssum,
                sorted=ssorted, any=sany, all=sall, abs=sabs, round=sround, print=lambda *a, **k: None)


# ----------------------------------------------------------------------------- loading modules
_code = {}


class Loader:
    """executes instrumented modules of /repo; `stubs` maps import names to modules of semantics"""

    def __init__(self, vc, stubs, extra_builtins=None):
        self.vc, self.stubs, self.mods = vc, stubs, {}
        self.extra = extra_builtins or {}

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        for q in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.exists(q):
                return q
        return None

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[:len(pkg) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name in self.stubs:
            m = self.stubs[name]
        elif name == "pipit" or name.startswith("pipit."):
            m = self.load(name)
            if not fromlist:
                # "import pipit.trace" binds pipit; attribute access resolves the rest
                return PkgProxy(self, "pipit")
        elif name.split(".")[0] in self.stubs:
            m = self.stubs[name.split(".")[0]]
        elif name in ("math", "os", "os.path", "re", "json", "gzip", "struct", "sys", "typing", "itertools", "collections", "functools", "operator", "bisect", "enum", "dataclasses"):
            m = StubMissing(name) if name not in ("typing", "dataclasses", "enum") else __import__(name, fromlist=["x"])
        else:
            m = StubMissing(name)
        if fromlist:
            return m
        if name in self.stubs or "." not in name:
            return m
        return m

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path(name)
        if p is None:
            raise Unsupported("module %s not found" % name)
        if p.endswith("__init__.py"):
            m = PkgProxy(self, name)
            self.mods[name] = m
            return m
        short = os.path.relpath(p, os.path.join(REPO, "pipit")) if p.startswith(os.path.join(REPO, "pipit")) else p
        if p not in _code:
            tree = ast.parse(open(p, encoding="utf-8").read(), short)
            tree = Rewriter(short).visit(tree)
            ast.fix_missing_locations(tree)
            _code[p] = compile(tree, "<pipit/%s>" % short, "exec")
        import builtins as _b, types
        bi = dict(_b.__dict__)
        bi["__import__"] = self.imp
        m = types.ModuleType(name)
        g = m.__dict__
        g.update(BUILTINS)
        g.update(self.extra)
        g["__vc__"] = self.vc
        g["__builtins__"] = bi
        g["__name__"] = name
        g["__package__"] = name.rsplit(".", 1)[0] if "." in name else name
        g["__file__"] = p
        self.mods[name] = m
        exec(_code[p], g)
        for v in list(g.values()):
            if isinstance(v, type) and v.__module__ == name and "__setattr__" not in v.__dict__ and object in v.__bases__ and "__slots__" not in v.__dict__:
                v.__setattr__ = tracked_setattr
        return m


class PkgProxy:
    def __init__(self, loader, name):
        self.__dict__["_l"], self.__dict__["_n"] = loader, name

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return self._l.load(self._n + "." + a)


class StubMissing:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return StubMissing(self._n + "." + a)

    def __call__(self, *a, **k):
        raise Unsupported("call of %s" % self._n)
