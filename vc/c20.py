"""C20: the trace lines of an HPCToolkit database.  The file is arbitrary bytes seen through its fields; the context tree is any
well-formed forest; a line has any number of samples.  Ghost: the innermost call open after the rows produced so far (none, or a
node).  Every row is checked when it is complete (all eleven columns have received their value): a Leave row closes the innermost
open call, and only if it is not on the path of the sample being processed; an Enter row opens a call of that path whose caller is
the innermost open call; its other columns are those of its context, profile and sample.  After every sample the innermost open
call is the sample's; after the line nothing is open."""
import z3
from contract import *
from heap import NodeHeap, same_node
from binfile import BinFile, Bytes, Val
import engine
import c06

COLUMNS = ["Timestamp (ns)", "Event Type", "Name", "Thread", "Process", "Core", "Host", "Node", "Source File Name", "Source File Line Number", "Calling Context ID"]
TID = 12      # bytes of a sample: u64 time, u32 context


class SampleFile(BinFile):
    """remembers the sample read last: the position of the last 8-byte field read"""

    def read_at(self, p, n):
        if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 8:
            self.lastread = p

    def havoc(self, info, name="file", aspects=()):
        if ctx().loopdepth > 0 and "replay" in ctx().env:
            raise Unsupported("the file is read in an inner loop")
        BinFile.havoc(self, info, name, aspects)


class Replay(SObj):
    """ghost: what is open after the complete rows"""

    def __init__(self, q):
        SObj.__init__(self)
        self.q = q
        self.null, self.ref = z3.BoolVal(True), z3.IntVal(-1)
        self.pending = {n: [] for n in COLUMNS}
        self.rows = z3.IntVal(0)

    def info(self):
        if any(self.pending.values()):
            raise Unsupported("a row is completed by several iterations")
        return ()

    def havoc(self, info, name="replay", aspects=()):
        c = ctx()
        self.null, self.ref, self.rows = c.fresh("open_none", B), c.fresh("open", I), c.fresh("rows", I)
        c.term("node", self.ref)
        c.assume(self.rows >= 0)

    def level(self):
        return z3.If(self.null, z3.IntVal(-1), self.q["h"].f_level(self.ref))

    def isa(self, x):
        """the innermost open call is the node (or None) x"""
        return self.null if x is None else z3.And(z3.Not(self.null), self.ref == x._r)

    def on_path(self, null, ref):
        """nothing is open, or the innermost open call is on the path of (null, ref)"""
        q = self.q
        lev = q["h"].f_level
        return z3.Or(self.null, z3.And(z3.Not(null), lev(self.ref) <= lev(ref), q["anc"](ref, lev(self.ref)) == self.ref))

    def append(self, col, v):
        self.touch()
        self.pending[col].append(v)
        if all(self.pending.values()):
            self.commit({n: self.pending[n].pop(0) for n in COLUMNS})

    def commit(self, row):
        c, q = ctx(), self.q
        h, anc, f = q["h"], q["anc"], q["file"]
        lev, par, pn = h.f_level, h.f_parent, h.f_pnull
        if f.lastread is None:
            tnull, tref, time = z3.BoolVal(True), z3.IntVal(-1), q["max"] - q["min"]
        else:
            p = f.lastread
            x = f.field(4, z3.simplify(p + 8))
            tnull, tref, time = x == 0, q["node_of"](x), f.field(8, p) - q["min"]
        typ = row["Event Type"]
        if not isinstance(typ, (str, SName)):
            c.prove("every row is of type Enter, Leave, Loop Enter or Loop Leave", False)
            return
        t = nameexpr_(typ)
        is_ = lambda s: t == code(s)
        E, L = z3.Or(is_("Enter"), is_("Loop Enter")), z3.Or(is_("Leave"), is_("Loop Leave"))
        c.prove("every row is of type Enter, Leave, Loop Enter or Loop Leave", z3.Or(E, L))
        u = row["Node"]
        if type(u) is not h.cls:
            c.prove("every row has a node", False)
            raise PathEnd()
        n = u._r
        c.term("node", n)
        c.term("node", tref)
        for l in (lev(n), lev(self.ref), lev(self.ref) - 1):
            c.term("lev", l)
        c.prove("a Leave row closes the innermost open call", z3.Implies(L, self.isa(u)))
        c.prove("only calls that are not on the path of the sample are closed", z3.Implies(L, z3.Or(tnull, lev(n) > lev(tref), anc(tref, lev(n)) != n)))
        c.prove("only calls on the path of the sample are opened", z3.Implies(E, z3.And(z3.Not(tnull), lev(n) <= lev(tref), anc(tref, lev(n)) == n)))
        c.prove("an Enter row's caller is the innermost open call", z3.Implies(E, z3.And(pn(n) == self.null, z3.Or(self.null, par(n) == self.ref))))
        c.prove("the time of a row is that of its sample, relative to the first of the trace", same(row["Timestamp (ns)"], SNum(time)))
        x = q["ctx_of"](h.f_nid(n))
        info = q["info"]
        c.prove("loops have their own types, other calls the plain ones", z3.Or(is_("Loop Enter"), is_("Loop Leave")) == info["loop_type"](x))
        for col, want in (("Calling Context ID", SNum(x)), ("Name", Val(info["function"](x)).vc_str()), ("Source File Name", Val(info["file"](x))), ("Source File Line Number", Val(info["line"](x))),
                          ("Process", q["hit"]("RANK")), ("Thread", q["hit"]("THREAD")), ("Core", q["hit"]("CORE")), ("Host", q["hit"]("NODE"))):
            c.prove("%s of a row" % col, same(row[col], want))
        r = self.ref
        self.null, self.ref, self.rows = z3.simplify(z3.If(E, z3.BoolVal(False), pn(r))), z3.simplify(z3.If(E, n, par(r))), self.rows + 1
        c.term("node", self.ref)
        c.term("lev", lev(self.ref))


def nameexpr_(v):
    return expr(v)


class Column:
    """a column of the table: rows are only ever added at its end"""

    def __init__(self, name, replay):
        self.name, self.replay = name, replay

    def append(self, v): self.replay.append(self.name, v)
    def vc_len(self): return SNum(self.replay.rows + len(self.replay.pending[self.name]))
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on a column" % a)


class FnMap:
    """a dict known by what it has and holds"""

    def __init__(self, has, get, why):
        self.has, self.get_, self.why = has, get, why

    def vc_contains(self, k): return SBool(self.has(idx_expr(k)))

    def __getitem__(self, k):
        e = idx_expr(k)
        ctx().prove("no KeyError (%s)" % self.why, self.has(e))
        return self.get_(e)

    def get(self, k, d=None):
        e = idx_expr(k)
        return self.get_(e) if bool(SBool(self.has(e))) else d

    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("dict operation .%s" % a)


def nodes_of(st, h):
    return sorted((v, x) for v, x in st.L.items() if (x is None or type(x) is h.cls) and not v.startswith("__"))


class LineInv(Invariant):
    """all loops of the function: over the samples (it reads the file), and those closing and opening calls"""
    name = "samples"

    def match(self, st):
        q = ctx().env.get("c20")
        if q is None:
            return None
        R = q["replay"]
        return {"q": q, "outer": ctx().loopdepth == 0 and st.changed(q["file"]), "null": R.null, "ref": R.ref, "level": R.level(), "k": q.get("k")}

    def label(self, site):
        return "loop"

    def clauses(self, c, st, bind):
        q = bind["q"]
        h, anc, f, R = q["h"], q["anc"], q["file"], engine.freeze(q["replay"])
        pos = f.pos
        k = st.k
        lev = h.f_level
        out = []
        names = nodes_of(st, h)
        if bind["outer"]:
            out.append(("the next sample is read next", [], lambda: pos == q["start"] + TID * k))
            out.append(("no sample is read beyond the last", [], lambda: k <= q["n"]))
            prev = f.field(4, z3.simplify(q["start"] + TID * (k - 1) + 8))
            nn, nr = z3.Or(k == 0, prev == 0), q["node_of"](prev)
            c.term("node", nr)
            out.append(("the innermost open call is the one of the sample before", [], lambda: z3.And(R.null == nn, z3.Or(nn, R.ref == nr))))
            for v, x in sorted(st.L.items()):
                if v in st.names and isinstance(x, (int, SNum)) and not isinstance(x, bool) and (isinstance(x, int) or x.isint):
                    out.append(("%s is the context of the sample before" % v, [], lambda x=x: expr(x) == z3.If(k == 0, z3.IntVal(-1), prev), True))
                    out.append(("%s is the number of samples read" % v, [], lambda x=x: expr(x) == k, True))
                    out.append(("%s is the position of the next sample" % v, [], lambda x=x: expr(x) == q["start"] + TID * k, True))
        else:
            for t in (lev(R.ref), R.level()):
                c.term("lev", t)
            out.append(("what is open is part of what was open before the loop", [], lambda: R.on_path(bind["null"], bind["ref"]), True))
            s = f.lastread
            if s is not None:
                t = f.field(4, z3.simplify(s + 8))
                out.append(("what is open is on the path of the sample", [], lambda: R.on_path(t == 0, q["node_of"](t)), True))
            out.append(("one call more is open after every iteration", [], lambda: R.level() == bind["level"] + k, True))
            out.append(("one call less is open after every iteration", [], lambda: R.level() == bind["level"] - k, True))
            for v, x in names:
                out.append(("what is open is below %s" % v, [], lambda x=x: z3.BoolVal(True) if x is None else z3.And(z3.Not(R.null), lev(x._r) <= lev(R.ref)), True))
        for v, x in names:
            out.append(("%s is the innermost open call" % v, [], lambda x=x: R.isa(x), True))
        return out

    def variant(self, c, st, bind):
        q = bind["q"]
        return q["start"] + TID * q["n"] - q["file"].pos if bind["outer"] else q["replay"].level() + 1


def world(c, load, hp):
    q = {"h": None}
    q["h"], q["anc"] = h, anc = c06.forest(c, load)
    q["file"] = f = SampleFile()
    c.env["str_of"] = c.fresh_fn("str_of", I, I)
    q["min"], q["max"] = c.fresh("min_time", I), c.fresh("max_time", I)
    q["node_of"], q["ctx_of"] = c.fresh_fn("node_of_context", I, I), c.fresh_fn("context_of_nid", I, I)
    q["info"] = {"function": c.fresh_fn("function_of", I, I), "file": c.fresh_fn("file_of", I, I), "line": c.fresh_fn("line_of", I, I), "module": c.fresh_fn("module_of", I, I), "loop_type": c.fresh_fn("is_loop", I, B),
                 "lexical_type": c.fresh_fn("lexical_type", I, I), "relation": c.fresh_fn("relation", I, I)}
    return q


def install(c, q):
    """the contracts of the functions called: Node (C06), contexts and profiles (C21)"""
    h, anc = q["h"], q["anc"]
    lev = h.f_level

    def get_intersection(a, b):
        if b is None:
            return None
        A, Bn = a._r, b._r
        for x in (A, Bn):
            c.term("lev", lev(x))
        if c.choose(2, "no common ancestor"):
            c.universal(["lev"], lambda d: z3.Implies(z3.And(0 <= d, d <= lev(A), d <= lev(Bn)), anc(A, d) != anc(Bn, d)))
            return None
        r = h.ref(c.fresh("common", I))
        c.term("lev", lev(r._r))
        c.assume(z3.And(lev(r._r) <= lev(A), lev(r._r) <= lev(Bn), anc(A, lev(r._r)) == r._r, anc(Bn, lev(r._r)) == r._r))
        c.universal(["lev"], lambda d: z3.Implies(z3.And(d > lev(r._r), d <= lev(A), d <= lev(Bn)), anc(A, d) != anc(Bn, d)))
        return r

    def get_node_list(a, m):
        A, m = a._r, idx_expr(m)
        low = z3.If(m < -1, z3.IntVal(-1), m)

        def at(j):
            c.term("lev", z3.simplify(lev(A) - j))
            return h.ref(anc(A, lev(A) - j))
        return SList(None, z3.simplify(z3.If(lev(A) > low, lev(A) - low, z3.IntVal(0))), at, ("node", h.oid))
    h.cls.get_intersection = get_intersection
    h.cls.get_node_list = get_node_list


class Meta:
    def __init__(self, q):
        self.q = q
        self.node_map = FnMap(lambda x: x != 0, lambda x: q["h"].ref(q["node_of"](x)), "sampled contexts are in the tree")
        self.nid_to_ctx = FnMap(lambda i: z3.BoolVal(True), lambda i: SNum(q["ctx_of"](i)), "nodes have contexts")

    def get_information_from_context_id(self, x):
        e = idx_expr(x)
        i = self.q["info"]
        return SDict([(k, SBool(i[k](e)) if k == "loop_type" else Val(i[k](e))) for k in sorted(i)])

    def vc_kind(self): return ("fixed", self)


class Profile:
    def __init__(self, q, hitfn):
        self.q, self.hitfn = q, hitfn

    def get_hit_from_profile(self, index):
        e = idx_expr(index)
        return SDict([(k, Val(f(e))) for k, f in sorted(self.hitfn.items())])

    def vc_kind(self): return ("fixed", self)


class Line(Contract):
    name = "trace line"
    functions = ["pipit.readers.hpctoolkit_reader.TraceReader.__read_single_trace_header"]
    invariants = [LineInv]

    def run(self, c, load):
        c.max_depth = 1
        c.env["unroll"] = 1      # walks up the tree are loops, not decided step by step
        hp = c.fresh("header", I)
        q = world(c, load, hp)
        f = q["file"]
        m = load("pipit.readers.hpctoolkit_reader")
        m.Node = q["h"].cls
        install(c, q)
        q["start"], q["n"] = f.field(8, hp + 8), c.fresh("nsamples", I)
        c.assume(z3.And(q["n"] >= 0, f.field(8, hp + 16) == q["start"] + TID * q["n"]))
        p = f.field(4, hp)
        hit = {k: c.fresh_fn("hit_" + k, I, I) for k in ("RANK", "THREAD", "CORE", "NODE")}
        q["hit"] = lambda k: Val(hit[k](p))
        R = q["replay"] = Replay(q)
        c.env["c20"] = q
        c.env["replay"] = R
        t = object.__new__(m.TraceReader)
        data = SDict([(n, Column(n, R)) for n in COLUMNS])
        t.__dict__.update(file=f, byte_order="little", signed=False, meta_reader=Meta(q), profile_reader=Profile(q, hit), data=data, min_time_stamp=SNum(q["min"]), max_time_stamp=SNum(q["max"]))
        fn = getattr(t, "_TraceReader__read_single_trace_header", None)
        if fn is None:
            raise Unsupported("no method __read_single_trace_header")
        guarded(c, self.name, lambda: fn(SNum(hp)))
        c.prove("all samples of the line are read", f.pos >= q["start"] + TID * q["n"])
        c.prove("nothing is left open at the end of the line", R.null)
        c.prove("every row has a value in every column", not any(R.pending.values()))


class Calls(SObj):
    """the calls of __read_single_trace_header: the i-th is on the i-th header"""

    def __init__(self, q):
        SObj.__init__(self)
        self.q, self.n = q, z3.IntVal(0)

    def info(self): return ()

    def havoc(self, info, name="calls", aspects=()):
        self.n = ctx().fresh("ncalls", I)

    def __call__(self, p):
        self.touch()
        c, q = ctx(), self.q
        t, f = q["self"], q["file"]
        d = t.__dict__.get("data")
        c.prove("lines are read in the order of their headers", expr(p) == q["first"] + self.n * q["size"])
        c.prove("the first and last time of the trace are known before", z3.And(same(t.__dict__.get("min_time_stamp"), SNum(q["min"])), same(t.__dict__.get("max_time_stamp"), SNum(q["max"]))))
        c.prove("the table has its eleven columns before", isinstance(d, (SDict, dict)) and set(d.keys()) == set(COLUMNS) and all(isinstance(v, SList) and v.concrete and not v.items for v in d.values()))
        self.n = self.n + 1
        f.touch()
        f.havoc(())


class CallsInv(Invariant):
    name = "headers"

    def match(self, st):
        q = ctx().env.get("c20s")
        return None if q is None else {"q": q}

    def clauses(self, c, st, bind):
        q = bind["q"]
        n = q["calls"].n
        out = [("a line read for every header before", [], lambda: n == st.k)]
        for v, x in sorted(st.L.items()):
            if v in st.names and isinstance(x, (int, SNum)) and not isinstance(x, bool) and (isinstance(x, int) or x.isint):
                out.append(("%s is the number of headers before" % v, [], lambda x=x: expr(x) == st.k, True))
                out.append(("%s is the place of the header" % v, [], lambda x=x: expr(x) == q["first"] + st.k * q["size"], True))
        if st.seq is None:
            out.append(("no header beyond the last", [], lambda: st.k <= q["num"], True))
        return out

    def variant(self, c, st, bind):
        return bind["q"]["num"] - st.k


class Section(Contract):
    name = "trace headers"
    functions = ["pipit.readers.hpctoolkit_reader.TraceReader.__read_trace_headers_section"]
    invariants = [CallsInv]

    def run(self, c, load):
        f = BinFile()
        m = load("pipit.readers.hpctoolkit_reader")
        sp = c.fresh("section", I)
        q = {"file": f, "first": f.field(8, sp), "num": f.field(4, sp + 8), "size": f.field(1, sp + 12), "min": f.field(8, sp + 16), "max": f.field(8, sp + 24)}
        q["calls"] = Calls(q)
        c.env["c20s"] = q
        t = q["self"] = object.__new__(m.TraceReader)
        t.__dict__.update(file=f, byte_order="little", signed=False)
        t.__dict__["_TraceReader__read_single_trace_header"] = q["calls"]
        fn = getattr(t, "_TraceReader__read_trace_headers_section", None)
        if fn is None:
            raise Unsupported("no method __read_trace_headers_section")
        guarded(c, self.name, lambda: fn(SNum(sp), SNum(c.fresh("size", I))))
        c.prove("every line is read, once", q["calls"].n == q["num"])


def contracts():
    return [Line(), Section()]


ASSUMPTIONS = ["the database is well formed: samples are 12 bytes each, and the sampled contexts other than 0 are in the context tree, which is a forest with distinct node ids (established by MetaReader: C21)",
               "get_information_from_context_id and get_hit_from_profile are functions of their arguments (C21); get_intersection and get_node_list meet their contracts (C06)",
               "HPCToolkitReader.read orders the rows by time, keeping the order of rows of the same time (pandas; checked by the bounded driver)",
               "integers are mathematical integers (Python's are)"]
