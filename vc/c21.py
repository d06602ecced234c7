"""C21: the sections of meta.db and profile.db.  The files are arbitrary bytes seen through their unsigned little-endian fields; the
specification of every reader is the field table of FORMATS.md.  Sequences of structures: the i-th of an array at base + i * size,
or at place(i) where the length of a structure is in the file.  Sections and helpers are verified one by one; the recursive reader of
contexts against its own contract."""
import z3
from contract import *
from binfile import BinFile, Bytes, Rec, KMap, FMap, Val
import engine

META, PROF, TRACE = "MetaReader", "ProfileReader", "TraceReader"


class FnMap:
    """a dict known by what it has and holds"""

    def __init__(self, has, get, why):
        self.has, self.get_, self.why = has, get, why

    def vc_contains(self, k): return SBool(self.has(idx_expr(k)))

    def __getitem__(self, k):
        e = idx_expr(k)
        ctx().prove("no KeyError (%s)" % self.why, self.has(e))
        return self.get_(e)

    def get(self, k, d=None):
        e = idx_expr(k)
        return self.get_(e) if bool(SBool(self.has(e))) else d

    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("dict operation .%s" % a)


def setup(c, load, cls, name):
    """a reader, before the function is called; its private functions"""
    c.env["empty_dict"] = KMap
    c.env["element"] = Rec.of
    m = load("pipit.readers.hpctoolkit_reader")
    C = getattr(m, cls)
    f = BinFile()
    t = object.__new__(C)
    t.__dict__.update(file=f, byte_order="little", signed=False, encoding="ASCII")
    fn = getattr(t, mangled(cls, name), None)
    if fn is None:
        raise Unsupported("no function %s" % name)
    return m, C, f, t, fn


def mangled(cls, name):
    return "_%s%s" % (cls, name) if name.startswith("__") and not name.endswith("__") else name


def stub(C, name, g):
    if not hasattr(C, mangled(C.__name__, name)):
        raise Unsupported("no function %s" % name)
    type.__setattr__(C, mangled(C.__name__, name), g)


def mentions(c, f, p0, ns):
    return [f.field(n, p0 + o) for o, n in ns]


def maybe(null, v):
    return SMaybe(null, v)


class Header(Contract):
    """constructors: the common header, and every section read once, after those it refers to"""
    max_paths = 50
    META = ("pipit.readers.hpctoolkit_reader.MetaReader", META, b"meta", {"general_properties": 0, "identifier_names": 1, "performance_metrics": 2, "context_tree": 3, "common_string_table": 4, "load_modules": 5,
            "source_files": 6, "functions": 7}, [("common_string_table", "load_modules"), ("common_string_table", "source_files"), ("common_string_table", "functions"), ("common_string_table", "context_tree"),
            ("source_files", "functions"), ("load_modules", "functions"), ("functions", "context_tree"), ("source_files", "context_tree"), ("load_modules", "context_tree")])
    PROF = ("pipit.readers.hpctoolkit_reader.ProfileReader", PROF, b"prof", {"profiles_information": 0, "hit": 1}, [])
    TRACE = ("pipit.readers.hpctoolkit_reader.TraceReader", TRACE, b"trce", {"trace_headers": 0}, [])

    def __init__(self, which):
        self.q, self.cls, self.magic, self.sections, self.order = which
        self.name = "%s and its header" % self.cls
        self.functions = [self.q + ".__init__", self.q + ".__read_common_header"]

    def run(self, c, load):
        m, C, f, t, _ = setup(c, load, self.cls, "__read_common_header")
        c.env["ascii"] = True
        c.env["decoded"] = lambda b: c.prove("the identifiers of the file are looked at", z3.Or(z3.And(b.p == 0, b.n == 10), z3.And(b.p == 10, b.n == 4))) or ("HPCTOOLKIT" if z3.is_int_value(b.p) and b.p.as_long() == 0 else self.magic.decode())
        calls = []

        def opened(path, mode="r", *a):
            c.prove("the file is opened for reading bytes", path == "place of the file" and mode == "rb")
            return f
        m.__dict__["open"] = opened
        for s in self.sections:
            stub(C, "__read_%s_section" % s, lambda self_, p, n, s=s: calls.append((s, p, n)))
        o = object()
        args = {META: (), PROF: (o,), TRACE: (o, o)}[self.cls]
        r, _ = guarded(c, self.name, lambda: C("place of the file", *args))
        c.prove("every section is read once", sorted(x[0] for x in calls) == sorted(self.sections))
        for s, p, n in calls:
            i = self.sections[s]
            c.prove("section %s is where the header says" % s, z3.And(expr(n) == f.field(8, z3.IntVal(16 + 16 * i)), expr(p) == f.field(8, z3.IntVal(24 + 16 * i))))
        names = [x[0] for x in calls]
        for a, b in self.order:
            c.prove("%s is read before %s" % (a, b), names.index(a) < names.index(b))
        d = r.__dict__
        if self.cls != META:
            c.prove("the tables of the other files are kept", d.get("meta_reader") is o and (self.cls == PROF or d.get("profile_reader") is o))


class StringInv(Invariant):
    name = "bytes of a string"

    def match(self, st):
        q = ctx().env.get("c21str")
        return None if q is None else {"q": q}

    def clauses(self, c, st, bind):
        q = bind["q"]
        f, p, z, k = q["f"], q["p"], q["z"], st.k
        pos = f.pos
        c.term("pos", pos)
        c.term("pos", pos - 1)
        out = [("the next byte is read next", [], lambda: pos == p + k, True), ("the end is not passed", [], lambda: pos <= z, True)]
        out += [("the next byte was read", [], lambda: pos == p + k + 1, True), ("the end is not passed by more than one", [], lambda: pos <= z + 1, True)]
        for v, x in sorted(st.L.items()):
            if v in st.names and isinstance(x, Bytes):
                out.append(("%s holds the bytes read" % v, [], lambda x=x: z3.And(x.p == p, x.n == k), True))
                out.append(("%s is the last byte read" % v, [], lambda x=x: z3.And(x.p == pos - 1, x.n == 1), True))
            elif v in st.names and isinstance(x, bytes):
                out.append(("%s holds the bytes read" % v, [], lambda x=x: k == len(x) if x == b"" else z3.BoolVal(False), True))
        return out

    def variant(self, c, st, bind):
        return bind["q"]["z"] + 1 - bind["q"]["f"].pos


class ReadString(Contract):
    name = "__read_string"
    functions = ["pipit.readers.hpctoolkit_reader.MetaReader.__read_string"]
    invariants = [StringInv]

    def run(self, c, load):
        m, C, f, t, fn = setup(c, load, META, "__read_string")
        p, z = c.fresh("start", I), c.fresh("end", I)
        c.assume(z3.And(p <= z, f.field(1, z) == 0))
        c.universal(["pos"], lambda q: z3.Implies(z3.And(p <= q, q < z), f.field(1, q) != 0))
        c.env["c21str"] = {"f": f, "p": p, "z": z}
        c.env["decoded"] = lambda b: (b.p, b.n)
        r, _ = guarded(c, self.name, lambda: fn(SNum(p)))
        ok = isinstance(r, tuple)
        if not ok:
            c.prove("an empty string only for no bytes", z == p if r == "" else False)
            return
        c.prove("the text of the bytes up to the first zero", z3.And(r[1] == z - p, z3.Or(z == p, r[0] == p)))


class Text:
    """the text of a whole section: strings, each followed by a zero; S(i) the i-th, blen(i) its number of bytes"""

    def __init__(self, q): self.q = q

    def split(self, sep=None, *a):
        ctx().prove("the strings are separated by zeros", sep == "\0" and not a)
        return Seq(self.q["n"], lambda i: SStr(self.q["S"](i), self.q["blen"](i)), "str")

    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on a text" % a)


class SStr(SName):
    __slots__ = ("blen",)

    def __init__(self, e, blen):
        self.e, self.blen = e, blen

    def encode(self, encoding="utf-8", errors="strict"):
        ctx().prove("texts are UTF-8", str(encoding).lower().replace("_", "-") in ("utf-8", "utf8") and errors == "strict")
        return Encoded(self.blen)


class Encoded:
    def __init__(self, n): self.n = n
    def vc_len(self): return SNum(self.n)
    def vc_kind(self): return ("fixed", self)


class TableInv(Invariant):
    """loops that build the tables of a section, one structure after the other"""
    name = "structures"

    def match(self, st):
        q = ctx().env.get("c21tab")
        return None if q is None or ctx().loopdepth else {"q": q}

    def clauses(self, c, st, bind):
        q, k = bind["q"], st.k
        d = q["self"].__dict__
        out = []
        for a, want in sorted(q.get("lists", {}).items()):
            l = d.get(a)
            if not isinstance(l, SList) or not st.changed(l):
                continue
            l = engine.freeze(l)
            out.append(("%s: one entry per structure" % a, [], lambda l=l: l.length() == k))

            def el(j, l=l, want=want):
                if l.concrete and not l.items:
                    return z3.BoolVal(True)
                try:
                    return z3.Implies(z3.And(0 <= j, j < k), matches(l.at(j), want(j)))
                except EmptyElem:
                    return z3.BoolVal(True)
            out.append(("%s: the entries are the structures" % a, [l.tag], el))
        for a, want in sorted(q.get("maps", {}).items()):
            x = d.get(a)
            if not isinstance(x, KMap) or not st.changed(x):
                continue
            x = engine.freeze(x)
            out.append(("%s: an entry per structure" % a, [q["tag"]], lambda j, x=x, want=want: z3.Implies(z3.And(0 <= j, j < k), want(x, j)) if x.get_ is not None else z3.Not(z3.And(0 <= j, j < k))))
        for v, x in sorted(st.L.items()):
            if v in st.names and isinstance(x, (int, SNum)) and not isinstance(x, bool) and (isinstance(x, int) or x.isint):
                for nm, w in [("the place of the next structure", q.get("place")), ("the number of structures before", lambda k: k)]:
                    if w is not None:
                        out.append(("%s is %s" % (v, nm), [], lambda x=x, w=w: expr(x) == w(k), True))
        if st.seq is None or q.get("stream"):
            pos = q["file"].pos
            out.append(("the next structure is read next", [], lambda: pos == q["place"](k), not q.get("stream")))
        if st.seq is None:
            out.append(("no structure beyond the last", [], lambda: k <= q["n"]))
        for nm, w in q.get("more", {}).items():
            g = w(k)
            out.append((nm, [], lambda g=g: g()))
        return out

    def iteration(self, c, st, bind):
        c.env["c21k"] = st.k
        c.term(bind["q"].get("tag", "structure"), st.k)

    def variant(self, c, st, bind):
        return bind["q"]["n"] - st.k


def matches(v, want):
    if isinstance(want, dict):
        return v.matches(want) if isinstance(v, Rec) else z3.BoolVal(False)
    return same(v, want)


def check_list(c, t, name, n, want):
    l = t.__dict__.get(name)
    if not isinstance(l, SSeqBase):
        c.prove("%s is a list" % name, False)
        return
    c.prove("%s has one entry per structure" % name, l.length() == n)
    j = c.fresh("j", I)
    c.term(getattr(l, "tag", None) or "structure", j)
    if isinstance(l, SList) and l.concrete and not l.items:
        c.prove("%s is empty only if there is nothing" % name, n == 0)
        return
    try:
        c.prove("%s: every entry is its structure" % name, z3.Implies(z3.And(0 <= j, j < n), matches(l.at(j), want(j))))
    except EmptyElem:
        pass


class Strings(Contract):
    name = "common string table"
    functions = ["pipit.readers.hpctoolkit_reader.MetaReader.__read_common_string_table_section", "pipit.readers.hpctoolkit_reader.MetaReader.__get_common_string"]
    invariants = [TableInv]

    def run(self, c, load):
        m, C, f, t, fn = setup(c, load, META, "__read_common_string_table_section")
        sp, size = c.fresh("section", I), c.fresh("size", I)
        n = c.fresh("nstrings", I)
        S, bl, pl = c.fresh_fn("string", I, I), c.fresh_fn("bytes_of", I, I), c.fresh_fn("place", I, I)
        q = {"n": n, "S": lambda i: S(i), "blen": lambda i: bl(i), "place": lambda k: pl(k), "self": t, "file": f, "tag": "str"}
        c.assume(z3.And(n >= 1, pl(0) == sp))
        c.universal(["str"], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(bl(i) >= 0, pl(i + 1) == pl(i) + bl(i) + 1)))
        c.universal(["str", "str"], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j <= n), pl(i) < pl(j)))      # (by induction from the line before)
        q["maps"] = {"common_string_index_map": lambda x, j: z3.And(x.has(pl(j)), expr(x.get_(pl(j))) == j)}
        c.env["c21tab"] = q

        def text(b):
            c.prove("the whole section is read", z3.And(b.p == sp, b.n == size))
            return Text(q)
        c.env["decoded"] = text
        guarded(c, self.name, lambda: fn(SNum(sp), SNum(size)))
        j = c.fresh("j", I)
        c.term("str", j)
        c.assume(z3.And(0 <= j, j < n))
        check_list(c, t, "common_strings", n, lambda i: SName(S(i)))
        x = t.__dict__["common_string_index_map"]
        c.prove("every string is found by its place", z3.And(x.has(pl(j)), expr(x[SNum(pl(j))]) == j))
        g = getattr(t, "_MetaReader__get_common_string", None)
        if g is not None:
            r, _ = guarded(c, self.name, lambda: g(SNum(pl(j))))
            c.prove("a string looked up by its place is the one there", same(r, SName(S(j))))


class Arrays(Contract):
    """sections that are arrays of structures at base + i * size"""
    invariants = [TableInv]
    LM = ("load modules", "__read_load_modules_section", 2, "load_modules_list", "load_modules_pointer", "load_module_size")
    SF = ("source files", "__read_source_files_section", 2, "source_files_list", "source_files_pointer", "source_file_size")
    FN = ("functions", "__read_functions_section", 2, "functions_list", "functions_array_pointer", "function_size")

    def __init__(self, which):
        self.name, self.fname, self.sz, self.list, self.base, self.size = which
        self.functions = ["pipit.readers.hpctoolkit_reader.MetaReader." + self.fname]

    def run(self, c, load):
        m, C, f, t, fn = setup(c, load, META, self.fname)
        sp = c.fresh("section", I)
        base, n, size = f.field(8, sp), f.field(4, sp + 8), f.field(self.sz, sp + 12)
        csi = c.fresh_fn("string_at", I, I)
        t.__dict__["common_string_index_map"] = FnMap(lambda p: p != 0, lambda p: SNum(csi(p)), "strings are in the string table")
        at = lambda j: base + j * size
        q = {"self": t, "file": f, "n": n, "tag": "structure", "place": at}
        if self.list != "functions_list":
            c.universal(["structure"], lambda j: f.field(8, at(j) + 8) != 0)
            want = lambda j: {"string_index": SNum(csi(f.field(8, at(j) + 8)))}
        else:
            lm, sf = c.fresh_fn("module_at", I, I), c.fresh_fn("source_file_at", I, I)
            stub(C, "__get_load_modules_index", lambda s, p: SNum(lm(expr(p))))
            stub(C, "__get_source_file_index", lambda s, p: SNum(sf(expr(p))))

            def want(j):
                s, mo, off, fi, line = (f.field(8, at(j)), f.field(8, at(j) + 8), f.field(8, at(j) + 16), f.field(8, at(j) + 24), f.field(4, at(j) + 32))
                return {"string_index": maybe(s == 0, SNum(csi(s))), "load_modules_index": maybe(mo == 0, SNum(lm(mo))), "source_file_index": maybe(fi == 0, SNum(sf(fi))), "load_modules_offset": SNum(off), "source_line": SNum(line)}
        q["lists"] = {self.list: want}
        c.env["c21tab"] = q
        guarded(c, self.name, lambda: fn(SNum(sp), SNum(c.fresh("size", I))))
        check_list(c, t, self.list, n, want)
        d = t.__dict__
        c.prove("where the array is and the size of its structures are kept", z3.And(same(d.get(self.base), SNum(base)), same(d.get(self.size), SNum(size))))


class Names(Contract):
    name = "identifier names and general properties"
    functions = ["pipit.readers.hpctoolkit_reader.MetaReader.__read_identifier_names_section", "pipit.readers.hpctoolkit_reader.MetaReader.get_identifier_name",
                 "pipit.readers.hpctoolkit_reader.MetaReader.__read_general_properties_section"]
    invariants = [TableInv]

    def run(self, c, load):
        which = c.choose(2, "section")
        m, C, f, t, fn = setup(c, load, META, "__read_identifier_names_section" if which == 0 else "__read_general_properties_section")
        sp = c.fresh("section", I)
        STR = c.fresh_fn("string_at", I, I)

        def read(s, p):
            f.touch()
            f.havoc(())
            return SName(STR(expr(p)))
        stub(C, "__read_string", read)
        if which:
            guarded(c, self.name, lambda: fn(SNum(sp), SNum(c.fresh("size", I))))
            c.prove("title and description of the database", z3.And(same(t.__dict__.get("database_title"), SName(STR(f.field(8, sp)))), same(t.__dict__.get("database_description"), SName(STR(f.field(8, sp + 8))))))
            return
        base, n = f.field(8, sp), f.field(1, sp + 8)
        want = lambda j: SName(STR(f.field(8, base + 8 * j)))
        c.env["c21tab"] = {"self": t, "file": f, "n": n, "tag": "structure", "lists": {"identifier_names": want}, "place": lambda k: base + 8 * k}
        guarded(c, self.name, lambda: fn(SNum(sp), SNum(c.fresh("size", I))))
        check_list(c, t, "identifier_names", n, want)
        j = c.fresh("kind", I)
        c.assume(z3.And(0 <= j, j < n))
        r, _ = guarded(c, self.name, lambda: t.get_identifier_name(SNum(j)))
        c.prove("the name of a kind", same(r, want(j)))


class Index(Contract):
    """a pointer to the i-th structure of an array becomes i"""
    name = "indices from pointers"
    functions = ["pipit.readers.hpctoolkit_reader.MetaReader." + n for n in ("__get_load_modules_index", "__get_source_file_index", "__get_function_index")]

    def run(self, c, load):
        which = c.choose(3, "array")
        name, base, size, lst = [("__get_load_modules_index", "load_modules_pointer", "load_module_size", "load_modules_list"), ("__get_source_file_index", "source_files_pointer", "source_file_size", "source_files_list"),
                                 ("__get_function_index", "functions_array_pointer", "function_size", "functions_list")][which]
        m, C, f, t, fn = setup(c, load, META, name)
        b, s, i, n = c.fresh("base", I), c.fresh("size", I), c.fresh("i", I), c.fresh("n", I)
        c.assume(z3.And(s > 0, b >= 0, 0 <= i, i < n))
        p = c.fresh("pointer", I)
        c.assume(p - b == i * s)
        c.assume((p - b) / s == i)      # (i * s) / s = i, integers, s > 0
        t.__dict__.update({base: SNum(b), size: SNum(s), lst: Seq(n, lambda j: SNum(j), "structure")})
        r, _ = guarded(c, self.name, lambda: fn(SNum(p)))
        c.prove("the index is the number of the structure", same(r, SNum(i)))


# ------------------------------------------------------------------ contexts
class FakeNode:
    """a node of the tree, as the readers use it (the class itself: C05, C06)"""
    made = None

    def __init__(self, id, parent, level=None):
        self.__dict__.update(id=id, parent=parent, kids=[], level=level)
        FakeNode.made.append(self)

    def add_child(self, x): self.kids.append(x)
    def vc_kind(self): return ("fixed", self)


class FakeGraph:
    def __init__(self): self.roots_ = []
    def add_root(self, n): self.roots_.append(n)
    def vc_kind(self): return ("fixed", self)


class WMap(SObj):
    """a dict of which the entries before are known, and which is written"""

    def __init__(self, has, get):
        SObj.__init__(self)
        self.has, self.get_, self.sets = has, get, []

    def info(self): return ()

    def havoc(self, info, name="map", aspects=()):
        self.sets = []

    def __setitem__(self, k, v):
        self.touch()
        self.sets.append((expr(k), Rec.of(v)))

    def __getitem__(self, k):
        e = expr(k)
        for k2, v in reversed(self.sets):
            if ctx().branch(k2 == e):
                return v
        ctx().prove("no KeyError", self.has(e))
        return self.get_(e)

    def vc_contains(self, k):
        return SBool(z3.Or(self.has(expr(k)), *[k2 == expr(k) for k2, v in self.sets]))

    def get(self, k, d=None): return self[k] if bool(self.vc_contains(k)) else d

    def setdefault(self, k, v=None):
        if not bool(self.vc_contains(k)):
            self[k] = v
        return self[k]

    def vc_kind(self): return ("obj", self.oid)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("dict operation .%s" % a)


class ParentInfo:
    """the record of a context made before: of an entry point (root), or of another"""

    def __init__(self, root, fields): self.root, self.fields = root, fields
    def vc_contains(self, k): return SBool(self.root) if k == "string_index" else k in self.fields
    def get(self, k, d=None): return self[k] if bool(self.vc_contains(k)) else d

    def __getitem__(self, k):
        if k not in self.fields:
            raise Unsupported("field %r of a context" % (k,))
        return self.fields[k]

    def vc_kind(self): return ("fixed", self)


FIELDS = ("function_index", "source_file_index", "source_file_line", "load_module_index", "load_module_offset")


class Visits(SObj):
    """the recursive calls: one per context, in order, when everything about the context has been entered"""

    def __init__(self, q):
        SObj.__init__(self)
        self.q, self.n = q, z3.IntVal(0)

    def info(self): return ()

    def havoc(self, info, name="visits", aspects=()):
        self.n = ctx().fresh("visits", I)
        FakeNode.made.clear()
        self.q["parent"].kids.clear() if self.q.get("parent") else None

    def __call__(self, s, ptr, size, node, x):
        self.touch()
        c, q = ctx(), self.q
        f = q["file"]
        q["check"](self.n, ptr, size, node, x)
        self.n = self.n + 1
        f.touch()
        f.havoc(())
        for w in (q["contexts"], q["nodes"]):
            w.touch()
            w.sets = []
        FakeNode.made.clear()


class Contexts(Invariant):
    name = "contexts"

    def match(self, st):
        q = ctx().env.get("c21ctx")
        return None if q is None or ctx().loopdepth else {"q": q}

    def clauses(self, c, st, bind):
        q, k = bind["q"], st.k
        n, pos = q["visits"].n, q["file"].pos
        out = [("a call for every structure before", [], lambda: n == k)]
        if q.get("place"):
            out.append(("the next structure is read next", [], lambda: pos == q["place"](k)))
            out.append(("no structure beyond the last", [], lambda: k <= q["n"]))
        for v, x in sorted(st.L.items()):
            if v in st.names and isinstance(x, (int, SNum)) and not isinstance(x, bool) and (isinstance(x, int) or x.isint):
                for nm, w in [("the place of the structure", q.get("at")), ("the number of structures before", lambda k: k), ("the number of bytes before", q.get("offset"))]:
                    if w is not None:
                        out.append(("%s is %s" % (v, nm), [], lambda x=x, w=w: expr(x) == w(k), True))
        return out

    def iteration(self, c, st, bind):
        c.term("rec", st.k)

    def backedge(self, c, st, bind):
        q = bind["q"]
        c.prove("nothing else is entered", not q["contexts"].sets and not q["nodes"].sets and not FakeNode.made if q.get("place") else True)

    def variant(self, c, st, bind):
        return bind["q"]["n"] - st.k


def context_world(c, m, C, f, t):
    FakeNode.made = []
    m.Node, m.Graph = FakeNode, FakeGraph
    ids = c.fresh_fn("id_of", I, I)
    if not hasattr(C, "_add_context_id"):
        raise Unsupported("no function _add_context_id")
    stub(C, "_add_context_id", lambda s, x: SNum(ids(expr(x))))
    return ids


class Entry(Contract):
    name = "entry point"
    functions = ["pipit.readers.hpctoolkit_reader.MetaReader.__read_single_entry_point"]
    invariants = [Contexts]

    def run(self, c, load):
        m, C, f, t, fn = setup(c, load, META, "__read_single_entry_point")
        ids = context_world(c, m, C, f, t)
        csi = c.fresh_fn("string_at", I, I)
        p = c.fresh("entry", I)
        x, name = f.field(4, p + 16), f.field(8, p + 24)
        g = FakeGraph()
        q = {"file": f, "contexts": WMap(lambda e: z3.BoolVal(False), None), "nodes": WMap(lambda e: z3.BoolVal(False), None)}
        t.__dict__.update(common_string_index_map=FnMap(lambda e: e == name, lambda e: SNum(csi(e)), "strings are in the string table"), context_map=q["contexts"], node_map=q["nodes"], cct=g)

        def check(n, ptr, size, node, ctx_):
            c.prove("the children are read from where they are", z3.And(expr(ptr) == f.field(8, p + 8), expr(size) == f.field(8, p), expr(ctx_) == x))
            ok = type(node) is FakeNode and FakeNode.made == [node] and node.parent is None and g.roots_ == [node]
            c.prove("the entry point is a new root of the tree", ok)
            if ok:
                c.prove("the root stands for the context", z3.And(same(node.id, SNum(ids(x))), len(q["nodes"].sets) == 1 and q["nodes"].sets[0][1] is node, q["nodes"].sets[0][0] == x if q["nodes"].sets else False))
            s = q["contexts"].sets
            want = {"string_index": SNum(csi(name)), "relation": None, "lexical_type": None, **{k: None for k in FIELDS}}
            c.prove("the context is an entry point with its name", z3.And(s[0][0] == x, s[0][1].matches(want)) if len(s) == 1 and isinstance(s[0][1], Rec) else False)
        q["check"] = check
        q["visits"] = v = Visits(q)
        stub(C, "__read_children_contexts", lambda s, *a, **k: v(s, *a, **k))
        c.env["c21ctx"] = q
        guarded(c, self.name, lambda: fn(SNum(p)))
        c.prove("the children are read once", v.n == 1)


class Tree(Contract):
    name = "context tree"
    functions = ["pipit.readers.hpctoolkit_reader.MetaReader.__read_context_tree_section"]
    invariants = [Contexts]

    def run(self, c, load):
        m, C, f, t, fn = setup(c, load, META, "__read_context_tree_section")
        context_world(c, m, C, f, t)
        sp = c.fresh("section", I)
        base, n, size = f.field(8, sp), f.field(2, sp + 8), f.field(1, sp + 10)
        q = {"file": f, "n": n, "contexts": WMap(lambda e: z3.BoolVal(False), None), "nodes": WMap(lambda e: z3.BoolVal(False), None), "at": lambda k: base + k * size}

        def check(k, ptr, *a):
            d = t.__dict__
            c.prove("the entry points are read in order", expr(ptr) == base + k * size)
            c.prove("there is a tree and a table of contexts before", type(d.get("cct")) is FakeGraph and not d["cct"].roots_ and isinstance(d.get("context_map"), KMap) and d["context_map"].get_ is None)
        q["check"] = check
        q["visits"] = v = Visits(q)
        stub(C, "__read_single_entry_point", lambda s, ptr: v(s, ptr, None, None, None))
        c.env["c21ctx"] = q
        guarded(c, self.name, lambda: fn(SNum(sp), SNum(c.fresh("size", I))))
        c.prove("every entry point is read once", v.n == n)


class Children(Contract):
    name = "child contexts"
    functions = ["pipit.readers.hpctoolkit_reader.MetaReader.__read_children_contexts"]
    invariants = [Contexts]

    def run(self, c, load):
        m, C, f, t, fn = setup(c, load, META, "__read_children_contexts")
        ids = context_world(c, m, C, f, t)
        ap, total, px, n = c.fresh("array", I), c.fresh("total", I), c.fresh("parent_context", I), c.fresh("n", I)
        pl = c.fresh_fn("place", I, I)
        u = lambda k, o, w: f.field(w, pl(k) + o)
        bit = lambda k, b: (u(k, 20, 1) / (1 << b)) % 2 == 1
        one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))
        c.assume(z3.And(ap >= 0, total >= 0, n >= 0, z3.Implies(z3.Or(ap == 0, total == 0), n == 0), pl(0) == ap, pl(n) == ap + total))

        def rec(k):
            return z3.Implies(z3.And(0 <= k, k < n), z3.And(pl(k + 1) == pl(k) + 32 + 8 * u(k, 23, 1), pl(k) + 32 * (n - k) <= pl(n), u(k, 16, 4) != px,
                                                           u(k, 23, 1) >= one(bit(k, 0)) + 2 * one(bit(k, 1)) + 2 * one(bit(k, 2))))
        c.universal(["rec"], rec)
        c.term("rec", z3.IntVal(0))
        fn_, sf, lm = c.fresh_fn("function_at", I, I), c.fresh_fn("source_file_at", I, I), c.fresh_fn("module_at", I, I)
        stub(C, "__get_function_index", lambda s, p: SNum(fn_(expr(p))))
        stub(C, "__get_source_file_index", lambda s, p: SNum(sf(expr(p))))
        stub(C, "__get_load_modules_index", lambda s, p: SNum(lm(expr(p))))
        # the record of the parent, and the functions
        root = c.fresh("parent_is_entry_point", B)
        pf = {k: SMaybe(c.fresh("parent_%s_none" % k, B), SNum(c.fresh("parent_" + k, I))) for k in FIELDS}
        c.assume(z3.Implies(root, z3.And(*[v.null for v in pf.values()])))
        G = {k: c.fresh_fn("fn_" + k, I, I) for k in ("source_line", "source_file_index", "load_modules_index", "load_modules_offset")}
        Gn = {k: c.fresh_fn("fn_%s_none" % k, I, B) for k in ("source_file_index", "load_modules_index")}
        gv = lambda k, i: SMaybe(Gn[k](i), SNum(G[k](i))) if k in Gn else SNum(G[k](i))
        parent = FakeNode(SNum(c.fresh("parent_id", I)), None)
        q = {"file": f, "n": n, "place": lambda k: pl(k), "at": lambda k: pl(k), "offset": lambda k: pl(k) - ap, "parent": parent,
             "contexts": WMap(lambda e: e == px, lambda e: ParentInfo(root, pf)), "nodes": WMap(lambda e: e == px, lambda e: parent)}
        FakeNode.made.clear()
        t.__dict__.update(context_map=q["contexts"], node_map=q["nodes"], functions_list=GSeq(c.fresh("nfunctions", I), gv, sorted(G)))

        def check(k, ptr, size, node, x):
            c.term("rec", k)
            F, S, P = bit(k, 0), bit(k, 1), bit(k, 2)
            o1 = z3.IntVal(32) + 8 * one(F)
            o2 = o1 + 16 * one(S)
            lt = u(k, 22, 1)
            fi = fn_(u(k, 32, 8))
            dec = {"function_index": SMaybe(z3.Not(F), SNum(fi)), "source_file_index": SMaybe(z3.Not(S), SNum(sf(u(k, o1, 8)))), "source_file_line": SMaybe(z3.Not(S), SNum(u(k, o1 + 8, 4))),
                   "load_module_index": SMaybe(z3.Not(P), SNum(lm(u(k, o2, 8)))), "load_module_offset": SMaybe(z3.Not(P), SNum(u(k, o2 + 8, 8)))}
            top = z3.And(lt == 0, root, F)
            inh = z3.And(lt == 0, z3.Not(z3.And(root, F)))

            def final(k_):
                v = dec[k_]
                if k_ == "function_index":
                    return v
                own = z3.Not(v.null) if k_ not in ("load_module_offset",) else P
                g = gv({"source_file_index": "source_file_index", "source_file_line": "source_line", "load_module_index": "load_modules_index", "load_module_offset": "load_modules_offset"}[k_], fi)
                g = g if isinstance(g, SMaybe) else SMaybe(False, g)
                return ite(top, g, ite(z3.And(inh, z3.Not(own)), pf[k_], v))
            s, ns = q["contexts"].sets, q["nodes"].sets
            c.prove("one context is entered per structure", len(s) == 1 and isinstance(s[0][1], Rec) and len(ns) == 1)
            if len(s) != 1 or not isinstance(s[0][1], Rec) or len(ns) != 1:
                return
            r = s[0][1]
            c.prove("the context is entered under its id", z3.And(s[0][0] == u(k, 16, 4), ns[0][0] == u(k, 16, 4), expr(x) == u(k, 16, 4)))
            c.prove("relation and lexical type of the context", r.matches({"relation": SNum(u(k, 21, 1)), "lexical_type": SNum(lt)}))
            for k_ in FIELDS:
                c.prove("%s of the context" % k_, r.matches({k_: final(k_)}))
            c.prove("the context is no entry point", "string_index" not in r.keys_)
            c.prove("its children are read from where they are", z3.And(expr(ptr) == u(k, 8, 8), expr(size) == u(k, 0, 8)))
            made, kids = FakeNode.made, parent.kids
            line = z3.Or(lt == 2, lt == 3)
            c.prove("only calls and loops get a node", (z3.Not(line) if made else line) if len(made) <= 1 else False)
            if len(made) == 1:
                w = made[0]
                c.prove("the node is a child of the caller's", w.parent is parent and kids[-1:] == [w] and kids.count(w) == 1 and ns[0][1] is w and node is w)
                c.prove("the node stands for the context", same(w.id, SNum(ids(u(k, 16, 4)))))
            else:
                c.prove("lines and instructions stand for their enclosing call or loop", ns[0][1] is parent and node is parent and not kids)
            parent.kids.clear()
        q["check"] = check
        q["visits"] = v = Visits(q)
        real = fn
        stub(C, "__read_children_contexts", lambda s, *a, **k: v(s, *a, **k))
        c.env["c21ctx"] = q
        guarded(c, self.name, lambda: real(SNum(ap), SNum(total), parent, SNum(px)))
        c.prove("every context of the array is read", v.n == n)


class GSeq(Seq):
    """the functions read before"""

    def __init__(self, n, gv, ks):
        Seq.__init__(self, n, lambda j: Rec(ks, [gv(k, j) for k in ks]), "fn")

    def __getitem__(self, k):
        if isinstance(k, SMaybe):
            ctx().prove("no TypeError (index is not None)", z3.Not(k.null))
            k = k.val
        return self.at(idx_expr(k))


class Info(Contract):
    name = "information about a context"
    functions = ["pipit.readers.hpctoolkit_reader.MetaReader.get_information_from_context_id"]

    def run(self, c, load):
        m, C, f, t, fn = setup(c, load, META, "get_information_from_context_id")
        x = c.fresh("context", I)
        S = c.fresh_fn("string", I, I)
        strings = Indexed(lambda i: SName(S(i)))
        rows = {}
        for l in ("functions_list", "load_modules_list", "source_files_list"):
            g = c.fresh_fn(l + "_string", I, I)
            gn = c.fresh_fn(l + "_none", I, B) if l == "functions_list" else None
            rows[l] = (lambda i, g=g: g(i), gn)
            t.__dict__[l] = Indexed(lambda i, g=g, gn=gn: Rec(("string_index",), (SMaybe(gn(i), SNum(g(i))) if gn is not None else SNum(g(i)),)))
        if c.choose(2, "entry point"):
            si = c.fresh("name", I)
            rec = SDict([("string_index", SNum(si)), ("relation", None), ("lexical_type", None)] + [(k, None) for k in FIELDS])
        else:
            mv = {k: SMaybe(c.fresh(k + "_none", B), SNum(c.fresh(k, I))) for k in FIELDS}
            lt, rel = c.fresh("lexical_type", I), c.fresh("relation", I)
            rec = SDict([("relation", SNum(rel)), ("lexical_type", SNum(lt))] + [(k, mv[k]) for k in FIELDS])
            si = None
        t.__dict__.update(context_map=FnMap(lambda e: e == x, lambda e: rec, "the context exists"), common_strings=strings)
        r, _ = guarded(c, self.name, lambda: fn(SNum(x)))
        ok = isinstance(r, SDict) and set(r.d) >= {"module", "file", "function", "line", "lexical_type", "relation", "loop_type"}
        c.prove("all information is given", ok)
        if not ok:
            return
        r = r.d
        if si is not None:
            c.prove("an entry point: its name, no file, module or line", z3.And(same(r["function"], SName(S(si))), same(r["file"], ""), same(r["module"], ""), same(r["line"], -1), tob(r["loop_type"]) == z3.BoolVal(False)))
            return
        F, (g, gn) = mv["function_index"], rows["functions_list"]
        i = F.val.e
        want = z3.If(lt == 1, z3.IntVal(code("loop")), z3.If(z3.And(z3.Not(F.null), z3.Not(gn(i))), S(g(i)), z3.IntVal(code("<unkown function>"))))
        c.prove("the function is the context's, loops are called so", expr(r["function"]) == want)
        c.prove("loops are marked", tob(r["loop_type"]) == (lt == 1))
        for k, l, key in (("file", "source_files_list", "source_file_index"), ("module", "load_modules_list", "load_module_index")):
            v = mv[key]
            c.prove("the %s of the context" % k, expr(r[k]) == z3.If(v.null, z3.IntVal(code("")), S(rows[l][0](v.val.e))))
        v = mv["source_file_line"]
        if c.branch(v.null):
            c.prove("no line", same(r["line"], -1))
        else:
            c.prove("the line of the context", same(r["line"], engine_str(v.val)))
        c.prove("lexical type and relation", z3.And(same(r["lexical_type"], SNum(lt)), same(r["relation"], SNum(rel))))


def tob(x): return x.e if isinstance(x, SBool) else z3.BoolVal(bool(x))


def engine_str(v):
    import instrument
    return instrument.sstr(v)


class Indexed:
    """a list, by its elements"""

    def __init__(self, at): self.at_ = at

    def __getitem__(self, k):
        if isinstance(k, SMaybe):
            ctx().prove("no TypeError (index is not None)", z3.Not(k.null))
            k = k.val
        return self.at_(idx_expr(k))

    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("operation .%s on a list" % a)


class AddId(Contract):
    name = "node ids"
    functions = ["pipit.readers.hpctoolkit_reader.MetaReader._add_context_id"]

    def run(self, c, load):
        m, C, f, t, fn = setup(c, load, META, "_add_context_id")
        n, x = c.fresh("n", I), c.fresh("context", I)
        h = c.fresh_fn("old", I, I)
        c.assume(n >= 0)
        w = WMap(lambda e: z3.And(0 <= e, e < n), lambda e: SNum(h(e)))
        t.__dict__.update(nid_to_ctx=w, current_nid=SNum(n))
        r, _ = guarded(c, self.name, lambda: fn(SNum(x)))
        c.prove("a new id, standing for the context", z3.And(same(r, SNum(n)), w.sets[0][0] == n, same(w.sets[0][1], SNum(x))) if len(w.sets) == 1 else False)
        c.prove("the next id is new, too", same(t.__dict__["current_nid"], SNum(n + 1)))


# ------------------------------------------------------------------ profile.db
class Cell(SObj):
    def __init__(self):
        SObj.__init__(self)
        self.v = None

    def info(self): return kind_of(self.v) if self.v is not None else None
    def join_fn(self): return join_cell

    def havoc(self, info, name="attribute", aspects=()):
        self.v = None if info is None else engine.fresh_value(info, name)


def join_cell(a, b):
    return a if b is None else b if a is None else engine.join_kind(a, b)


def watched(C, names):
    """the class, with these attributes followed through loops"""
    def set_(self, a, v):
        if a in names:
            x = self.__dict__.setdefault("cell_" + a, None)
            x.touch()
            x.v = v
        else:
            import instrument
            instrument.tracked_setattr(self, a, v)

    def get_(self, a):
        x = object.__getattribute__(self, "__dict__").get("cell_" + a)
        if x is None or x.v is None:
            raise AttributeError(a)
        return x.v
    return type(C.__name__, (C,), {"__setattr__": set_, "__getattr__": get_})


class Profiles(Contract):
    name = "profiles"
    functions = ["pipit.readers.hpctoolkit_reader.ProfileReader.__read_profiles_information_section", "pipit.readers.hpctoolkit_reader.ProfileReader.get_hit_from_profile"]
    invariants = [TableInv]

    def run(self, c, load):
        m, C, f, t0, _ = setup(c, load, PROF, "__read_profiles_information_section")
        W = watched(C, ("summary_profile_index",))
        t = object.__new__(W)
        t.__dict__.update(t0.__dict__)
        t.__dict__["cell_summary_profile_index"] = Cell()
        fn = getattr(t, mangled(PROF, "__read_profiles_information_section"))
        sp = c.fresh("section", I)
        base, n, size = f.field(8, sp), f.field(4, sp + 8), f.field(1, sp + 12)
        at = lambda j: base + j * size
        want = lambda j: {"hit_pointer": SNum(f.field(8, at(j) + 32)), "flags": SNum(f.field(4, at(j) + 40))}
        c.env["c21tab"] = {"self": t, "file": f, "n": n, "tag": "structure", "lists": {"profile_info_list": want}, "place": at}
        guarded(c, self.name, lambda: fn(SNum(sp), SNum(c.fresh("size", I))))
        check_list(c, t, "profile_info_list", n, want)
        l = t.__dict__.get("profile_info_list")
        if not isinstance(l, SList) or l.concrete and not l.items:
            return
        i, h = c.fresh("i", I), c.fresh_fn("identifiers_at", I, I)
        c.assume(z3.And(0 <= i, i < n))
        p = f.field(8, at(i) + 32)
        c.assume(p != 0)
        c.term(l.tag, i)
        t.__dict__["hit_map"] = FnMap(lambda e: e != 0, lambda e: Val(h(e)), "the identifiers of the profile were read")
        r, _ = guarded(c, self.name, lambda: t.get_hit_from_profile(SNum(i)))
        c.prove("a profile has the identifiers it points to", same(r, Val(h(p))))


KEYS = ("NODE", "RANK", "THREAD", "CORE")


class TupleInv(Invariant):
    """the identifiers of one tuple: the last of a kind counts"""
    name = "identifiers"

    def match(self, st):
        q = ctx().env.get("c21tup")
        return None if q is None or ctx().loopdepth != 1 else {"q": q, "k": ctx().env["c21k"]}

    def clauses(self, c, st, bind):
        q, o, k = bind["q"], bind["k"], st.k
        pos = q["file"].pos
        out = [("the next identifier is read next", [], lambda: pos == q["place"](o) + 8 + 16 * k)]
        if st.seq is None:
            out.append(("no identifier beyond the last", [], lambda: k <= q["ntuples"](o)))
        maps = [(v, x) for v, x in sorted(st.L.items()) if isinstance(x, KMap) and st.changed(x)]
        for v, x in maps:
            for key in KEYS:
                e = z3.IntVal(code(key))

                def entry(x=x, e=e):
                    h = q["hv"](o, k, e)
                    return z3.And(x.has(e) == h, z3.Implies(h, same(x.get_(e), SNum(q["vv"](o, k, e))))) if x.get_ is not None else z3.Not(h)
                out.append(("%s of %s is the last one read" % (key, v), [], entry, True))
        for v, x in sorted(st.L.items()):
            if v in st.names and isinstance(x, (int, SNum)) and not isinstance(x, bool) and (isinstance(x, int) or x.isint):
                out.append(("%s is the number of identifiers before" % v, [], lambda x=x: expr(x) == k, True))
        return out

    def iteration(self, c, st, bind):
        c.term("tup", st.k)

    def variant(self, c, st, bind):
        return bind["q"]["ntuples"](bind["k"]) - st.k


class Hits(Contract):
    name = "identifier tuples"
    functions = ["pipit.readers.hpctoolkit_reader.ProfileReader.__read_hit_section", "pipit.readers.hpctoolkit_reader.ProfileReader.__clean_hit"]
    invariants = [TupleInv, TableInv]

    def run(self, c, load):
        m, C, f, t, fn = setup(c, load, PROF, "__read_hit_section")
        sp, size, n = c.fresh("section", I), c.fresh("size", I), c.fresh("n", I)
        pl = c.fresh_fn("place", I, I)
        name = c.fresh_fn("name_of_kind", I, I)
        hv, vv = c.fresh_fn("has_identifier", I, I, I, B), c.fresh_fn("identifier", I, I, I, I)
        nt = lambda k: f.field(2, pl(k))
        kind, phys = lambda k, i: f.field(1, pl(k) + 8 + 16 * i), lambda k, i: f.field(8, pl(k) + 8 + 16 * i + 8)
        c.assume(z3.And(n >= 0, size >= 0, pl(0) == sp, pl(n) == sp + size))
        c.universal(["str"], lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(pl(k + 1) == pl(k) + 8 + 16 * nt(k), pl(k) + 8 * (n - k) <= pl(n))))
        c.universal(["str", "str"], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j <= n), pl(i) < pl(j)))      # (by induction from the line before)
        for key in KEYS:
            e = z3.IntVal(code(key))
            c.universal(["str", "tup"], lambda k, i, e=e: z3.And(z3.Not(hv(k, 0, e)), z3.Implies(i >= 0, z3.And(hv(k, i + 1, e) == z3.Or(name(kind(k, i)) == e, hv(k, i, e)),
                                                                                                      vv(k, i + 1, e) == z3.If(name(kind(k, i)) == e, phys(k, i), vv(k, i, e))))))
        c.term("str", z3.IntVal(0))
        c.term("tup", z3.IntVal(0))

        class M:
            def get_identifier_name(self, k): return SName(name(expr(k)))
            def vc_kind(self): return ("fixed", self)
        t.__dict__["meta_reader"] = M()

        def entry(x, j):
            h = x.get_(pl(j))
            if not isinstance(h, FMap):
                return z3.BoolVal(False)
            out = [x.has(pl(j))]
            for key in KEYS:
                e = z3.IntVal(code(key))
                v = h.get_(e)
                out += [h.has(e), same(v, SMaybe(z3.Not(hv(j, nt(j), e)), SNum(vv(j, nt(j), e))))]
            return z3.And(*out)
        q = {"self": t, "file": f, "n": n, "tag": "str", "place": lambda k: pl(k), "stream": True, "maps": {"hit_map": entry}}
        c.env["c21tab"] = q
        c.env["c21tup"] = {"file": f, "place": lambda k: pl(k), "ntuples": nt, "hv": hv, "vv": vv}
        guarded(c, self.name, lambda: fn(SNum(sp), SNum(size)))
        x, j = t.__dict__.get("hit_map"), c.fresh("j", I)
        c.assume(z3.And(0 <= j, j < n))
        c.term("str", j)
        c.prove("every tuple is found by its place, with node, rank, thread and core or nothing", entry(x, j) if isinstance(x, KMap) and x.get_ is not None else False)


def contracts():
    return [Header(Header.META), Header(Header.PROF), Header(Header.TRACE), ReadString(), Strings(), Arrays(Arrays.LM), Arrays(Arrays.SF), Arrays(Arrays.FN), Names(), Index(), Entry(), Tree(), Children(), Info(), AddId(),
            Profiles(), Hits()]


ASSUMPTIONS = ["the database is well formed: pointers point to structures of their kind, context ids are unique, flex words are as many as the flags say, sections hold whole structures",
               "strings in the common string table are separated by zeros (str.split and UTF-8 encoding of a string have the length it had in the file)", "(i * s) div s = i for integers s > 0",
               "integers are mathematical integers (Python's are)"]
