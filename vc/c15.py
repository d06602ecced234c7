"""C15: configuration options.  State: global_config.  Invariant: every option holds a value its validator accepts.
Each operation is verified from an arbitrary state satisfying the invariant, for an arbitrary key and value - so by induction
over histories every reachable state satisfies the property."""
import z3
from contract import *

S = z3.StringSort()
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
DEFAULTS = {"log_level": "INFO", "notebook_url": "http://localhost:8888"}


class SStr:
    """a string as a z3 string term"""

    def __init__(self, e):
        self.e = e

    def _o(self, o):
        return z3.StringVal(o) if isinstance(o, str) else o.e if isinstance(o, SStr) else None

    def __eq__(self, o):
        x = self._o(o)
        return False if x is None else SBool(self.e == x)

    def __ne__(self, o):
        x = self._o(o)
        return True if x is None else SBool(self.e != x)
    __hash__ = None

    def __bool__(self):
        return ctx().branch(self.e != z3.StringVal(""))

    def vc_len(self):
        return z3.Length(self.e)

    def vc_same(self, o):
        x = self._o(o)
        return z3.BoolVal(False) if x is None else self.e == x

    def vc_isinstance(self, py):
        return py is str

    def vc_type(self):
        import instrument
        return instrument.STR

    def vc_contains(self, o):
        return SBool(z3.Contains(self.e, self._o(o)))

    def vc_str(self):
        return self

    def startswith(self, p):
        if isinstance(p, tuple):
            return SBool(z3.Or(*[z3.PrefixOf(self._o(q), self.e) for q in p]))
        return SBool(z3.PrefixOf(self._o(p), self.e))

    def endswith(self, p):
        return SBool(z3.SuffixOf(self._o(p), self.e))

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and all(x is None or isinstance(x, int) and x >= 0 for x in (k.start, k.stop)):
            a = k.start or 0
            n = z3.Length(self.e)
            return SStr(z3.SubString(self.e, a, (n if k.stop is None else z3.IntVal(k.stop)) - a))
        raise Unsupported("string index")

    def __add__(self, o): return SStr(z3.Concat(self.e, self._o(o)))
    def __radd__(self, o): return SStr(z3.Concat(self._o(o), self.e))
    def vc_kind(self): return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("string method " + a)


class Opaque:
    """a value that is no string: has no string methods, equals no string"""

    def __eq__(self, o): return o is self
    def __ne__(self, o): return o is not self
    __hash__ = None

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise MAttributeError(a)

    def vc_isinstance(self, py): return False
    def vc_type(self): return Opaque
    def __format__(self, f): return "?"
    def vc_same(self, o): return z3.BoolVal(o is self)
    def vc_kind(self): return ("fixed", self)


def z(v):
    return z3.StringVal(v) if isinstance(v, str) else v.e


def accepts(opt, v):
    if opt == "log_level":
        return z3.Or(*[v == z3.StringVal(l) for l in LEVELS])
    return z3.Or(z3.PrefixOf(z3.StringVal("http://"), v), z3.PrefixOf(z3.StringVal("https://"), v))


class Base(Contract):
    trusted = ["Python str methods startswith/==/[:] as z3 string operations; str.format (error messages) returns some string"]

    def state(self, c, load):
        m = load("pipit.util.config")
        cfg = m.global_config
        if not isinstance(cfg, SDict) or set(cfg.d) != set(DEFAULTS):
            c.prove("the options are log_level and notebook_url", False)
            raise PathEnd()
        return m, cfg

    def arbitrary(self, c, cfg):
        old = {}
        for o in DEFAULTS:
            v = SStr(c.fresh("old_" + o, S))
            c.assume(accepts(o, v.e))
            cfg.d[o] = v
            old[o] = v
        return old

    def key(self, c):
        return None if c.choose(2, "key") else SStr(c.fresh("key", S))

    def unchanged(self, c, cfg, old, but=None):
        for o in old:
            if o != but:
                c.prove("option %s keeps its value" % o, same(cfg.d[o], old[o]))


class Init(Base):
    name = "config: initial state"
    functions = ["pipit.util.config (module initialisation)"]

    def run(self, c, load):
        m, cfg = self.state(c, load)
        for o, d in DEFAULTS.items():
            c.prove("initially %s holds its default" % o, cfg.d[o] == d)
            c.prove("the default of %s is acceptable" % o, accepts(o, z3.StringVal(d)))


class Get(Base):
    name = "get_option"
    functions = ["pipit.util.config.get_option"]

    def run(self, c, load):
        m, cfg = self.state(c, load)
        old = self.arbitrary(c, cfg)
        k = self.key(c)
        r, e = guarded(c, self.name, lambda: m.get_option(k), allow=True)
        self.unchanged(c, cfg, old)
        known = z3.BoolVal(False) if k is None else z3.Or(*[k.e == z3.StringVal(o) for o in DEFAULTS])
        if e is not None:
            c.prove("raises only for an option that does not exist", z3.Not(known))
        else:
            c.prove("an option that does not exist is rejected", known)
            for o in DEFAULTS:
                c.prove("returns the option's current value (%s)" % o, z3.Implies(k.e == z3.StringVal(o), same(r, old[o])))


class Set(Base):
    name = "set_option"
    functions = ["pipit.util.config.set_option", "pipit.util.config.log_level_validator", "pipit.util.config.url_validator"]

    def run(self, c, load):
        m, cfg = self.state(c, load)
        old = self.arbitrary(c, cfg)
        k = self.key(c)
        v = Opaque() if c.choose(2, "value") else SStr(c.fresh("value", S))
        r, e = guarded(c, self.name, lambda: m.set_option(k, v), allow=True)
        ok = {o: z3.And(k.e == z3.StringVal(o), accepts(o, v.e)) if k is not None and isinstance(v, SStr) else z3.BoolVal(False) for o in DEFAULTS}
        if e is not None:
            c.prove("raises only for an unknown option or an unacceptable value", z3.Not(z3.Or(*ok.values())))
            self.unchanged(c, cfg, old)
        else:
            c.prove("an unknown option or an unacceptable value is rejected", z3.Or(*ok.values()))
            for o in DEFAULTS:
                c.prove("sets exactly the named option (%s)" % o, same(cfg.d[o], ite_s(ok[o], v, old[o])))
        for o in DEFAULTS:
            x = cfg.d[o]
            c.prove("every option holds an acceptable value afterwards (%s)" % o, accepts(o, z(x)) if isinstance(x, (str, SStr)) else z3.BoolVal(False))
        c.prove("no option appears or disappears", set(cfg.d) == set(DEFAULTS))


def ite_s(cnd, a, b):
    return SStr(z3.If(cnd, z(a), z(b))) if isinstance(a, (str, SStr)) else b


class Reset(Base):
    name = "reset_option"
    functions = ["pipit.util.config.reset_option"]

    def run(self, c, load):
        m, cfg = self.state(c, load)
        old = self.arbitrary(c, cfg)
        k = self.key(c)
        r, e = guarded(c, self.name, lambda: m.reset_option(k), allow=True)
        if k is None:
            c.prove("rejects a missing name", e is not None)
            self.unchanged(c, cfg, old)
            return
        isall = k.e == z3.StringVal("all")
        known = z3.Or(isall, *[k.e == z3.StringVal(o) for o in DEFAULTS])
        if e is not None:
            c.prove("raises only for an option that does not exist", z3.Not(known))
            self.unchanged(c, cfg, old)
        else:
            c.prove("an option that does not exist is rejected", known)
            for o, d in DEFAULTS.items():
                c.prove("resets exactly the named option, or all (%s)" % o, same(cfg.d[o], SStr(z3.If(z3.Or(isall, k.e == z3.StringVal(o)), z3.StringVal(d), old[o].e))))
        c.prove("no option appears or disappears", set(cfg.d) == set(DEFAULTS))


class Defaults(Base):
    """the dictionary of registered options is not modified by any operation (defaults stay what they are)"""
    name = "registered options"
    functions = ["pipit.util.config.set_option", "pipit.util.config.reset_option"]

    def run(self, c, load):
        m, cfg = self.state(c, load)
        self.arbitrary(c, cfg)
        k = self.key(c)
        op = c.choose(3, "operation")
        f = [lambda: m.get_option(k), lambda: m.set_option(k, SStr(c.fresh("value", S))), lambda: m.reset_option(k)][op]
        guarded(c, self.name, f, allow=True)
        for o, d in DEFAULTS.items():
            c.prove("the default of %s stays its default" % o, m.registered_options.d[o].d["default"] == d)


def contracts():
    return [Init(), Get(), Set(), Reset(), Defaults()]


ASSUMPTIONS = ["option names and values are strings or values without string methods; str.format in error messages does not fail"]
