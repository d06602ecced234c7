"""Contracts: each names the functions it is about, builds arbitrary inputs satisfying the precondition, calls the real
(instrumented) function, and states the postcondition as obligations."""
import ast, linecache, os, traceback
import z3
from engine import *
from instrument import VC, Loader, REPO, Invariant
import engine


class Contract:
    name = "?"
    functions = []        # qualified names verified (their bodies are executed)
    invariants = []
    trusted = []          # contracts assumed, semantics trusted
    max_paths = 4000

    def stubs(self):
        return {}

    def run(self, c, load):
        raise NotImplementedError


_src = {}


def is_raise(filename, lineno):
    """does a raise/assert statement of the real source start at this line?"""
    if filename not in _src:
        p = os.path.join(REPO, "pipit", filename[len("<pipit/"):-1])
        lines = set()
        try:
            for n in ast.walk(ast.parse(open(p, encoding="utf-8").read())):
                if isinstance(n, (ast.Raise, ast.Assert)):
                    lines |= set(range(n.lineno, (n.end_lineno or n.lineno) + 1))
        except OSError:
            pass
        _src[filename] = lines
    return lineno in _src[filename]


def genuine(e):
    """True if the exception is one the real code would raise (not a gap in the semantics)"""
    if getattr(e, "vc_modelled", False):
        return True
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and tb[-1].filename.startswith("<pipit/") and is_raise(tb[-1].filename, tb[-1].lineno)


class MAttributeError(AttributeError):
    vc_modelled = True


class MValueError(ValueError):
    vc_modelled = True


class MKeyError(KeyError):
    vc_modelled = True


def guarded(c, what, f, allow=False):
    """run f; returns (value, exception or None).  An exception the real code would raise is an obligation failure
    unless the contract allows it."""
    try:
        return f(), None
    except Exception as e:
        if not genuine(e):
            tb = traceback.extract_tb(e.__traceback__)
            where = [t for t in tb if t.filename.startswith("<pipit/")]
            os.environ.get("PYVC_TB") and traceback.print_exc(); raise Unsupported("%s: %s%s" % (type(e).__name__, e, " (%s:%d)" % (where[-1].filename, where[-1].lineno) if where else " (%s:%d)" % (tb[-1].filename, tb[-1].lineno))) from e
        if not allow:
            c.prove("%s: raises no exception" % what, False)
            raise PathEnd()
        return None, e


def verify(contracts, tier="quick", deadline=None):
    """run every contract; returns the proof record"""
    obs, funcs, back, unsup, paths, vac, solver = {}, [], {}, [], 0, {}, 0.0
    trusted = []
    for con in contracts:
        x = Explorer(timeout_ms=8000 if tier == "quick" else 60000, max_paths=con.max_paths, deadline=deadline)
        vc = VC([i() if isinstance(i, type) else i for i in con.invariants])

        def one(c, con=con, vc=vc):
            loader = Loader(vc, con.stubs())
            c.env["vc"] = vc
            c.env["loader"] = loader
            c.env["contract"] = con
            con.run(c, loader.load)
            c.reach("%s: end of contract" % con.name)
        try:
            x.run(one)
        except Unsupported as e:
            x.unsupported.append(str(e))
        except RecursionError as e:
            x.unsupported.append("recursion: %s" % e)
        except Exception as e:
            x.unsupported.append("verifier: %s: %s | %s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-4:])))
        for n, r in x.results.items():
            n2 = "%s: %s" % (con.name, n)
            obs[n2] = dict(r, name=n2)
            if x.unsupported and r["status"] == "refuted":      # loop frames and invariants are not established on every path
                obs[n2].update(status="unknown", detail="not every path could be analysed; " + str(r.get("detail", "")))
        for n, k in x.reached.items():
            vac["%s: %s" % (con.name, n)] = bool(k)
        if not x.results and not x.unsupported:
            x.unsupported.append("no obligation was generated")
        for u in sorted(set(x.unsupported)):
            unsup.append("%s: %s" % (con.name, u))
        if x.results and not x.reached.get("%s: end of contract" % con.name) and not any(r["status"] == "refuted" for r in x.results.values()) and not x.unsupported:
            unsup.append("%s: vacuous: the end of the contract is never reached" % con.name)
        for b, k in x.backends.items():
            back[b] = back.get(b, 0) + k
        paths += x.paths
        solver += x.solver_time
        funcs += con.functions
        trusted += con.trusted
    out = list(obs.values())
    for u in unsup:
        out.append({"name": u.split(":")[0] + ": no verdict", "status": "unsupported", "detail": u, "count": 0})
    return {"obligations": out, "functions": sorted(set(funcs)), "back_ends": back, "solver_time_s": round(solver, 2), "paths": paths,
            "vacuity": vac, "trusted_base": list(dict.fromkeys(trusted))}
