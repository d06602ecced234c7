"""pyvc: deductive verification of Python functions by running their own (instrumented) text over symbolic values.

On every run the current source of /repo is parsed, its loops are cut at invariants (see instrument.py), and the functions
are executed in this interpreter on proxies that build z3 terms.  A branch on a symbolic condition forks the path
(re-execution with a decision prefix); a loop over a symbolic sequence is verified by its invariant: established on entry,
havoc of everything the loop modifies, one arbitrary iteration, re-established, and execution goes on from the exit state.
Every obligation is a quantifier-free query "path condition and not goal" - universally quantified contracts and invariants
are stated over Skolem constants when proved and instantiated at the relevant terms when assumed.
"""
import os, sys, time
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(BaseException):
    """the code uses something the verifier has no semantics for: no verdict"""


class PathEnd(BaseException):
    """this path is done (loop back edge)"""


class Restart(PathEnd):
    """a loop's frame (what it modifies) grew: this path ends, everything is explored again"""


class Infeasible(BaseException):
    pass


class Raised(BaseException):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("no symbolic context")
    return CTX


# ----------------------------------------------------------------------------- names (strings used only through equality)
_codes, _strings = {}, {}


def code(s):
    """every string literal has its own integer; symbolic names are arbitrary integers"""
    if s not in _codes:
        _codes[s] = -1000 - len(_codes)
        _strings[_codes[s]] = s
    return _codes[s]


# ----------------------------------------------------------------------------- run state
class Frames:
    """what persists between the paths of one exploration: loop frames found so far"""

    def __init__(self):
        self.mods = {}     # loop key -> set of object ids modified
        self.kinds = {}    # loop key -> {variable: ordered list of kinds}
        self.okinds = {}   # (loop key, oid) -> kind information of a havocked object


class Ctx:
    def __init__(self, explorer, proving):
        self.x = explorer
        self.taken = []      # the decisions of this path
        self.pc = []
        self.isinst = []     # which of these are instances of universals
        self.solver = z3.Solver()
        explorer.limit(self.solver, explorer.branch_timeout)
        self.proving = proving
        self.nfresh = 0
        self.noid = 0
        self.nprove = 0
        self.universals = []   # (tags, fn)
        self.pool = {}         # tag -> list of terms
        self.done_inst = set()
        self.queue, self._busy = [], False    # (universal, position, new term) still to be instantiated
        self.depth, self.inst_depth, self.max_depth = {}, 0, 2
        self.writes = []       # stack of sets: objects modified since the innermost open loop iterations
        self.loopdepth = 0
        self.env = {}          # free for contracts
        self.blind = None      # a loop of this path for which no contract has an invariant
        self.probe = False
        self.reached = []
        self.guards = []       # what may be assumed in obligations while a function is applied to an arbitrary element
        self.muted = 0         # obligations of applied functions were checked at an arbitrary element

    # -- terms
    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const("%s!%d" % (name, self.nfresh), sort)

    def fresh_fn(self, name, *sorts):
        self.nfresh += 1
        return z3.Function("%s!%d" % (name, self.nfresh), *sorts)

    def oid(self):
        self.noid += 1
        return self.noid

    def scope(self):
        """what is instantiated inside is forgotten at the end (facts assumed directly stay)"""
        return Scope(self)

    # -- facts
    def assume(self, e, instance=False):
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        e = z3.simplify(e) if not z3.is_quantifier(e) else e
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.pc.append(e)
        self.isinst.append(instance)
        self.solver.add(e)

    def universal(self, tags, fn):
        """assume: for all terms of these tags, fn(*terms)"""
        self.universals.append((tuple(tags), fn))
        self.queue.append((len(self.universals) - 1, None, None))
        self._inst()

    def term(self, tag, t):
        """t is a term of interest for the universals over tag"""
        if not z3.is_expr(t):
            t = z3.IntVal(t)
        l = self.pool.setdefault(tag, [])
        depth = self.inst_depth + 1 if self._busy else 0
        k = (tag, t.get_id())
        if k in self.depth:
            if depth < self.depth[k]:
                self.depth[k] = depth
                if depth == 0:      # what was reached from it may have been cut off
                    for ui, (tags, fn) in enumerate(self.universals):
                        if tags == (tag,):
                            self.done_inst.discard((ui, t.get_id()))
                            self.queue.append((ui, 0, t))
                    self._inst()
            return t
        if depth > self.max_depth:      # terms reached through too many instantiations are not pursued (this can only lose proofs)
            return t
        l.append(t)
        self.depth[k] = depth
        for ui, (tags, fn) in enumerate(self.universals):
            for p, q in enumerate(tags):
                if q == tag:
                    self.queue.append((ui, p, t))
        self._inst()
        return t

    def _inst(self):
        if self._busy:
            return
        self._busy = True
        try:
            while self.queue:
                ui, p, t = self.queue.pop()
                tags, fn = self.universals[ui]
                lists = [[t] if q == p else list(self.pool.get(g, [])) for q, g in enumerate(tags)]
                for combo in product(lists):
                    key = (ui,) + tuple(q.get_id() for q in combo)
                    if key in self.done_inst:
                        continue
                    self.done_inst.add(key)
                    self.inst_depth = max([self.depth.get((g, q.get_id()), 0) for g, q in zip(tags, combo)] or [0])
                    if len(self.done_inst) > 40000:
                        if os.environ.get("PYVC_TB"):
                            import collections
                            print({k: len(v) for k, v in self.pool.items()}, collections.Counter(self.universals[k[0]][0] for k in self.done_inst).most_common(9), flush=True)
                        raise Unsupported("too many instantiations")
                    r = fn(*combo)
                    for f in (r if isinstance(r, (list, tuple)) else [r]):
                        if f is not None:
                            self.keep(combo)
                            self.assume(f, True)
        finally:
            self._busy = False

    def keep(self, *a):
        self.env.setdefault("_keep", []).append(a)   # ids of z3 terms are reused once they are collected

    # -- branching
    def sat(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.x.solver_time += time.time() - t0
        return r

    def branch(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.probe:
            raise Probe()
        t = self.sat(e) != z3.unsat
        f = self.sat(z3.Not(e)) != z3.unsat
        if t and f:
            d = not self.x.fork()
        elif t or f:
            d = t
        else:
            raise Infeasible()
        self.taken.append(d)
        self.assume(e if d else z3.Not(e))
        return d

    def choose(self, n, what=""):
        """fork into n alternatives"""
        d = n - 1
        for j in range(n - 1):
            if not self.x.fork():
                d = j
                break
        self.taken.append(d)
        return d

    # -- obligations
    def prove(self, name, e, assume=True):
        if self.muted:
            return
        self.nprove += 1
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        elif isinstance(e, SBool):
            e = e.e
        if self.guards:
            e = z3.Implies(z3.And(*self.guards), e)
        if self.proving:
            self.x.obligation(self, name, e)
        if assume:
            self.assume(e)

    def reach(self, name):
        """vacuity check: this point is reachable under the assumptions made"""
        self.x.reached.setdefault(name, 0)
        if self.proving and not self.x.reached[name]:
            if self.sat() == z3.sat:
                self.x.reached[name] += 1

    def written(self, oid):
        for s in self.writes:
            s.add(oid)


def applied(f, elem, guard):
    """f as a function applied lazily to the elements of a collection: what it requires is an obligation at one arbitrary
    element, here and now; later uses of its values raise none"""
    c = ctx()
    c.guards.append(guard)
    try:
        f(elem())
    finally:
        c.guards.pop()

    def lazily(x):
        c.muted += 1
        try:
            return f(x)
        finally:
            c.muted -= 1
    return lazily


class Scope:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        c = self.c
        self.n = len(c.pc)
        self.pool = {t: len(l) for t, l in c.pool.items()}
        self.depth, self.done = dict(c.depth), set(c.done_inst)
        c.solver.push()
        return c

    def __exit__(self, *a):
        c = self.c
        kept = [e for e, i in zip(c.pc[self.n:], c.isinst[self.n:]) if not i]
        c.keep(*c.pc[self.n:])
        del c.pc[self.n:], c.isinst[self.n:]
        for t in c.pool:
            c.keep(*c.pool[t][self.pool.get(t, 0):])
            del c.pool[t][self.pool.get(t, 0):]
        c.depth, c.done_inst = self.depth, self.done
        c.solver.pop()
        for e in kept:
            c.assume(e)
        return False


class Probe(BaseException):
    pass


def product(lists):
    if not lists:
        yield ()
        return
    for x in lists[0]:
        for r in product(lists[1:]):
            yield (x,) + r


class Explorer:
    """explores all paths.  At a fork of the path the process forks; every path is executed once, several at a time, and its
    findings (obligations, loop frames, dropped candidates) are collected and merged when all paths have ended."""

    def __init__(self, timeout_ms=10000, branch_timeout=5000, max_paths=4000, deadline=None, jobs=None):
        self.timeout = timeout_ms
        self.branch_timeout = branch_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.jobs = jobs or int(os.environ.get("PYVC_JOBS", "0")) or max(1, (os.cpu_count() or 4) - 1)
        self.frames = Frames()
        self.dropped = set()   # candidate invariants that do not hold
        self.passes = 0
        self.clear()

    def clear(self):
        self.results = {}     # obligation -> dict
        self.reached = {}
        self.paths = 0
        self.solver_time = 0.0
        self.unsupported = []
        self.backends = {}
        self.newframes = []   # what this path adds to the loop frames

    @staticmethod
    def limit(solver, ms):
        solver.set("rlimit", 7000 * ms)      # machine-independent; about one millisecond per 7000 units
        solver.set("timeout", 5 * ms)

    def run(self, fn):
        """explore fn(ctx) completely; first to find the loop frames, then proving; candidate invariants that do not hold
        are dropped and everything is proved again without them (Houdini)"""
        total = 0.0
        for hround in range(40):
            for rnd in range(80):
                self.clear()
                grew = self._pass(fn, False)
                total += self.solver_time
                if not grew:
                    break
            else:
                self.unsupported.append("the loop frames do not stabilise")
                return
            self.clear()
            n = len(self.dropped)
            grew = self._pass(fn, True)
            total += self.solver_time
            self.solver_time = total
            if any("out of time" in u or "too many paths" in u for u in self.unsupported):
                return
            if not grew and len(self.dropped) == n:
                return
        self.unsupported.append("the candidate invariants do not stabilise")

    def check(self, c, e):
        """is e implied by the path condition?"""
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        g = z3.simplify(z3.Not(e))
        if z3.is_false(g):
            return True
        t0 = time.time()
        s = c.solver
        s.push()
        try:
            s.add(g)
            r = s.check()
            self.solver_time += time.time() - t0
            trace_query("check", s, g, r, time.time() - t0)
        finally:
            s.pop()
        return r == z3.unsat

    def candidate(self, c, name, e):
        """a candidate invariant: an obligation if it holds, dropped otherwise"""
        t0 = time.time()
        if not self.check(c, e):
            return False
        r = self.results.setdefault(name, {"name": name, "status": "discharged", "count": 0, "time_s": 0.0, "back_end": "z3", "detail": ""})
        r["count"] += 1
        r["time_s"] = round(r["time_s"] + time.time() - t0, 4)
        self.backends["z3"] = self.backends.get("z3", 0) + 1
        return True

    def fork(self):
        """continue in two processes; False in the child"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("out of time")
        with self.npaths.get_lock():
            self.npaths.value += 1
        if self.npaths.value > self.max_paths:
            raise Unsupported("too many paths")
        got = self.slots.acquire(block=False)
        pid = os.fork()
        if pid == 0:
            self.owns = got
            self.clear()
            return False
        if not got:             # the child uses our slot
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        return True

    def _pass(self, fn, proving):
        """run every path; True if the loop frames grew"""
        import multiprocessing, pickle, shutil, signal, tempfile
        ctxt = multiprocessing.get_context("fork")
        self.passes += 1
        t0 = time.time()
        self.slots = ctxt.Semaphore(self.jobs - 1)
        self.npaths = ctxt.Value("i", 1)
        tmp = tempfile.mkdtemp(prefix="pyvc")
        rd, wr = os.pipe()
        reaper()
        old = signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        sys.stdout.flush()
        sys.stderr.flush()
        try:
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rd)
                    self.owns = False
                    self._path(fn, proving)
                except BaseException:
                    import traceback
                    self.unsupported.append("verifier: " + traceback.format_exc()[-1500:])
                try:
                    rec = dict(results=self.results, reached=self.reached, solver=self.solver_time, unsupported=self.unsupported, backends=self.backends,
                               frames=self.newframes, dropped=self.dropped)
                    try:
                        data = pickle.dumps(rec)
                    except Exception as e:
                        rec.update(frames=[], unsupported=self.unsupported + ["loop frame of values without a description (%s)" % e])
                        data = pickle.dumps(rec)
                    fd, p = tempfile.mkstemp(dir=tmp, suffix=".part")
                    with os.fdopen(fd, "wb") as f:
                        f.write(data)
                    os.rename(p, p[:-5] + ".pkl")
                    if self.owns:
                        self.slots.release()
                finally:
                    os._exit(code)
            os.close(wr)
            while os.read(rd, 1):      # end of file: every path has ended
                pass
            os.close(rd)
            files = sorted(os.listdir(tmp))
            recs = []
            for f in files:
                if f.endswith(".pkl"):
                    recs.append(pickle.load(open(os.path.join(tmp, f), "rb")))
        finally:
            signal.signal(signal.SIGCHLD, old)
            shutil.rmtree(tmp, ignore_errors=True)
        if len(recs) != self.npaths.value:
            self.unsupported.append("%d of %d paths gave no result" % (self.npaths.value - len(recs), self.npaths.value))
        grew = False
        for r in recs:
            self.solver_time += r["solver"]
            self.unsupported += r["unsupported"]
            if os.environ.get("PYVC_VERBOSE") == "2":
                for d in sorted(r["dropped"] - self.dropped, key=repr):
                    print("   dropped", d, file=sys.stderr)
            self.dropped |= r["dropped"]
            for b, k in r["backends"].items():
                self.backends[b] = self.backends.get(b, 0) + k
            for n, k in r["reached"].items():
                self.reached[n] = self.reached.get(n, 0) + k
            for n, o in r["results"].items():
                self.results[n] = merge_result(self.results.get(n), o)
        for kind, key, val in sorted((x for r in recs for x in r["frames"]), key=repr):
            grew |= self._grow(kind, key, val)
        if proving:
            self.paths += len(recs)
        if os.environ.get("PYVC_VERBOSE"):
            print("pass %d %s: %d paths, %.1f s, solver %.1f, frames grew %s, dropped %d" % (self.passes, "proof" if proving else "frames", len(recs), time.time() - t0, sum(r["solver"] for r in recs), grew, len(self.dropped)), file=sys.stderr)
        return grew

    def _grow(self, kind, key, val):
        fr = self.frames
        if kind == "mods":
            m = fr.mods.setdefault(key, set())
            g = not set(val) <= m
            m |= set(val)
            return g
        if kind == "kind":
            return add_kinds(fr.kinds.setdefault(key, []), val)
        if kind == "okind":
            old = fr.okinds.get(key)
            new = val[1] if old is None else val[0](old, val[1])
            fr.okinds[key] = new
            return new != old
        raise AssertionError(kind)

    def _path(self, fn, proving):
        global CTX
        c = CTX = Ctx(self, proving)
        try:
            fn(c)
        except (PathEnd, Infeasible):
            pass
        except Unsupported as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith("<pipit")]
            self.unsupported.append("%s%s" % (e, " (%s:%d)" % (where[-1].filename, where[-1].lineno) if where else ""))
        finally:
            CTX = None

    def obligation(self, c, name, e):
        r = self.results.setdefault(name, {"name": name, "status": "discharged", "count": 0, "time_s": 0.0, "back_end": "z3", "detail": ""})
        r["count"] += 1
        t0 = time.time()
        g = z3.simplify(z3.Not(e))
        if z3.is_false(g):
            st, det, be = z3.unsat, "", "z3 (simplifier)"
        else:
            be, det = "z3", ""
            s = c.solver
            s.push()
            try:
                s.add(g)
                st = s.check()
                trace_query(name, s, g, st, time.time() - t0)
                if st == z3.sat:
                    det = str(s.model())[:3000]
            finally:
                s.pop()
            if st == z3.unknown:
                s = z3.Solver()
                self.limit(s, self.timeout)
                s.add(*c.pc)
                s.add(g)
                st = s.check()
                trace_query(name, s, g, st, time.time() - t0)
                if st == z3.unknown:
                    st2, be2 = retry(s)
                    if st2 is not None:
                        st, be = st2, be2
                if st == z3.sat:
                    try:
                        det = str(s.model())[:3000]
                    except z3.Z3Exception:
                        det = "(model from %s)" % be
                elif st == z3.unknown:
                    det = "unknown: " + s.reason_unknown()
        dt = time.time() - t0
        self.solver_time += dt
        self.backends[be] = self.backends.get(be, 0) + 1
        r["time_s"] = round(r["time_s"] + dt, 4)
        if st == z3.unsat:
            if r["status"] == "discharged":
                r["back_end"] = be if r["count"] == 1 or be != "z3 (simplifier)" else r["back_end"]
        elif st == z3.sat and c.blind:
            if r["status"] == "discharged":
                r["status"] = "unknown"
                r["detail"] = "not proved: no invariant for the loop %s" % c.blind
        elif st == z3.sat:
            r["status"] = "refuted"
            r["detail"] = det
            r["back_end"] = be
        elif r["status"] == "discharged":
            r["status"] = "unknown"
            r["detail"] = det


def merge_result(a, b):
    if a is None:
        return dict(b)
    rank = {"discharged": 0, "unknown": 1, "refuted": 2}
    w = a if rank[a["status"]] >= rank[b["status"]] else b
    be = w["back_end"]
    if a["status"] == b["status"] == "discharged":
        be = max(a["back_end"], b["back_end"], key=lambda x: ["z3 (simplifier)", "z3", "z3-new", "cvc5"].index(x))
    return dict(w, count=a["count"] + b["count"], time_s=round(a["time_s"] + b["time_s"], 4), back_end=be)


def add_kinds(l, vec):
    """add a joint kind of the variables at a loop head to those known; False if it is covered by one of them"""
    cov = lambda a, b: a == b or a == ("int",) and b == ("real",) or b[0] == "maybe" and (a == ("none",) or join_kind(a, b) == b) or a[0] == b[0] == "bytes" and join_kind(a, b) == b
    if any(all(cov(a, b) for a, b in zip(vec, w)) for w in l):
        return False
    for i, w in enumerate(l):        # int and real become real
        if all(a == b or {a[0], b[0]} == {"int", "real"} or a[0] == b[0] == "bytes" and a[1] == b[1] for a, b in zip(vec, w)):
            l[i] = tuple(join_kind(a, b) for a, b in zip(vec, w))
            return True
    l.append(vec)
    return True


def trace_query(name, s, g, r, dt):
    lim = os.environ.get("PYVC_SLOW")
    if lim and dt > float(lim):
        d = os.environ.get("PYVC_SLOW_DIR", "/tmp/slow")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%d_%d.smt2" % (os.getpid(), time.time() * 1000))
        open(p, "w").write(s.sexpr() + "\n(check-sat)\n")
        print("slow %.1fs %s %s |pc| %d  %s\n    %s" % (dt, r, p, len(s.assertions()), name, str(g)[:300].replace("\n", " ")), file=sys.stderr)


def reaper():
    """orphaned path processes are ours to reap"""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except Exception:
        pass


def retry(s):
    """the same query given to z3 with another tactic and to cvc5"""
    import subprocess, tempfile, os
    txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        for cmd, be in ((["cvc5", "--tlimit=15000", f.name], "cvc5"), (["z3-new", "-T:15", f.name], "z3-new")):
            try:
                o = subprocess.run(cmd, capture_output=True, text=True, timeout=25).stdout.strip()
            except Exception:
                continue
            if o.startswith("unsat"):
                return z3.unsat, be
            if o.startswith("sat"):
                return z3.sat, be
    finally:
        os.unlink(f.name)
    return None, None


# ----------------------------------------------------------------------------- values
def is_sym(x):
    return isinstance(x, (SNum, SBool, SName, SMaybe))


def _nostr(self, *a):
    raise Unsupported("text of a symbolic value")


class SBool:
    __slots__ = ("e",)
    __str__ = __format__ = _nostr

    def __init__(self, e):
        self.e = e if z3.is_expr(e) else z3.BoolVal(bool(e))

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        return SBool(z3.And(self.e, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, tobool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        return SBool(self.e == tobool(o))

    def __ne__(self, o):
        return SBool(self.e != tobool(o))
    __hash__ = None


def tobool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x) and x.sort() == B:
        return x
    if isinstance(x, SNum):
        return x.e != 0
    raise Unsupported("truth value of %s" % type(x).__name__)


class SName:
    """a string used only through equality"""
    __slots__ = ("e",)
    __str__ = __format__ = _nostr

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SMaybe):
            return o == self
        if isinstance(o, str):
            return SBool(self.e == code(o))
        if isinstance(o, SName):
            return SBool(self.e == o.e)
        if o is None or isinstance(o, (int, float, SNum, SList)):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r if isinstance(r, bool) else ~r)

    __hash__ = None

    def __bool__(self):
        return ctx().branch(self.e != code(""))

    def __add__(self, o):
        return strcat(self, o)

    def __radd__(self, o):
        return strcat(o, self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("string operation .%s on a symbolic name" % a)


_catfns = {}
CAT = z3.Function("cat", z3.IntSort(), z3.IntSort(), z3.IntSort())
_ints = (I, I)


def _parts(s):
    """the two strings of which the string is made by a concatenation (of which at most one is a literal), or None"""
    if not isinstance(s, SName) or not z3.is_app(s.e) or not s.e.num_args():
        return None
    d = s.e.decl()
    if d.eq(CAT):
        return SName(s.e.arg(0)), SName(s.e.arg(1))
    for (how, lit), (f, g) in _catfns.items():
        if d.eq(f):
            return (SName(s.e.arg(0)), lit) if how == "post" else (lit, SName(s.e.arg(0)))
    return None


def strcat(a, b):
    """concatenation with a literal suffix/prefix: an injective function of the symbolic part, never a literal met elsewhere
    unless equal to it (sound: injectivity is what concatenation with a fixed literal guarantees)"""
    if isinstance(a, str) and a == "":
        return b
    if isinstance(b, str) and b == "":
        return a
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    pa, pb = _parts(a), _parts(b)
    if pb is not None and isinstance(b, SName):      # a + (x + y) = (a + x) + y
        return strcat(strcat(a, pb[0]), pb[1])
    if pa is not None and isinstance(pa[1], str) and isinstance(b, str):
        return strcat(pa[0], pa[1] + b)
    if isinstance(a, SName) and isinstance(b, SName):
        return SName(CAT(a.e, b.e))      # (a function of the two strings: nothing more is known about it)
    if isinstance(a, SName) and isinstance(b, str):
        key, x, mk = ("post", b), a.e, (lambda s: s[:-len(b)] if b and s.endswith(b) else None)
    elif isinstance(b, SName) and isinstance(a, str):
        key, x, mk = ("pre", a), b.e, (lambda s: s[len(a):] if s.startswith(a) else None)
    else:
        raise Unsupported("concatenation of these values")
    if key not in _catfns:
        _catfns[key] = (z3.Function("cat_%s_%s" % key, I, I), z3.Function("uncat_%s_%s" % key, I, I))
    f, g = _catfns[key]
    t = f(x)
    c = ctx()
    c.assume(g(t) == x)
    cats = c.env.setdefault("cats", [])
    if not any(t.eq(u) for _, u in cats):
        for (how, lit), u in cats:      # strings with different ends (beginnings) are different
            if how == key[0] and lit != key[1] and not (lit.endswith(key[1]) or key[1].endswith(lit) if how == "post" else lit.startswith(key[1]) or key[1].startswith(lit)):
                c.assume(t != u)
        cats.append((key, t))
    for s in list(_codes):     # against the literals known
        base = mk(s)
        if base is None:
            c.assume(t != code(s))
        else:
            c.assume((t == code(s)) == (x == code(base)))
    return SName(t)


class SNum:
    """mathematical integer (z3 Int) or real (z3 Real)"""
    __slots__ = ("e",)
    __str__ = __format__ = _nostr

    def __init__(self, e):
        self.e = e

    @property
    def isint(self):
        return self.e.sort() == I

    def _bin(self, o, f, r=False):
        if isinstance(o, SMaybe):
            return NotImplemented
        oe = numexpr(o)
        if oe is None:
            return NotImplemented
        a, b = (oe, self.e) if r else (self.e, oe)
        if a.sort() != b.sort():
            a = z3.ToReal(a) if a.sort() == I else a
            b = z3.ToReal(b) if b.sort() == I else b
        return f(a, b)

    def _num(self, o, f, r=False):
        x = self._bin(o, f, r)
        return x if x is NotImplemented else SNum(x)

    def __add__(self, o): return self._num(o, lambda a, b: a + b)
    def __radd__(self, o): return self._num(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._num(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._num(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, SList)):
            return SList.repeat(o, self)
        return self._num(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, SList)):
            return SList.repeat(o, self)
        return self._num(o, lambda a, b: a * b, True)

    def __truediv__(self, o): return self._num(o, truediv)
    def __rtruediv__(self, o): return self._num(o, truediv, True)
    def __floordiv__(self, o): return self._num(o, floordiv)
    def __rfloordiv__(self, o): return self._num(o, floordiv, True)
    def __mod__(self, o): return self._num(o, lambda a, b: a - b * floordiv(a, b))
    def __rmod__(self, o): return self._num(o, lambda a, b: a - b * floordiv(a, b), True)
    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o > 0 and o & (o - 1) == 0 and self.isint:      # one bit
            return SNum((self.e / o) % 2 * o)
        raise Unsupported("bit operation on a symbolic number")
    __rand__ = __and__

    def __neg__(self): return SNum(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SNum(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        x = self._bin(o, f)
        return x if x is NotImplemented else SBool(x)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, SName, SList, SDict)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, SName, SList, SDict)):
            return True
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = None

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("symbolic integer where Python needs a concrete one")


def truediv(a, b):
    ctx().prove("no ZeroDivisionError", b != 0)
    a = z3.ToReal(a) if a.sort() == I else a
    b = z3.ToReal(b) if b.sort() == I else b
    return a / b


def over_ite(e, leaf):
    """leaf applied below the case distinctions of e"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        return z3.If(c, over_ite(a, leaf), over_ite(b, leaf))
    return leaf(e)


def floor_(e):
    return over_ite(e, lambda x: x if x.sort() == I else x.arg(0) if z3.is_to_real(x) else z3.ToInt(x))


def trunc(e):
    return over_ite(e, lambda x: x if x.sort() == I else x.arg(0) if z3.is_to_real(x) else z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))


def integral(e):
    return over_ite(e, lambda x: z3.BoolVal(True) if x.sort() == I or z3.is_to_real(x) else z3.ToReal(z3.ToInt(x)) == x)


def floordiv(a, b):
    ctx().prove("no ZeroDivisionError", b != 0)
    if a.sort() == I and b.sort() == I:
        return z3.If(b > 0, a / b, (-a) / (-b))      # z3's integer division rounds down for positive divisors
    a = z3.ToReal(a) if a.sort() == I else a
    b = z3.ToReal(b) if b.sort() == I else b
    return z3.ToReal(z3.ToInt(a / b))


def numexpr(o):
    if isinstance(o, SNum):
        return o.e
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(o)
    if isinstance(o, float):
        if o != o or o in (float("inf"), float("-inf")):
            return None
        from fractions import Fraction
        f = Fraction(o)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if isinstance(o, SBool):
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(o) and o.sort() in (I, R):
        return o
    return None


class SMaybe:
    """a cell that may be missing (None / NaN / NA); val is a symbolic (or concrete) value"""
    __slots__ = ("null", "val")
    __str__ = __format__ = _nostr

    def __init__(self, null, val):
        self.null = null if z3.is_expr(null) else z3.BoolVal(bool(null))
        self.val = val

    def _lift(self, o, f):
        if isinstance(o, SMaybe):
            return SMaybe(z3.Or(self.null, o.null), f(self.val, o.val))
        if isnan(o):
            return SMaybe(True, self.val)
        return SMaybe(self.null, f(self.val, o))

    def __add__(self, o): return self._lift(o, lambda a, b: a + b)
    def __radd__(self, o): return self._lift(o, lambda a, b: b + a)
    def __sub__(self, o): return self._lift(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._lift(o, lambda a, b: b - a)
    def __mul__(self, o): return self._lift(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._lift(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._lift(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._lift(o, lambda a, b: b / a)
    def __neg__(self): return SMaybe(self.null, -self.val)

    def _rel(self, o, f, null_result=False):
        """comparisons with a missing value are False (!= is True), as for NaN"""
        if o is None:
            return SBool(self.null) if null_result is None else SBool(z3.BoolVal(bool(null_result)))
        if isinstance(o, SMaybe):
            n, r = z3.Or(self.null, o.null), f(self.val, o.val)
        else:
            n, r = self.null, f(self.val, o)
        return SBool(z3.And(z3.Not(n), tobool(r)) if not null_result else z3.Or(n, tobool(r)))

    def __lt__(self, o): return self._rel(o, lambda a, b: a < b)
    def __le__(self, o): return self._rel(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._rel(o, lambda a, b: a > b)
    def __ge__(self, o): return self._rel(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._rel(o, lambda a, b: a == b)
    def __ne__(self, o): return self._rel(o, lambda a, b: a != b, True)
    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth value of a maybe-missing cell")

    def __index__(self):
        raise Unsupported("maybe-missing cell used as an index")


def isnan(x):
    return isinstance(x, float) and x != x


# ----------------------------------------------------------------------------- kinds: how to make a fresh value like a given one
def kind_of(v):
    if v is None:
        return ("none",)
    if isinstance(v, (bool, SBool)):
        return ("bool",)
    if isinstance(v, int):
        return ("int",)
    if isinstance(v, float):
        return ("maybe", ("undef",)) if v != v else ("real",)
    if isinstance(v, SNum):
        return ("int",) if v.isint else ("real",)
    if isinstance(v, (str, SName)):
        return ("name",)
    if isinstance(v, SMaybe):
        return ("maybe", kind_of(v.val))
    if isinstance(v, tuple):
        return ("tuple",) + tuple(kind_of(x) for x in v)
    if hasattr(v, "vc_kind"):
        return v.vc_kind()
    return ("fixed", v)


def join_kind(a, b):
    """one kind for both, or None"""
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == "undef" or b[0] == "undef":      # a missing value of no particular type
        return b if a[0] == "undef" else a
    if a[0] == "fixed" or b[0] == "fixed":
        return a if a[0] == b[0] == "fixed" and a[1] is b[1] else None
    if a[0] == "none" and b[0] != "none":
        a, b = b, a
    if b[0] == "none":
        return a if a[0] in ("maybe", "cells") else ("maybe", a)
    if a[0] == b[0] == "cells":
        j = join_kind(a[1], b[1])
        return None if j is None and (a[1] is not None or b[1] is not None) else ("cells", j)
    if a[0] == "maybe" or b[0] == "maybe":
        x = a[1] if a[0] == "maybe" else a
        y = b[1] if b[0] == "maybe" else b
        j = join_kind(x, y)
        return None if j is None else ("maybe", j)
    if {a[0], b[0]} == {"int", "real"}:
        return ("real",)
    if a[0] == b[0] == "rec" and a[1] == b[1]:
        j = join_kind(a[2], b[2])
        return None if j is None else ("rec", a[1], j)
    if a[0] == b[0] == "bytes" and a[1] == b[1]:
        return ("bytes", a[1], None)
    if a[0] == b[0] == "fmap" and a[1] == b[1]:
        j = join_kind(a[2], b[2])
        return None if j is None else ("fmap", a[1], j)
    if a[0] == b[0] == "tuple" and len(a) == len(b):
        js = [join_kind(x, y) for x, y in zip(a[1:], b[1:])]
        return None if None in js else ("tuple",) + tuple(js)
    return None


SORTS = {"int": I, "real": R, "bool": B, "name": I}
KIND_MAKERS = {}


def wrap(kind, e):
    return {"int": SNum, "real": SNum, "bool": SBool, "name": SName}[kind[0]](e)


def fresh_value(kind, name="v"):
    c = ctx()
    if kind[0] == "none":
        return None
    if kind[0] == "undef":
        return SNum(z3.RealVal(0))
    if kind[0] in SORTS:
        return wrap(kind, c.fresh(name, SORTS[kind[0]]))
    if kind[0] == "maybe":
        return SMaybe(c.fresh(name + "_null", B), fresh_value(kind[1], name))
    if kind[0] == "tuple":
        return tuple(fresh_value(k, name) for k in kind[1:])
    if kind[0] == "fixed":
        return kind[1]
    if kind[0] in KIND_MAKERS:
        return KIND_MAKERS[kind[0]](kind, name)
    raise Unsupported("no fresh value of kind %r" % (kind,))


def fresh_family(kind, name, *argsorts):
    """a function from z3 argument terms to values of this kind"""
    c = ctx()
    if kind[0] == "none":
        return lambda *a: None
    if kind == ("maybe", ("undef",)):
        return lambda *a: float("nan")
    if kind[0] == "undef":
        return lambda *a: SNum(z3.RealVal(0))
    if kind[0] in SORTS:
        f = c.fresh_fn(name, *(tuple(argsorts) + (SORTS[kind[0]],)))
        return lambda *a: wrap(kind, f(*a))
    if kind[0] == "maybe":
        n = c.fresh_fn(name + "_null", *(tuple(argsorts) + (B,)))
        g = fresh_family(kind[1], name, *argsorts)
        return lambda *a: SMaybe(n(*a), g(*a))
    if kind[0] == "tuple":
        gs = [fresh_family(k, name, *argsorts) for k in kind[1:]]
        return lambda *a: tuple(g(*a) for g in gs)
    if kind[0] == "fixed":
        return lambda *a: kind[1]
    if ("family", kind[0]) in KIND_MAKERS:
        return KIND_MAKERS[("family", kind[0])](kind, name, argsorts)
    raise Unsupported("no fresh family of kind %r" % (kind,))


def coerce(v, kind):
    """the value v seen as one of kind (a supertype of its own)"""
    k = kind_of(v)
    if k == kind or kind[0] == "fixed":
        return v
    if kind[0] == "maybe":
        if v is None or isnan(v):
            return SMaybe(True, default_value(kind[1]))
        if isinstance(v, SMaybe):
            return SMaybe(v.null, coerce(v.val, kind[1]))
        return SMaybe(False, coerce(v, kind[1]))
    if kind[0] == "real":
        e = numexpr(v)
        return SNum(z3.ToReal(e) if e.sort() == I else e)
    if kind[0] == "tuple" and isinstance(v, tuple):
        return tuple(coerce(x, q) for x, q in zip(v, kind[1:]))
    if ("coerce", kind[0]) in KIND_MAKERS:
        return KIND_MAKERS[("coerce", kind[0])](v, kind)
    if kind[0] == "int":
        return SNum(numexpr(v))
    if kind[0] == "name":
        return SName(nameexpr(v))
    if kind[0] == "bool":
        return SBool(tobool(v))
    return v


def default_value(kind):
    if kind[0] == "int":
        return SNum(z3.IntVal(0))
    if kind[0] == "real":
        return SNum(z3.RealVal(0))
    if kind[0] == "bool":
        return SBool(z3.BoolVal(False))
    if kind[0] == "name":
        return SName(z3.IntVal(0))
    if kind[0] == "tuple":
        return tuple(default_value(k) for k in kind[1:])
    if kind[0] in ("none",):
        return None
    if kind[0] == "undef":
        return SNum(z3.RealVal(0))
    if ("default", kind[0]) in KIND_MAKERS:
        return KIND_MAKERS[("default", kind[0])](kind)
    raise Unsupported("default of %r" % (kind,))


def nameexpr(v):
    if isinstance(v, str):
        return z3.IntVal(code(v))
    if isinstance(v, SName):
        return v.e
    raise Unsupported("%s is not a name" % type(v).__name__)


def ite(cond, a, b):
    """value-level if-then-else; cond a z3 Bool"""
    if z3.is_expr(cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return a
        if z3.is_false(cond):
            return b
    elif isinstance(cond, bool):
        return a if cond else b
    if a is b:
        return a
    if hasattr(a, "vc_ite"):
        r = a.vc_ite(cond, b)
        if r is not NotImplemented:
            return r
    if hasattr(b, "vc_ite"):
        r = b.vc_ite(z3.Not(cond), a)
        if r is not NotImplemented:
            return r
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(cond, x, y) for x, y in zip(a, b))
    k = join_kind(kind_of(a), kind_of(b))
    if k is None:
        raise Unsupported("join of %r and %r" % (kind_of(a), kind_of(b)))
    if k[0] == "none":
        return None
    if k[0] == "fixed" or k == ("maybe", ("undef",)):
        return a
    a, b = coerce(a, k), coerce(b, k)
    if k[0] == "maybe":
        return SMaybe(z3.If(cond, a.null, b.null), ite(cond, a.val, b.val))
    if k[0] == "tuple":
        return tuple(ite(cond, x, y) for x, y in zip(a, b))
    return wrap(k, z3.If(cond, expr(a), expr(b)))


def expr(v):
    if z3.is_expr(v):
        return v
    if isinstance(v, (SNum, SBool, SName)):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    n = numexpr(v)
    if n is not None:
        return n
    if isinstance(v, str):
        return z3.IntVal(code(v))
    raise Unsupported("no term for %s" % type(v).__name__)


def same(a, b):
    """z3 Bool: the two values are equal, missing equal to missing"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[same(x, y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
    if hasattr(a, "vc_same"):
        return a.vc_same(b)
    if hasattr(b, "vc_same"):
        return b.vc_same(a)
    an = a is None or isnan(a)
    bn = b is None or isnan(b)
    if an and bn:
        return z3.BoolVal(True)
    if isinstance(a, SMaybe) or isinstance(b, SMaybe) or an or bn:
        na = a.null if isinstance(a, SMaybe) else z3.BoolVal(an)
        nb = b.null if isinstance(b, SMaybe) else z3.BoolVal(bn)
        va = a.val if isinstance(a, SMaybe) else a
        vb = b.val if isinstance(b, SMaybe) else b
        if an or bn:
            return z3.And(na, nb)
        return z3.And(na == nb, z3.Or(na, same(va, vb)))
    strs = (str, SName)
    if isinstance(a, strs) != isinstance(b, strs):
        return z3.BoolVal(False)
    ea, eb = expr(a), expr(b)
    if ea.sort() == B and eb.sort() != B or eb.sort() == B and ea.sort() != B:
        raise Unsupported("comparison of a truth value with another value")
    return ea == eb


# ----------------------------------------------------------------------------- heap objects
def join_same(a, b):
    if a != b:
        raise Unsupported("a loop changes the shape of an object")
    return a


def join_list(a, b):
    j = join_kind(a, b)
    if j is None and (a is not None or b is not None):
        raise Unsupported("list of mixed kinds %r %r" % (a, b))
    return j


def join_dict(a, b):
    if a is None or b is None:
        return a or b
    if a.keys() != b.keys():
        raise Unsupported("a loop adds keys to a dict")
    r = {}
    for k in a:
        r[k] = join_kind(a[k], b[k])
        if r[k] is None:
            raise Unsupported("dict entry of mixed kinds")
    return r


class SObj:
    """a mutable object of the code under test whose modifications are tracked (loop frames)"""

    def __init__(self):
        self.oid = ctx().oid()
        ctx().env.setdefault("objs", {})[self.oid] = self

    frozen = False

    def touch(self, *aspects):
        if self.frozen:
            raise Unsupported("change of a container inside a function applied to every element")
        ctx().written(self.oid)
        for a in aspects:
            ctx().written((a, self.oid))

    def snapshot(self):
        raise NotImplementedError

    def vc_freeze(self):
        """the object as it is now (what invariants speak about: they are instantiated later, when the object has changed)"""
        import copy
        return copy.copy(self)

    # subclasses: havoc(info), info(): kind information joined over the iterations by the module-level function join_fn()
    def join_fn(self):
        return join_same

    def join_info(self, a, b):
        return self.join_fn()(a, b)


def freeze(v):
    if isinstance(v, SObj):
        o = v.vc_freeze()
        o.frozen = True
        return o
    return tuple(freeze(x) for x in v) if isinstance(v, tuple) else v


def snap(f, memo=None):
    """the function f as it is now: its result on an element is computed later, when its variables may have changed"""
    import types
    if not isinstance(f, types.FunctionType) or not f.__closure__:
        return f
    memo = {} if memo is None else memo
    if id(f) in memo:
        return f
    memo[id(f)] = f
    cells = []
    for x in f.__closure__:
        try:
            v = x.cell_contents
        except ValueError:
            cells.append(x)
            continue
        cells.append(types.CellType(snap(v, memo) if isinstance(v, types.FunctionType) else freeze(v)))
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


class SSeqBase:
    """anything with length() and at(k): the iterables a loop can be cut over"""

    def length(self):
        raise NotImplementedError

    def at(self, k):
        raise NotImplementedError

    def __iter__(self):
        n = self.length()
        n = z3.simplify(n) if z3.is_expr(n) else z3.IntVal(n)
        if z3.is_int_value(n):
            for k in range(n.as_long()):
                yield self.at(z3.IntVal(k))
            return
        raise Unsupported("iteration over a symbolic sequence outside a loop statement")

    def concrete_len(self):
        n = self.length()
        n = z3.simplify(n) if z3.is_expr(n) else z3.IntVal(n)
        return n.as_long() if z3.is_int_value(n) else None


class Seq(SSeqBase):
    """immutable sequence given by closures; tag names its positions for instantiation"""

    def __init__(self, n, at, tag=None, meta=None):
        self.n, self._at, self.tag = n, at, tag
        self.meta = meta or {}

    def length(self):
        return self.n

    def at(self, k):
        return self._at(k)

    def __getitem__(self, k):
        return seq_get(self, k)

    def map(self, f):
        return Seq(self.n, lambda k: f(self._at(k)), self.tag, dict(self.meta))

    def vc_kind(self):
        return ("fixed", self)

    def __contains__(self, x):
        raise Unsupported("membership in a symbolic sequence")

    def __mul__(self, o):
        raise Unsupported("repetition of a symbolic sequence")

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        if a == "append":
            raise Unsupported("append to an immutable symbolic sequence")
        raise Unsupported("sequence operation .%s" % a)


def idx_expr(k):
    e = numexpr(k)
    if e is None:
        raise Unsupported("index of type %s" % type(k).__name__)
    if e.sort() == R:
        v = z3.simplify(e)
        if z3.is_rational_value(v) and v.denominator_as_long() == 1:
            return z3.IntVal(v.numerator_as_long())
        raise Unsupported("real-valued index")
    return e


def seq_get(s, k):
    if isinstance(k, slice):
        return seq_slice(s, k)
    e = idx_expr(k)
    n = s.length()
    n = n if z3.is_expr(n) else z3.IntVal(n)
    v = z3.simplify(e)
    if z3.is_int_value(v) and v.as_long() < 0:
        e = n + v
    elif not z3.is_int_value(v):
        # a negative symbolic index would wrap around in Python: the contract requires none
        c = ctx()
        if c.sat(e < 0) != z3.unsat:
            e = z3.If(e < 0, e + n, e)
    ctx().prove("no IndexError", z3.And(e >= 0, e < n))
    if getattr(s, "tag", None):
        ctx().term(s.tag, e)
    return s.at(e)


def seq_slice(s, k):
    n = s.length()
    n = n if z3.is_expr(n) else z3.IntVal(n)
    if k.step not in (None, 1):
        raise Unsupported("slice with a step")

    def clip(v, d):
        if v is None:
            return d
        e = idx_expr(v)
        e = z3.If(e < 0, e + n, e)
        return z3.If(e < 0, z3.IntVal(0), z3.If(e > n, n, e))
    lo, hi = z3.simplify(clip(k.start, z3.IntVal(0))), z3.simplify(clip(k.stop, n))
    return Seq(z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda j: s.at(lo + j), None, {"slice": (s, lo, hi)})


class SList(SObj, SSeqBase):
    """a Python list: concrete (a list of values) until a cut loop modifies it, then length and contents are symbolic"""

    def __init__(self, items=None, n=None, at=None, kind=None):
        SObj.__init__(self)
        self.items = items
        self.n, self._at, self.ekind = n, at, kind
        self.tag = "pos:%d" % self.oid
        self.fold = None        # optional ghost: a fold over the elements (what tuple() of the list is)
        self.meta = {}
        self.nsets = 0
        self.cells = None       # a list of lists (or None): (is None?, length, element), functions of the position
        self.cghosts = [mk(self) for mk in ctx().env.get("cell_ghosts", [])]
        self.ghosts = [mk(self) for mk in ctx().env.get("list_ghosts", [])]
        if "list_fold" in ctx().env:
            self.fold = ctx().env["list_fold"](self)

    # -- construction
    @staticmethod
    def repeat(l, n):
        items = l.items if isinstance(l, SList) else list(l)
        if items is None or len(items) != 1:
            raise Unsupported("repetition of a list of several elements a symbolic number of times")
        v = items[0]
        ne = numexpr(n)
        if z3.is_int_value(z3.simplify(ne)):
            return SList(items * z3.simplify(ne).as_long())
        if isinstance(v, (SObj, list, dict)):
            raise Unsupported("repetition of a list of mutable objects")
        k = kind_of(v)
        if k[0] == "none":
            return SList(None, z3.If(ne > 0, ne, 0), lambda j: None, k)
        return SList(None, z3.If(ne > 0, ne, 0), lambda j: v, k)

    @property
    def concrete(self):
        return self.items is not None

    def length(self):
        return z3.IntVal(len(self.items)) if self.concrete else self.n

    def at(self, k):
        if self.concrete:
            v = z3.simplify(k) if z3.is_expr(k) else z3.IntVal(k)
            if z3.is_int_value(v):
                return self.items[v.as_long()]
            if not self.items:
                raise Unsupported("element of an empty list")
            r = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                r = ite(k == j, self.items[j], r)
            return r
        if self.cells is not None:
            return CellRef(self, k)
        return self._at(k)

    def to_cells(self, kind):
        """become a list whose elements are lists or None"""
        if self.cells is None:
            k = self.ekind or (kind_of(self._at(ctx().fresh("j", I))) if not _is0(self.n) else ("none",))
            if k[0] != "none":
                raise Unsupported("list of lists and other values")
            self.cells = Cells(lambda q: z3.BoolVal(True), lambda q: z3.IntVal(0), None, None)
            self._at = lambda j: CellRef(self, j)
            self.ekind = None
        j = join_kind(self.cells.kind, kind)
        if j is None and kind is not None:
            raise Unsupported("lists of mixed kinds")
        if self.cells.kind != j:
            old, k0 = self.cells, self.cells.kind
            self.cells = Cells(old.null, old.len, (lambda q, i: default_value(j)) if k0 is None else (lambda q, i: coerce(old.elem(q, i), j)), j)

    def set_cell(self, e, v):
        src = freeze(v if isinstance(v, SList) else SList(list(v)))
        self.nsets += 1
        self.to_cells(src.info())
        old = self.cells
        m = src.length()
        empty = src.concrete and not src.items
        self.cells = Cells(lambda q: z3.And(q != e, old.null(q)), lambda q: z3.If(q == e, m, old.len(q)),
                           old.elem if empty else (lambda q, i: ite(q == e, src.at(i), old.elem(q, i))), old.kind)
        for g in self.cghosts:
            g.on_set(self, e, src)
        if isinstance(v, SList):        # the list now lives in this one
            v.__class__ = MovedList

    def symbolic(self):
        """switch to the symbolic representation (same contents)"""
        if self.concrete:
            items = list(self.items)
            n = len(items)
            self.items = None
            self.n = z3.IntVal(n)
            if n == 0:
                self._at = lambda k: _empty_elem()
                self.ekind = None
            else:
                def at(k, items=items):
                    r = items[-1]
                    for j in range(len(items) - 2, -1, -1):
                        r = ite(k == j, items[j], r)
                    return r
                self._at = at
        return self

    # -- python protocol
    def __getitem__(self, k):
        if self.concrete:
            if isinstance(k, slice):
                return SList(self.items[k])
            if isinstance(k, int):
                return self.items[k]
            v = z3.simplify(idx_expr(k))
            if z3.is_int_value(v):
                return self.items[v.as_long()]
        return seq_get(self, k)

    def _pos(self, k, upper=None):
        e = idx_expr(k)
        n = self.length()
        v = z3.simplify(e)
        if z3.is_int_value(v) and v.as_long() < 0:
            e = z3.simplify(n + v)
        elif not z3.is_int_value(v) and ctx().sat(e < 0) != z3.unsat:
            e = z3.If(e < 0, e + n, e)
        ctx().prove("no IndexError", z3.And(e >= 0, e < n))
        ctx().term(self.tag, e)
        return e

    def __setitem__(self, k, v):
        self.touch()
        self.meta = {}
        if self.concrete:
            if isinstance(k, slice):
                self.touch("len")
                self.fold = None
                self.items[k] = list(v)
                return
            x = z3.simplify(idx_expr(k))
            if z3.is_int_value(x):
                self.items[x.as_long()] = v
                self.fold = None
                for g in self.ghosts:
                    g.on_set(self, x, v)
                return
            self.symbolic()
        e = self._pos(k)
        if isinstance(v, (SList, list)):
            self.set_cell(e, v)
            return
        if self.cells is not None:
            if v is not None:
                raise Unsupported("list of lists and other values")
            old = self.cells
            self.nsets += 1
            self.cells = Cells(lambda q: z3.Or(q == e, old.null(q)), old.len, old.elem, old.kind)
            return
        old = self._at
        self._at = lambda j: ite(j == e, v, old(j))
        self.fold = None
        for g in self.ghosts:
            g.on_set(self, e, v)

    def append(self, v):
        if (isinstance(v, SDict) or hasattr(v, "vc_element")) and "element" in ctx().env:
            v = ctx().env["element"](v)
        self.touch("len")
        if self.cells is not None or not self.concrete and isinstance(v, (SList, list)):
            raise Unsupported("append to a list of lists")
        if "member" in self.meta:
            mem = self.meta["member"]
            self.meta = {"member": lambda e: z3.Or(mem(e), e == expr(v))}
        else:
            self.meta = {}
        for g in self.ghosts:
            g.on_append(self, self.length(), v)
        if self.concrete:
            self.items.append(v)
            if self.fold:
                self.fold.append(self, len(self.items) - 1, v)
            return
        n, old = self.n, self._at
        if self.fold:
            self.fold.append(self, n, v)
        self._at = (lambda j: ite(j == n, v, old(j))) if not (z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0) else (lambda j: v)
        self.n = z3.simplify(n + 1)
        ctx().term(self.tag, n)

    def extend(self, o):
        if isinstance(o, (list, tuple)) or isinstance(o, SSeqBase) and o.concrete_len() is not None:
            for v in o:
                self.append(v)
            return
        if not isinstance(o, SSeqBase):
            raise Unsupported("extend by %s" % type(o).__name__)
        self.touch("len")
        self.meta = {}
        self.fold = None
        self.symbolic()
        n, old, m = self.n, self._at, o.length()
        src = o if isinstance(o, Seq) else Seq(o.length(), o._at)
        self._at = lambda j: ite(j < n, old(j), src.at(j - n)) if not _is0(n) else src.at(j)
        self.n = n + m

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __radd__(self, o):
        r = SList(list(o))
        r.extend(self)
        return r

    def __mul__(self, o):
        if self.concrete and isinstance(o, int):
            return SList(self.items * o)
        return SList.repeat(self, o)
    __rmul__ = __mul__

    def copy(self):
        if self.concrete:
            return SList(list(self.items))
        if self.cells is not None:
            raise Unsupported("copy of a list of lists")
        r = SList(None, self.n, self._at, self.ekind)
        if "member" in self.meta:
            r.meta = {"member": self.meta["member"]}
        return r

    def vc_contains_value(self, v):
        """z3 Bool: is v (a symbolic value) one of the elements?"""
        e = expr(v)
        if self.concrete:
            return z3.Or(*[tobool(SBool(x == v) if isinstance(x == v, bool) else x == v) for x in self.items]) if self.items else z3.BoolVal(False)
        if "member" in self.meta:
            return self.meta["member"](e)
        raise Unsupported("membership in a symbolic list")

    def pop(self, k=-1):
        self.touch("len")
        if self.concrete and isinstance(k, int):
            if not self.items:
                ctx().prove("no IndexError", False)
            if self.fold:
                self.fold.cut(self, len(self.items) - 1 if k == -1 else k % len(self.items))
            for g in self.ghosts:
                g.on_cut(self, z3.IntVal(k % len(self.items)))
            return self.items.pop(k)
        e = self._pos(k)
        v = self.at(e)
        self._del(e)
        return v

    def __delitem__(self, k):
        self.touch("len")
        if self.concrete:
            x = z3.simplify(idx_expr(k))
            if z3.is_int_value(x):
                for g in self.ghosts:
                    g.on_cut(self, z3.IntVal(x.as_long() % len(self.items)))
                if self.fold:
                    self.fold.cut(self, x.as_long() % len(self.items))
                del self.items[x.as_long()]
                return
            self.symbolic()
        self._del(self._pos(k))

    def _del(self, e):
        self.symbolic()
        self.meta = {}
        if self.cells is not None:
            raise Unsupported("deletion from a list of lists")
        old, n = self._at, self.n
        if self.fold:
            self.fold.cut(self, e)
        for g in self.ghosts:
            g.on_cut(self, e)
        last = z3.simplify(e == n - 1)
        if z3.is_true(last):
            self._at = old
        else:
            self._at = lambda j: ite(j < e, old(j), old(j + 1))
        self.n = z3.simplify(n - 1)

    def insert(self, k, v):
        if self.concrete and isinstance(k, int):
            self.touch("len")
            self.fold = None
            self.items.insert(k, v)
            return
        raise Unsupported("insert into a symbolic list")

    def clear(self):
        self.touch("len")
        self.fold = None
        self.items = []

    def remove(self, v):
        raise Unsupported("list.remove")

    def index(self, v):
        if self.concrete:
            for k, x in enumerate(self.items):
                if same_bool(x, v):
                    return k
            raise ValueError("not in list")
        raise Unsupported("list.index on a symbolic list")

    def sort(self, **kw):
        if self.concrete and all(isinstance(x, (int, float, str)) for x in self.items):
            self.touch()
            self.fold = None
            self.items.sort(**kw)
            return
        raise Unsupported("list.sort on symbolic values")

    def reverse(self):
        if self.concrete:
            self.touch()
            self.fold = None
            self.items.reverse()
            return
        raise Unsupported("list.reverse on a symbolic list")

    def __contains__(self, v):
        if self.concrete:
            for x in self.items:
                r = x == v
                if r if isinstance(r, bool) else bool(r):
                    return True
            return False
        raise Unsupported("membership in a symbolic list")

    def __eq__(self, o):
        if isinstance(o, (list, SList)) and self.concrete and (isinstance(o, list) or o.concrete):
            oi = o if isinstance(o, list) else o.items
            return len(oi) == len(self.items) and all(bool(a == b) for a, b in zip(self.items, oi))
        if o is self:
            return True
        if o is None or isinstance(o, (str, SName, int, SNum)):
            return False
        raise Unsupported("comparison of symbolic lists")

    __hash__ = None

    def __bool__(self):
        return ctx().branch(self.length() > 0)

    # -- frames
    def vc_kind(self):
        return ("obj", self.oid)

    def snapshot(self):
        return (None if self.items is None else list(self.items), self.n, self._at)

    def vc_freeze(self):
        import copy
        o = copy.copy(self)
        o.items = None if self.items is None else list(self.items)
        o.ghosts = [copy.copy(g) for g in self.ghosts]
        o.cghosts = [copy.copy(g) for g in self.cghosts]
        if o.cells is not None:
            o._at = lambda j: CellRef(o, j)
        if o.fold is not None:
            o.fold = copy.copy(o.fold)
        return o

    def info(self):
        if self.concrete:
            k = None
            for v in self.items:
                nk = join_kind(k, kind_of(v))
                if nk is None:
                    raise Unsupported("list of mixed kinds")
                k = nk
            return k
        if self.cells is not None:
            return ("cells", self.cells.kind)
        if self.ekind is not None:
            k = self.ekind
        else:
            k = None
        c = ctx()
        if _is0(self.n):
            return k
        try:
            v = self._at(c.fresh("j", I))
        except EmptyElem:
            return k
        return join_kind(k, kind_of(v))

    def join_fn(self):
        return join_list

    def havoc(self, info, name="l", aspects=("len",)):
        c = ctx()
        n = self.length()
        self.items = None
        self.meta = {}
        if "len" in aspects:
            self.n = c.fresh(name + "_len", I)
            c.assume(self.n >= 0)
        else:
            self.n = n
        self.ekind = info
        self.cells = None
        self.nsets += 1
        if info is not None and info[0] == "cells":
            self.ekind = None
            f, g = c.fresh_fn(name + "_none", I, B), c.fresh_fn(name + "_len", I, I)
            h = fresh_family(info[1], name, I, I) if info[1] is not None else None
            self.cells = Cells(lambda q: f(q), lambda q: z3.If(g(q) > 0, g(q), 0), h, info[1])
            self._at = lambda j: CellRef(self, j)
            for gh in self.cghosts:
                gh.on_havoc(self)
        elif info is None:
            self._at = lambda k: _empty_elem()
            c.assume(self.n == 0)
        else:
            self._at = fresh_family(info, name, I)
        if self.fold:
            self.fold.havoc(self)
        for gh in self.ghosts:
            gh.on_havoc(self)


class Cells:
    def __init__(self, null, len, elem, kind):
        self.null, self.len, self.elem, self.kind = null, len, elem, kind


class MovedList:
    def __getattr__(self, a):
        raise Unsupported("use of a list that was stored in another one")
    __iter__ = __len__ = __getitem__ = __setitem__ = __add__ = __iadd__ = __contains__ = __bool__ = lambda self, *a: self._


class CellRef(SSeqBase):
    """an element of a list of lists: the list at a position (or None)"""

    def __init__(self, l, q):
        self.l, self.q = l, q
        self.nsets = l.nsets
        self.tag = "cell:%d" % l.oid

    @property
    def cells(self):
        if self.l.nsets != self.nsets:
            raise Unsupported("use of a list taken from another one that was changed since")
        return self.l.cells

    def vc_is_none(self):
        return SBool(self.cells.null(self.q))

    def need(self, what):
        ctx().prove("no %s (the value is None)" % what, z3.Not(self.cells.null(self.q)))

    def length(self):
        return self.cells.len(self.q)

    def vc_len(self):
        self.need("TypeError")
        n = z3.simplify(self.length())
        return SNum(n) if not z3.is_int_value(n) else n.as_long()

    def at(self, i):
        return self.cells.elem(self.q, i)

    def vc_iter(self):
        self.need("TypeError")
        return CellSeq(self)

    def __getitem__(self, i):
        self.need("TypeError")
        return seq_get(self, i)

    def append(self, v):
        self.need("AttributeError")
        l, q = self.l, self.q
        l.touch()
        l.to_cells(kind_of(v))
        old = self.cells if l.cells is not None else None
        old, n = l.cells, l.cells.len(q)
        l.cells = Cells(old.null, lambda p: z3.If(p == q, n + 1, old.len(p)), lambda p, i: ite(z3.And(p == q, i == n), v, old.elem(p, i)), old.kind)
        for g in l.cghosts:
            g.on_append(l, q, n, v)

    def __bool__(self):
        c = self.cells
        return ctx().branch(z3.And(z3.Not(c.null(self.q)), c.len(self.q) > 0))

    def __eq__(self, o):
        if o is None:
            return SBool(self.cells.null(self.q))
        raise Unsupported("comparison of lists")
    __hash__ = None

    def vc_same(self, o):
        if o is None or isnan(o):
            return self.cells.null(self.q)
        if isinstance(o, CellRef) and o.cells is self.cells:
            return self.q == o.q if not self.q.eq(o.q) else z3.BoolVal(True)
        if isinstance(o, CellRef):      # equal at an arbitrary position (sound where this is a goal; contracts assume it of no list)
            a, b = self.cells, o.cells
            i = ctx().fresh("i", I)
            return z3.And(a.null(self.q) == b.null(o.q), z3.Or(a.null(self.q), z3.And(a.len(self.q) == b.len(o.q), z3.Implies(z3.And(0 <= i, i < a.len(self.q)), same(a.elem(self.q, i), b.elem(o.q, i))))))
        raise Unsupported("comparison of lists")

    def vc_kind(self):
        return ("fixed", self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("vc_"):
            raise AttributeError(a)
        raise Unsupported("list operation .%s on an element of a list of lists" % a)


class CellSeq(SSeqBase):
    """iteration over an element of a list of lists (as it is when the loop starts)"""

    def __init__(self, ref):
        self.ref = ref
        self.c, self.q, self.tag = ref.cells, ref.q, ref.tag

    def length(self):
        return self.c.len(self.q)

    def at(self, i):
        return self.c.elem(self.q, i)


class CellGhost:
    """ghost of a list of lists of integers: for every integer the position in the inner list where it was stored last"""

    def __init__(self, l):
        self.pos = lambda x: z3.IntVal(-1)

    def on_append(self, l, q, n, v):
        p, old = row_part(v), self.pos
        if p is not None:
            self.pos = lambda x: z3.If(x == p, n, old(x))

    def on_set(self, l, q, src):
        if not src.concrete:
            f = ctx().fresh_fn("cpos", I, I)
            self.pos = lambda x: f(x)
            return
        for i, v in enumerate(src.items):
            self.on_append(l, q, z3.IntVal(i), v)

    def on_havoc(self, l):
        f = ctx().fresh_fn("cpos", I, I)
        self.pos = lambda x: f(x)


def row_part(v):
    """the integer component of a list element (the element itself, or the first integer of a tuple), as a term"""
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, int) and not isinstance(x, bool) or isinstance(x, SNum) and x.isint:
                return expr(x)
        return None
    if isinstance(v, int) and not isinstance(v, bool) or isinstance(v, SNum) and v.isint:
        return expr(v)
    return None


class PosGhost:
    """ghost of a list: a position at which the tracked integer is stored, or -1"""

    def __init__(self, lst, what, key=None):
        self.what = what
        self.key = key or row_part
        self.pos = z3.IntVal(-1)

    def on_append(self, l, n, v):
        p = self.key(v)
        if p is not None:
            self.pos = z3.simplify(z3.If(p == self.what, n, self.pos))

    def on_cut(self, l, e):
        self.pos = z3.simplify(z3.If(self.pos == e, z3.IntVal(-1), z3.If(self.pos > e, self.pos - 1, self.pos)))

    def on_set(self, l, e, v):
        self.pos = z3.simplify(z3.If(self.pos == e, z3.IntVal(-1), self.pos))

    def on_havoc(self, l):
        c = ctx()
        self.pos = c.fresh("pos", I)
        c.assume(z3.And(self.pos >= -1, self.pos < l.n))
        if l.ekind is not None:
            p = self.key(l._at(self.pos))
            if p is not None:
                c.assume(z3.Implies(self.pos >= 0, p == self.what))
            else:
                c.assume(self.pos == -1)
            c.term(l.tag, self.pos)


def name_part(v):
    return expr(v) if isinstance(v, (str, SName)) else None


class MapGhost:
    """ghost of a list whose elements are (or contain) integers: for every integer a position at which it is stored, or -1"""

    def __init__(self, lst, key=None):
        self.key = key or row_part
        self.pos = lambda r: z3.IntVal(-1)

    def on_append(self, l, n, v):
        p, old = self.key(v), self.pos
        if p is not None:
            self.pos = lambda r: z3.If(r == p, n, old(r))

    def on_cut(self, l, e):
        old = self.pos
        self.pos = lambda r: z3.If(old(r) == e, z3.IntVal(-1), z3.If(old(r) > e, old(r) - 1, old(r)))

    def on_set(self, l, e, v):
        old = self.pos
        self.pos = lambda r: z3.If(old(r) == e, z3.IntVal(-1), old(r))

    def on_havoc(self, l):
        c = ctx()
        f = c.fresh_fn("gpos", I, I)
        self.pos = lambda r: f(r)

    def at(self, l, r):
        """z3 Bool: r is in the list, at its ghost position"""
        p = self.pos(r)
        if l.concrete and not l.items:
            return z3.BoolVal(False)
        q = self.key(l.at(p))
        return z3.BoolVal(False) if q is None else z3.And(0 <= p, p < l.length(), q == r)


class EmptyElem(Exception):
    pass


def _empty_elem():
    raise EmptyElem()


def _is0(n):
    n = z3.simplify(n) if z3.is_expr(n) else z3.IntVal(n)
    return z3.is_int_value(n) and n.as_long() == 0


def same_bool(a, b):
    r = a == b
    return r if isinstance(r, bool) else bool(r)


class SDict(SObj):
    """a Python dict with concrete keys (str/int/tuple of those), or - after a cut loop / symbolic key - a list of writes"""

    def __init__(self, items=None):
        SObj.__init__(self)
        self.d = {}
        self.writes = None     # symbolic: (base presence fn, base value fn, [(key, value)])
        for k, v in (items or []):
            self[k] = v

    @staticmethod
    def _ck(k):
        if isinstance(k, SNum):
            v = z3.simplify(k.e)
            if z3.is_int_value(v):
                return v.as_long()
            return None
        if isinstance(k, SName):
            v = z3.simplify(k.e)
            if z3.is_int_value(v) and v.as_long() in _strings:
                return _strings[v.as_long()]
            return None
        if isinstance(k, (SMaybe, SBool)) or hasattr(k, "vc_same"):
            return None
        if isinstance(k, tuple):
            t = tuple(SDict._ck(x) for x in k)
            return None if any(x is None and y is not None for x, y in zip(t, k)) else t
        return k

    def _sym_keys(self):
        if any(SDict._ck(k) is None and k is not None for k in self.d):
            return True
        return False

    def _find(self, k):
        """the value cell of key k, forking over the symbolic keys; None if absent"""
        if self.writes is not None:
            raise Unsupported("dict in symbolic form")
        ck = SDict._ck(k)
        if ck is not None or k is None:
            if ck in self.d:
                return ck
            return None
        for q in list(self.d):
            if bool(SBool(same(q, k))):
                return q
        return None

    def __setitem__(self, k, v):
        self.touch()
        ck = SDict._ck(k)
        if ck is None and k is not None:
            f = self._find(k)
            if f is None:
                raise Unsupported("dict with a symbolic key")
            self.d[f] = v
            return
        self.d[ck] = v

    def __getitem__(self, k):
        f = self._find(k)
        if f is None and None not in self.d:
            ctx().prove("no KeyError", False)
            raise PathEnd()
        return self.d[f]

    def __contains__(self, k):
        f = self._find(k)
        return f is not None or (k is None and None in self.d)

    def __delitem__(self, k):
        self.touch()
        del self.d[self._find(k)]

    def get(self, k, default=None):
        f = self._find(k)
        return default if f is None else self.d[f]

    def pop(self, k, *default):
        f = self._find(k)
        if f is None:
            if default:
                return default[0]
            ctx().prove("no KeyError", False)
            raise PathEnd()
        self.touch()
        return self.d.pop(f)

    def setdefault(self, k, v=None):
        f = self._find(k)
        if f is None:
            self[k] = v
            return v
        return self.d[f]

    def keys(self): return self.d.keys()
    def values(self): return self.d.values()
    def items(self): return self.d.items()
    def __iter__(self): return iter(list(self.d))
    def vc_len(self): return len(self.d)
    def __bool__(self): return bool(self.d)
    def copy(self): return SDict(list(self.d.items()))

    def update(self, o):
        for k in o:
            self[k] = o[k]

    def __eq__(self, o):
        if isinstance(o, (dict, SDict)):
            od = o if isinstance(o, dict) else o.d
            return self.d.keys() == od.keys() and all(bool(self.d[k] == od[k]) for k in self.d)
        return False
    __hash__ = None

    def vc_kind(self):
        return ("obj", self.oid)

    def vc_freeze(self):
        import copy
        o = copy.copy(self)
        o.d = {k: freeze(v) for k, v in self.d.items()}
        return o

    def snapshot(self):
        return dict(self.d)

    def info(self):
        return {k: kind_of(v) for k, v in self.d.items()}

    def join_fn(self):
        return join_dict

    def havoc(self, info, name="d", aspects=()):
        for k in list(self.d):
            kd = info[k] if info else kind_of(self.d[k])
            if kd[0] in ("obj", "fixed"):
                continue
            self.d[k] = fresh_value(kd, name)
