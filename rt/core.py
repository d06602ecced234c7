"""Run-time side of the contracts: the executable form of every property's postcondition,
evaluated on the real code of /repo in CPython (interpreter /opt/venv/bin/python).

It has three uses: replaying a verifier counterexample, searching for a failing input when an
obligation fails, and - labelled bounded - standing in for code outside the verifier's reach.
Nothing here decides that a property is proved.
"""
import ast, json, math, os, random, sys, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
REPO = os.environ.get("PIPIT_REPO", "/repo")
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)
import numpy as np
import pandas as pd

HERE = os.path.dirname(os.path.abspath(__file__))

# ----------------------------------------------------------------------------- literals
def repo_literals():
    """All int/float/str constants of the package's current source (tests excluded)."""
    ints, floats, strs = set(), set(), set()
    for top, dirs, files in os.walk(os.path.join(REPO, "pipit")):
        dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__")]
        for f in files:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(top, f), encoding="utf-8").read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant):
                        v = n.value
                        if isinstance(v, bool) or v is None:
                            continue
                        if isinstance(v, int) and abs(v) < 10**15:
                            ints.add(v)
                        elif isinstance(v, float) and math.isfinite(v):
                            floats.add(v)
                        elif isinstance(v, str) and len(v) <= 60 and v.isprintable():
                            strs.add(v)
    return ints, floats, strs

class Hints:
    def __init__(self):
        ints, floats, strs = repo_literals()
        base = {"ints": [], "floats": [], "strs": []}
        p = os.path.join(HERE, "base_literals.json")
        if os.path.exists(p):
            base = json.load(open(p))
        self.ints, self.floats, self.strs = sorted(ints), sorted(floats), sorted(strs)
        self.new_ints = sorted(ints - set(base["ints"]))
        self.new_floats = sorted(floats - set(base["floats"]))
        self.new_strs = sorted(strs - set(base["strs"]))
    def an_int(self, rng, lo=None, hi=None):
        pool = [i + d for i in (self.new_ints if self.new_ints and rng.random() < .7 else self.ints) for d in (-1, 0, 1)]
        pool = [i for i in pool if (lo is None or i >= lo) and (hi is None or i <= hi)]
        return rng.choice(pool) if pool else None
    def a_str(self, rng):
        # (names with control characters are outside the generators: pandas itself confuses '' and NUL)
        pool = self.new_strs if self.new_strs and rng.random() < .7 else self.strs
        return rng.choice(pool) if pool else "x"

_H = None
def hints():
    global _H
    if _H is None:
        _H = Hints()
    return _H

# ----------------------------------------------------------------------------- comparing
def isnull(x):
    if x is None or x is pd.NA:
        return True
    try:
        return bool(x != x)
    except (TypeError, ValueError):
        return False

def close(a, b, rel=1e-9, absol=1e-6):
    if isnull(a) or isnull(b):
        return isnull(a) and isnull(b)
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= max(absol, rel * max(abs(a), abs(b)))

def same(a, b):
    """value equality with null == null"""
    na, nb = isnull(a), isnull(b)
    if na or nb:
        return na and nb
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    try:
        return bool(a == b)
    except (TypeError, ValueError):
        return False

def csv_name(x):
    """names a CSV reader returns as they are (not blank, not a spelling of a missing value or a number)"""
    from pandas._libs.parsers import STR_NA_VALUES
    if not x or x != x.strip() or x in STR_NA_VALUES or not x.isprintable() or '"' in x:
        return False
    if x.lower() in ("true", "false", "inf", "infinity", "-inf", "+inf", "nan"):
        return False
    try:
        float(x)
        return False
    except ValueError:
        return True

class Fail(Exception):
    pass

def expect(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)

# ----------------------------------------------------------------------------- traces
NAMES = ["main", "foo", "bar", "baz", "MPI_Send", "MPI_Recv", "Idle", "MPI_Wait", "loop"]
ODD = ["a->b", "a", "b", "->", "", " ", "operator->", "foo.bar", "\u00e9t\u00e9", "x" * 40, "Enter", "Leave", "time.inc"]

def pick_names(rng, k=None):
    k = k or rng.choice([1, 2, 2, 3, 4, 6])
    pool = list(NAMES)
    if rng.random() < .4:
        pool += ODD
    if rng.random() < .3:
        pool += [hints().a_str(rng) for _ in range(4)]
    if hints().new_strs and rng.random() < .3:
        pool = hints().new_strs + pool[:2]
    pool = list(dict.fromkeys(pool))
    return rng.sample(pool, min(k, len(pool)))

def size(rng, cap=400):
    r = rng.random()
    if r < .04: return 0
    if r < .55: return rng.randint(1, 10)
    if r < .85: return rng.randint(8, 40)
    if r < .97: return rng.randint(30, 90)
    h = hints().an_int(rng, 1, cap)
    return min(cap, h if h and rng.random() < .5 else rng.randint(min(80, cap), cap))

SHAPE = None     # an unusual shape for the next generated trace (one of SHAPES); run.py tries each once
SHAPES = ["wide", "labels", "procs", "long", "deep", "names"]

def shaped_trace(rng, kind, threads, dense, metrics, attrs, scale=10):
    """a properly nested trace, large in one dimension"""
    n = {"wide": 1300, "long": 2600, "deep": 330, "names": 700, "procs": 290, "labels": 40}[kind]
    names = ["fn%d" % i for i in range(330)] if kind == "names" else NAMES
    labels = list(range(n)) if kind == "procs" else [0] if kind in ("wide", "deep") else [0, 1]
    if kind == "labels" and not dense:
        labels = [0, 127, 128, 200, 255, 256, 32767, 32768, 40000, 65535, 65536, 100000]
    ev = []
    def body(p):
        if kind == "deep":
            for i in range(n): ev.append(["Enter", names[i % 5], p])
            for i in reversed(range(n)): ev.append(["Leave", names[i % 5], p])
            return
        ev.append(["Enter", "main", p])
        if kind in ("procs", "labels"):
            for i in range(rng.choice([1, 2])):
                f = rng.choice(names); ev.append(["Enter", f, p]); ev.append(["Leave", f, p])
        else:
            k = n if kind == "wide" else n // 2
            while k > 0:
                f, g = (names[k % len(names)] if kind == "names" else rng.choice(names[1:4])), rng.choice(names)
                ev.append(["Enter", f, p])
                if kind == "long" and k % 3 == 0:
                    ev.append(["Enter", g, p]); ev.append(["Leave", g, p])
                ev.append(["Leave", f, p])
                k -= 1
        ev.append(["Leave", "main", p])
    for p in labels:
        body(p)
    rows = [[i * scale, e, f, p, 0 if threads else None] for i, (e, f, p) in enumerate(ev)]
    case = {"rows": rows, "threads": bool(threads), "metrics": {}, "float_ts": False, "cat": True}
    for i in range(metrics or 0):
        case["metrics"][["PAPI_TOT_INS", "bytes", "Cycles"][i]] = [(7 * j + j // 3) % 1000 for j in range(len(rows))]
    if attrs:
        case["attrs"] = [None if r[1] == "Leave" else {"k": i} for i, r in enumerate(rows)]
    return case

def gen_trace(rng, nested=True, orphans=.3, threads=None, instants=.2, procs=None, dense=False,
              metrics=None, other_types=("Instant",), zero=True, cap=400, nmax=None, strict_nest=False,
              every_proc_enters=False, positive=False, attrs=False, maxloc=None):
    """A case: {"rows": [[ts, type, name, proc, thr|None]...], "metrics": {col: [..]}, "dtypes": {...}}.

    nested: matched calls are properly nested per location; strict_nest: additionally no call outlives its caller."""
    if threads is None:
        threads = rng.random() < .4
    if SHAPE:
        return shaped_trace(rng, SHAPE, threads, dense, metrics, attrs)
    nproc = rng.choice([1, 1, 2, 2, 3, 4, 6]) if procs is None else procs
    if dense:
        plabels = list(range(nproc))
    else:
        plabels = rng.choice([list(range(nproc)), sorted(rng.sample(range(0, 50), nproc)), list(range(1, nproc + 1))] + [sorted(rng.sample([0, 1, 100, 127, 128, 255, 256, 40000, 70000], nproc))] * (rng.random() < .1))
    locs = []
    for p in plabels:
        if threads:
            tl = rng.choice([[0], [0, 1], [0, 1, 2], [1], [0, 5]])
            locs += [(p, t) for t in tl]
        else:
            locs.append((p, None))
    if maxloc:
        locs = locs[:maxloc]
    rng.shuffle(locs)
    names = pick_names(rng)
    total = size(rng, cap)
    if nmax is not None:
        total = min(total, nmax)
    scale = rng.choice([1, 1, 1, 10, 1000, 10**9])
    step = rng.choice([[1], [0, 1], [0, 0, 1], [0, 1, 2, 7], [1, 3, 100]]) if zero else rng.choice([[1], [1, 2, 7]])
    per = []
    style = rng.choice(["mix", "mix", "deep", "flat", "recursive"])
    hi = hints().an_int(rng, 1, 10**12) if rng.random() < .2 else None
    for loc in locs:
        m = max(1 if every_proc_enters else 0, total // len(locs) + rng.randint(-2, 2))
        ev, stack, t = [], [], rng.choice([0, 0, 0, 1, 5, 17]) if not hi else hi
        uid = 0
        nm = names if rng.random() < .7 else pick_names(rng)
        if style == "recursive":
            nm = nm[:1]
        while len(ev) < m:
            t += rng.choice(step)
            r = rng.random()
            if r < instants and not (every_proc_enters and not ev):
                ev.append((t, rng.choice(list(other_types)), rng.choice(nm + ["MpiSend", "Mark"])))
                continue
            if nested:
                pe = {"mix": .5, "deep": .85, "flat": .5, "recursive": .6}[style]
                if style == "flat" and stack:
                    pe = .1
                if rng.random() < pe or (every_proc_enters and not ev):
                    n = rng.choice(nm)
                    ev.append((t, "Enter", n)); stack.append(n)
                elif stack:
                    ev.append((t, "Leave", stack.pop()))
                elif rng.random() < orphans:
                    ev.append((t, "Leave", rng.choice(nm)))     # nothing is open: an orphan
                if rng.random() < orphans * .15:
                    uid += 1
                    n = rng.choice([x for x in nm if x not in stack] or ["orphan%d" % uid])
                    if n not in stack and rng.random() < .5:
                        ev.append((t, "Leave", n))              # not open: an orphan Leave inside a call
                    elif not strict_nest:
                        ev.append((t, "Enter", "lost%d" % uid)) # never left
            else:
                ev.append((t, rng.choice(["Enter", "Enter", "Leave"]) if style == "deep" else rng.choice(["Enter", "Leave"]), rng.choice(nm)))
        if nested and rng.random() < .7:
            while stack:
                t += rng.choice(step)
                ev.append((t, "Leave", stack.pop()))
        if not nested and rng.random() < .5:
            for _ in range(len(ev) // 3):
                t += rng.choice(step)
                ev.append((t, "Leave", rng.choice(nm)))
        per.append([[e[0] * scale, e[1], e[2], loc[0], loc[1]] for e in ev])
    rows = []
    heads = [0] * len(per)
    while any(h < len(p) for h, p in zip(heads, per)):
        mt = min(p[h][0] for h, p in zip(heads, per) if h < len(p))
        c = rng.choice([i for i, (h, p) in enumerate(zip(heads, per)) if h < len(p) and p[h][0] == mt])
        rows.append(per[c][heads[c]]); heads[c] += 1
    case = {"rows": rows, "threads": bool(threads), "metrics": {}, "float_ts": rng.random() < .25,
            "cat": True}
    if positive and rows and rows[0][0] == rows[-1][0]:
        rows[-1][0] += scale
    if metrics is None:
        metrics = rng.choice([0, 0, 0, 1, 2])
    for i in range(metrics):
        nm = ["PAPI_TOT_INS", "bytes", "Cycles"][i]
        mode = rng.choice(["mono", "rand", "float"])
        acc, col = 0, []
        for _ in rows:
            if mode == "mono": acc += rng.randint(0, 9); col.append(acc)
            elif mode == "rand": col.append(rng.randint(-50, 50))
            else: col.append(rng.randint(-400, 400) / 4.0)
        case["metrics"][nm] = col
    if attrs:
        case["attrs"] = [None if r[1] == "Leave" else {"k": i} for i, r in enumerate(rows)]
    return case

def frame(case):
    rows = case["rows"]
    d = {"Timestamp (ns)": pd.Series([r[0] for r in rows], dtype="float64" if case.get("float_ts") else "int64"),
         "Event Type": pd.Series([r[1] for r in rows], dtype=object),
         "Name": pd.Series([r[2] for r in rows], dtype=object)}
    if case.get("threads"):
        d["Thread"] = pd.Series([r[4] for r in rows], dtype="int64")
    d["Process"] = pd.Series([r[3] for r in rows], dtype="int64")
    for k, v in case.get("metrics", {}).items():
        d[k] = pd.Series(v, dtype="float64" if any(isinstance(x, float) for x in v) else "int64")
    if "attrs" in case:
        d["Attributes"] = pd.Series(case["attrs"], dtype=object)
    df = pd.DataFrame(d)
    if case.get("cat", True):
        df = df.astype({"Event Type": "category", "Name": "category", "Process": "category"})
        if case.get("threads"):
            df = df.astype({"Thread": "category"})
    return df

def trace(case):
    import pipit.trace
    return pipit.trace.Trace(None, frame(case))

# ----------------------------------------------------------------------------- specifications
def loc(r):
    return (r[3], r[4])

def spec_match(rows):
    """partner row of every row (None if unpaired): latest still unpaired Enter of the name and location"""
    open_, m = {}, [None] * len(rows)
    for i, r in enumerate(rows):
        key = (r[3], r[4], r[2])
        if r[1] == "Enter":
            open_.setdefault(key, []).append(i)
        elif r[1] == "Leave" and open_.get(key):
            j = open_[key].pop()
            m[i], m[j] = j, i
    return m

def properly_nested(rows, m):
    st = {}
    for i, r in enumerate(rows):
        if m[i] is None:
            continue
        s = st.setdefault(loc(r), [])
        if r[1] == "Enter":
            s.append(i)
        else:
            if not s or s[-1] != m[i]:
                return False
            s.pop()
    return True

def spec_tree(rows, m):
    """depth, parent, children of every row"""
    n = len(rows)
    depth, parent, children, st = [None] * n, [None] * n, [None] * n, {}
    for i, r in enumerate(rows):
        if m[i] is None:
            continue
        s = st.setdefault(loc(r), [])
        if r[1] == "Enter":
            depth[i] = len(s)
            if s:
                parent[i] = s[-1]
                children[s[-1]] = (children[s[-1]] or []) + [i]
            s.append(i)
        else:
            s.remove(m[i])
    return depth, parent, children

def col_values(case, col):
    return [r[0] for r in case["rows"]] if col == "Timestamp (ns)" else case["metrics"][col]

def spec_inc(case, m, col):
    v = col_values(case, col)
    return [v[m[i]] - v[i] if r[1] == "Enter" and m[i] is not None else None for i, r in enumerate(case["rows"])]

def spec_exc(case, m, children, col):
    inc = spec_inc(case, m, col)
    return [None if x is None else x - sum(inc[c] for c in (children[i] or [])) for i, x in enumerate(inc)]

def mcol(col, kind):
    return ("time" if col == "Timestamp (ns)" else col) + "." + kind

def check_col(df, name, want, what=None, cmp=same):
    expect(name in df.columns, "column %s is missing", name)
    got = list(df[name])
    expect(len(got) == len(want), "%s has %d rows, expected %d", name, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        expect(cmp(g, w), "%s of row %d is %r, expected %r", what or name, i, g, w)

def snapshot(df):
    return df.copy(deep=True)

def check_unchanged(before, after, what):
    """the original columns, rows, order and row numbers are unchanged"""
    expect(list(after.index) == list(before.index), "%s changed the row numbers or number of rows", what)
    for c in before.columns:
        expect(c in after.columns, "%s removed column %s", what, c)
        a, b = list(before[c]), list(after[c])
        for i, (x, y) in enumerate(zip(a, b)):
            expect(same(x, y), "%s changed %s of row %d from %r to %r", what, c, i, x, y)
