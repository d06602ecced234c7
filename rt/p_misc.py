"""Executable postconditions of C15 (config), C16 (CSV), C22 (Nsight), C23 (Chrome)."""
import csv, importlib, io, itertools, shutil, tempfile
from core import *
import core
from p_trace import Prop, mk

PROPS = {}
def register(cls):
    PROPS[cls.id] = cls
    return cls

class scratch:
    def __enter__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") else None
        self.d = tempfile.mkdtemp(prefix="vp_", dir=base)
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

# ----------------------------------------------------------------------------- C15
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
DEFAULTS = {"log_level": "INFO", "notebook_url": "http://localhost:8888"}
def valid(key, v):
    return v in LEVELS if key == "log_level" else isinstance(v, str) and (v.startswith("http://") or v.startswith("https://"))

@register
class C15(Prop):
    id = "C15"
    VALS = LEVELS + ["debug", "info", "Info", "", " INFO", "INFO ", "TRACE", "NOTSET", "WARN", "http://x", "https://x:1/y?z", "http://", "https://", "http:/x", "https:/", "ftp://x", "HTTP://x", "xhttp://", "http", "localhost:8888", "http://localhost:8888"]
    BAD = [None, 5, True, 1.5]
    def gen(self, rng):
        ops = []
        for _ in range(rng.randint(1, 14)):
            k = rng.choice(["log_level", "log_level", "notebook_url", "notebook_url", rng.choice(["", "nope", "LOG_LEVEL", "all", core.hints().a_str(rng)])])
            o = rng.choice(["set", "set", "set", "get", "reset"])
            if o == "set":
                v = rng.choice(self.VALS) if rng.random() < .75 else rng.choice(LEVELS) if k == "log_level" else rng.choice(["http://a", "https://b"])
                if rng.random() < .1: v = rng.choice(self.BAD)
                if rng.random() < .1: v = core.hints().a_str(rng)
                ops.append(["set", k, v])
            elif o == "reset":
                ops.append(["reset", rng.choice([k, k, "all"])])
            else:
                ops.append(["get", k])
        return {"ops": ops}
    def small(self):
        for k in ("log_level", "notebook_url"):
            for v in self.VALS + self.BAD:
                yield {"ops": [["set", k, v]]}
                other = {"log_level": ["set", "notebook_url", "https://q"], "notebook_url": ["set", "log_level", "ERROR"]}[k]
                yield {"ops": [other, ["set", k, v], ["reset", k]]}
                yield {"ops": [other, ["set", k, v], ["reset", "all"]]}
    def check(self, case):
        import pipit.util.config as cf
        importlib.reload(cf)
        cur = dict(DEFAULTS)
        def state(after):
            for k in DEFAULTS:
                got = cf.get_option(k)
                expect(got == cur[k] and type(got) is type(cur[k]), "%s is %r after %r, expected %r", k, got, after, cur[k])
        state("import")
        for op in case["ops"]:
            k = op[1]
            known = k in DEFAULTS
            ok = known and (op[0] != "set" or valid(k, op[2])) or op[0] == "reset" and k == "all"
            try:
                if op[0] == "set": cf.set_option(k, op[2])
                elif op[0] == "reset": cf.reset_option(k)
                else:
                    got = cf.get_option(k)
                    expect(known, "get_option(%r) returns %r", k, got)
                    expect(got == cur[k], "get_option(%r) is %r, expected %r", k, got, cur[k])
                raised = None
            except Fail:
                raise
            except Exception as e:
                raised = e
            if ok:
                expect(raised is None, "%r raises %r", op, raised)
                if op[0] == "set": cur[k] = op[2]
                elif op[0] == "reset": cur.update(DEFAULTS if k == "all" else {k: DEFAULTS[k]})
            else:
                expect(raised is not None, "%r does not raise", op)
            state(op)

# ----------------------------------------------------------------------------- C16
@register
class C16(Prop):
    id = "C16"
    def gen(self, rng):
        n = core.size(rng, 300)
        n = max(n, 1)
        sec = rng.random() < .4
        names = core.pick_names(rng)
        names = [x for x in names if core.csv_name(x)] or ["main"]
        if "main" not in names: names.append("main")
        top = rng.choice([1, 3, 10, 100, 10**6, 10**12])
        h = core.hints().an_int(rng, 0, 10**12)
        small_p = rng.random() < .7
        rows = []
        for i in range(n):
            t = rng.randint(0, top) if not h or rng.random() < .8 else h
            rows.append([t, rng.choice(["Enter", "Leave", "Instant"]), rng.choice(names), rng.randrange(rng.choice([1, 2, 8])) if small_p else rng.choice([0, 1, 127, 128, 255, 256, 32767, 32768, 65536, 100000, 2**31 - 1]), rng.choice([0, 1])])
        if rng.random() < .5:
            rows.sort(key=lambda r: r[0])
        if sec:
            div = rng.choice([8.0, 1.0, 1000.0, 10**9]) if rng.random() < .6 else 1
            for r in rows:
                r[0] = (r[0] % 10**9) / div if div != 1 else r[0] % 10**9   # a time a real trace can have
        c = {"rows": rows, "sec": sec, "thread": rng.random() < .4, "metric": rng.random() < .4, "space": rng.choice(["", "", " ", "   "]), "perm": rng.random() < .3, "text": rng.random() < .3}
        return c
    def small(self):
        for n in range(1, 5):
            for ts in itertools.product([0, 1, 2], repeat=n):
                yield {"rows": [[t, "Enter", "f%d" % i, 0, 0] for i, t in enumerate(ts)], "sec": len(set(ts)) % 2 == 1, "thread": False, "metric": True, "space": "", "perm": False, "text": False}
        for n in (17, 40, 100):
            for k in (1, 2, 3):
                yield {"rows": [[(i * 7) % k, "Enter", "f%d" % i, i % 2, 0] for i in range(n)], "sec": k == 2, "thread": False, "metric": False, "space": "", "perm": False, "text": False}
    def pre(self, case):
        return len(case["rows"]) > 0
    def check(self, case):
        import pipit.trace
        rows = case["rows"]
        cols = ["Timestamp (s)" if case["sec"] else "Timestamp (ns)", "Event Type", "Name", "Process"]
        data = [[r[0], r[1], r[2], r[3]] for r in rows]
        if case["thread"]:
            cols.append("Thread")
            for d, r in zip(data, rows): d.append(r[4])
        if case["metric"]:
            cols.append("bytes")
            for i, d in enumerate(data): d.append((i * 37) % 101)
        if case["text"]:
            cols.append("Note")
            for i, d in enumerate(data): d.append("n %d" % (i * 31 % 17))
        if case["perm"]:
            cols = cols[::-1]; data = [d[::-1] for d in data]
        with scratch() as d:
            f = os.path.join(d, "t.csv")
            with open(f, "w", newline="", encoding="utf-8") as fh:
                s = case["space"]
                fh.write(("," + s).join(cols) + "\n")
                for r in data:
                    fh.write(("," + s).join(('"%s"' % v if "," in str(v) else repr(v) if isinstance(v, float) else str(v)) for v in r) + "\n")
            before = open(f, "rb").read()
            t = pipit.trace.Trace.from_csv(f)
            expect(open(f, "rb").read() == before, "the file was changed")
        ev = t.events
        expect(len(ev) == len(rows), "%d rows for %d records", len(ev), len(rows))
        expect(list(ev.index) == list(range(len(rows))), "rows are not numbered from 0")
        order = sorted(range(len(rows)), key=lambda i: rows[i][0] * (10**9 if case["sec"] else 1))
        out = ["Timestamp (ns)" if c == "Timestamp (s)" else c for c in cols]
        expect(sorted(ev.columns) == sorted(out), "columns are %r", list(ev.columns))
        for j, c in enumerate(out):
            want = [data[i][j] for i in order]
            if c == "Timestamp (ns)" and case["sec"]:
                want = [w * 10**9 for w in want]
            check_col(ev, c, want, cmp=(lambda a, b: close(a, b, rel=1e-12)) if c == "Timestamp (ns)" and case["sec"] else same)
        for c in ("Event Type", "Name", "Process"):
            expect(str(ev[c].dtype) == "category", "%s has dtype %s", c, ev[c].dtype)

# ----------------------------------------------------------------------------- C22
@register
class C22(Prop):
    id = "C22"
    def gen(self, rng):
        n = max(1, core.size(rng, 200))
        mode = rng.choice(["single", "threads", "procs", "procthreads"])
        pids = rng.sample([0, 1, 2, 3, 7, 100, 4242, 31337, 65536], rng.choice([2, 3, 5])) if "proc" in mode else [rng.choice([0, 1, 4242])]
        tids = {p: rng.sample(range(100000, 100020), rng.choice([1, 2, 4])) + ([p] if rng.random() < .5 else []) for p in pids}
        if rng.random() < .3:
            shared = rng.sample(range(500, 520), 3)
            tids = {p: list(shared) for p in pids}
        recs, top = [], rng.choice([2, 10, 1000, 10**9])
        names = core.pick_names(rng)
        names = [x for x in names if core.csv_name(x) and "," not in x] or ["k"]
        for i in range(n):
            p = rng.choice(pids)
            t = rng.choice(tids[p]) if "threads" in mode else p
            s = rng.randint(0, top)
            recs.append([s, s + rng.choice([0, 0, 1, 3, rng.randint(0, top)]), rng.choice(names), p, t, rng.randint(0, 9)])
        if rng.random() < .4: recs.sort()
        return {"recs": recs, "extra": rng.random() < .6, "cct": False}
    def small(self):
        for n in (1, 2, 3):
            for st in itertools.product([0, 1], repeat=2 * n):
                recs = [[st[2 * i], st[2 * i] + st[2 * i + 1], "f%d" % i, 5, 5 + i % 2, i] for i in range(n)]
                yield {"recs": recs, "extra": True, "cct": False}
        for k in (2, 3, 5):
            yield {"recs": [[i % k, i % k + i % 2, "f%d" % i, i % 3, 10 + i % 4, i] for i in range(60)], "extra": True, "cct": False}
    def check(self, case):
        import pipit.trace
        recs = case["recs"]
        if not recs: return
        with scratch() as d:
            f = os.path.join(d, "r.csv")
            cols = ["Start (ns)", "End (ns)", "Name", "PID", "TID"] + (["Lvl", "Text"] if case["extra"] else [])
            with open(f, "w", newline="", encoding="utf-8") as fh:
                w = csv.writer(fh); w.writerow(cols)
                for r in recs:
                    w.writerow(r[:5] + ([r[5], "t%d" % r[5]] if case["extra"] else []))
            t = pipit.trace.Trace.from_nsight(f)
        ev = t.events
        n = len(recs)
        expect(len(ev) == 2 * n, "%d rows for %d records", len(ev), n)
        expect(list(ev.index) == list(range(2 * n)), "rows are not numbered from 0")
        rows = [(r[0], 0, i, "Enter") for i, r in enumerate(recs)] + [(r[1], 1, i, "Leave") for i, r in enumerate(recs)]
        rows.sort(key=lambda x: (x[0], x[1]))   # stable: record order
        check_col(ev, "Timestamp (ns)", [x[0] for x in rows])
        check_col(ev, "Event Type", [x[3] for x in rows])
        idx = [x[2] for x in rows]
        check_col(ev, "Name", [recs[i][2] for i in idx])
        check_col(ev, "PID", [recs[i][3] for i in idx])
        check_col(ev, "TID", [recs[i][4] for i in idx])
        if case["extra"]:
            check_col(ev, "Lvl", [recs[i][5] for i in idx])
            check_col(ev, "Text", ["t%d" % recs[i][5] for i in idx])
        for c in ("Start (ns)", "End (ns)"):
            expect(c not in ev.columns, "%s is kept", c)
        pids = sorted({r[3] for r in recs})
        def numbering(vals, keys, what):
            m = {}
            for v, k in zip(vals, keys):
                expect(m.setdefault(k, v) == v, "%s %r has two numbers", what, k)
            expect(sorted(int(v) for v in m.values()) == list(range(len(m))), "%s numbers are %r", what, m)
        if len(pids) > 1:
            expect("Process" in ev.columns, "no Process column for %d processes", len(pids))
            numbering(list(ev["Process"]), [recs[i][3] for i in idx], "process")
        if any(r[3] != r[4] for r in recs):
            expect("Thread" in ev.columns, "no Thread column")
            for p in pids:
                sel = [j for j, i in enumerate(idx) if recs[i][3] == p]
                th = list(ev["Thread"])
                numbering([th[j] for j in sel], [recs[idx[j]][4] for j in sel], "thread")

# ----------------------------------------------------------------------------- C23
@register
class C23(Prop):
    id = "C23"
    def gen(self, rng):
        c = gen_trace(rng, nested=rng.random() < .5, metrics=rng.choice([0, 1]), attrs=rng.random() < .5)
        if c["rows"] and rng.random() < .5:
            off = rng.randint(0, 2000)
            for i, r in enumerate(c["rows"]): r[0] += off + i * rng.choice([0, 1]) * 0
        if rng.random() < .5:
            acc = 0
            for r in c["rows"]:
                acc += rng.choice([0, 1, 499, 500, 501, 999, 1000, 1001]); r[0] = acc
        c["pre"] = rng.choice([[], [], ["inc"], ["exc"]])
        c["file"] = rng.random() < .4
        return c
    def pre(self, case):
        return properly_nested(case["rows"], spec_match(case["rows"])) or not case["pre"]
    def check(self, case):
        rows = case["rows"]
        if not rows: return
        if case["pre"] and not properly_nested(rows, spec_match(rows)):
            return
        t = trace(case)
        if "inc" in case["pre"]: t.calc_inc_metrics()
        if "exc" in case["pre"]: t.calc_exc_metrics()
        before = snapshot(t.events)
        if case["file"]:
            with scratch() as d:
                f = os.path.join(d, "o.json")
                r = t.to_chrome(f)
                expect(r is None, "to_chrome(file) returns %r", r)
                expect(os.path.exists(f), "no file was written")
                text = open(f, encoding="utf-8").read()
        else:
            cwd = os.listdir(".")
            text = t.to_chrome()
            expect(isinstance(text, str), "to_chrome() returns %r", type(text))
            expect(os.listdir(".") == cwd, "to_chrome() created files")
        recs = json.loads(text)
        expect(len(recs) == len(rows), "%d records for %d events", len(recs), len(rows))
        for i, (r, g) in enumerate(zip(rows, recs)):
            w = {"name": r[2], "ph": {"Enter": "B", "Leave": "E", "Instant": "i"}[r[1]], "ts": int(r[0]) // 1000, "pid": r[3]}
            if case["threads"]: w["tid"] = r[4]
            if "attrs" in case: w["args"] = case["attrs"][i]
            expect(g == w, "record %d is %r, expected %r", i, g, w)
        expect(list(before.columns) == list(t.events.columns), "the export changed the columns")
        check_unchanged(before, t.events, "to_chrome")
