"""C23: Chrome export.  For an arbitrary trace (with or without threads and attributes): what is handed to DataFrame.to_json
has the trace's rows in the trace's order and exactly the specified columns and values; the target is the file named by the
caller; the text to_json returns is what to_chrome returns; the trace is unchanged."""
import z3
from contract import *
from tables import *
from tracebase import *


class ToChrome(Contract):
    name = "Trace.to_chrome"
    functions = ["pipit.trace.Trace.to_chrome", "pipit.writers.chrome_writer.ChromeWriter.__init__", "pipit.writers.chrome_writer.ChromeWriter.write"]
    trusted = PANDAS + ["DataFrame.to_json(path, orient='records') writes one JSON object per row, in row order, with one member per column; it returns the text if path is None (documented; checked on the real code by the bounded stand-in)"]

    def stubs(self):
        return {"pandas": pandas_mod(DataFrame=pd_DataFrame), "numpy": numpy_mod()}

    def run(self, c, load):
        m = TraceModel(c, load, threads="maybe")
        at = c.fresh_fn("attrs", I, I)
        m.f.cols["Attributes"] = Col(lambda r: SOpaque(at(r)))
        m.f.maybe["Attributes"] = m.present["Attributes"] = c.fresh("has_attributes", B)
        m.orig["Attributes"] = m.f.cols["Attributes"].fn
        calls = []

        def to_json(frame, *a, **kw):
            kw = dict(kw)
            for n, v in zip(["path_or_buf", "orient"], a):
                kw[n] = v
            calls.append((frame.vc_freeze(), kw, SOpaque(c.fresh("json", I))))
            return calls[-1][2] if kw.get("path_or_buf") is None else None
        SFrame.to_json = to_json
        fname = [None, SName(c.fresh("filename", I))][c.choose(2, "file name")]
        if fname is not None:
            c.assume(fname.e != code(""))
        r, _ = guarded(c, "to_chrome", (lambda: m.trace.to_chrome(fname)) if fname is not None or c.choose(2, "argument left out") else (lambda: m.trace.to_chrome()))
        c.prove("exactly one export is written", len(calls) == 1)
        g, kw, text = calls[0]
        c.prove("as one object per row", kw.get("orient") == "records")
        extra = {k: v for k, v in kw.items() if k not in ("path_or_buf", "orient")}
        if extra:
            raise Unsupported("to_json with %s" % ", ".join(extra))
        c.prove("to the file named by the caller", kw.get("path_or_buf") is None if fname is None else same(kw.get("path_or_buf"), fname) if isinstance(kw.get("path_or_buf"), (str, SName)) else False)
        c.prove("the text is returned if no file is named", r is text if fname is None else True)
        t = m.T
        c.prove("one record per event, in order", g.view is not None and g.view.equals(t.all))
        x = t.skolem("x")
        thr, att = m.present[TH], m.present["Attributes"]
        q = m.ts(x) / 1000
        trunc = z3.If(q >= 0, z3.ToInt(q), -z3.ToInt(-q))
        ph = z3.If(m.ty(x) == code("Enter"), z3.IntVal(code("B")), z3.If(m.ty(x) == code("Leave"), z3.IntVal(code("E")), z3.If(m.ty(x) == code("Instant"), z3.IntVal(code("i")), m.ty(x))))
        want = {"name": (True, SName(m.nm(x))), "ph": (True, SName(ph)), "ts": (True, SNum(trunc)), "pid": (True, SNum(m.pr(x))), "tid": (thr, SNum(m.th(x))), "args": (att, SOpaque(at(x)))}
        for n, (p, v) in want.items():
            p = z3.BoolVal(p) if isinstance(p, bool) else p
            h = g.has(n)
            c.prove("member %s: present exactly when the trace has it" % n, h == p)
            if n in g.cols:
                w = g.cols[n].fn(x)
                if isinstance(w, SMaybe) != isinstance(v, SMaybe) and kind_of(w) != kind_of(v) and not isinstance(w, SMaybe):
                    c.prove("member %s: value" % n, False)
                    continue
                c.prove("member %s: value" % n, z3.Implies(p, same(w, v)))
        other = [n for n in g.cols if n not in want]
        c.prove("no other member", z3.And(*[z3.Not(g.has(n)) for n in other]) if other and not g.writes else not other and not g.writes)
        m.frame_condition("to_chrome")
        for n in m.trace.events.cols:
            if n not in m.orig:
                c.prove("to_chrome: adds no column to the trace", z3.Not(m.trace.events.has(n)))


def contracts():
    return [ToChrome()]


ASSUMPTIONS = NUMERIC + ["event types are Enter, Leave or Instant (others are passed through)"]
