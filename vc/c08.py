"""C08: message histograms.  For an arbitrary trace: the values, weights, bins and range handed to np.histogram are exactly
the specified ones (so numpy's documented binning places every message in exactly one bin), every selected timestamp lies in
the range, and np.histogram's result is returned."""
import z3
from contract import *
from tables import *
from tracebase import *
from c07 import message_trace


def rows_and_values(x):
    """(view, row -> value, has an order that follows the rows) of something passed as an array"""
    if isinstance(x, SSeries):
        return x.view, x.fn
    if isinstance(x, SList) and x.meta.get("view") is not None:
        return x.meta["view"], x.meta["fn"]
    if isinstance(x, Seq) and x.meta.get("view") is not None and x.meta.get("fn"):
        return x.meta["view"], x.meta["fn"]
    raise Unsupported("array argument of type %s" % type(x).__name__)


class Hist(Contract):
    trusted = PANDAS + ["np.histogram(a, bins, range, weights): numpy's documentation (each value within the range is counted in exactly one of the equal bins, with its weight)"]

    def stubs(self):
        def histogram(*a, **kw):
            c = ctx()
            kw = dict(kw)
            for n, v in zip(["a", "bins", "range", "density", "weights"], a):
                kw[n] = v
            kw = {k: freeze(v) for k, v in kw.items()}
            r = (SOpaque(c.fresh("hist", I)), SOpaque(c.fresh("edges", I)))
            c.env["hist"].append((kw, r))
            return r
        return {"pandas": pandas_mod(DataFrame=pd_DataFrame), "numpy": numpy_mod(histogram=histogram)}

    def one(self, c, m, g, view, value, weight, bins, rng, extra):
        t = m.T
        calls = c.env["hist"]
        c.prove("np.histogram is called once", len(calls) == 1)
        kw, r = calls[0]
        c.prove("its result is returned", isinstance(g, tuple) and len(g) == 2 and g[0] is r[0] and g[1] is r[1])
        v, fn = rows_and_values(kw.get("a"))
        c.prove("the values binned are those of the selected events, each once", v.equals(view))
        x = t.skolem("x")
        c.prove("an event is binned by its value", z3.Implies(view.member(x), same(fn(x), value(x))))
        w = kw.get("weights")
        if weight is None:
            if w is not None:
                wv, wf = rows_and_values(w)
                c.prove("every event counts 1", z3.And(z3.BoolVal(wv.equals(view)), z3.Implies(view.member(x), real(wf(x)) == 1)))
        else:
            c.prove("events are weighted", w is not None)
            wv, wf = rows_and_values(w)
            c.prove("one weight per event, in the same order", wv.equals(view))
            c.prove("an event's weight is its size", z3.Implies(view.member(x), same(wf(x), weight(x))))
        b = kw.get("bins", 10)
        c.prove("the requested number of bins is used", same(b, bins) if isinstance(b, (int, SNum)) else False)
        c.prove("no density normalisation", not kw.get("density"))
        if rng is None:
            c.prove("the range is left to numpy or the caller", kw.get("range") is None)
        else:
            R_ = kw.get("range")
            c.prove("a range is given", R_ is not None)
            lo, hi = list(R_)
            c.prove("the range starts at the first event of the trace", real(lo) == rng[0])
            c.prove("the range ends at the last event of the trace", real(hi) == rng[1])
            c.prove("every selected event lies in the range", z3.Implies(view.member(x), z3.And(real(lo) <= real(fn(x)), real(fn(x)) <= real(hi))))
        known = {"a", "bins", "range", "density", "weights"}
        if set(kw) - known:
            raise Unsupported("np.histogram with %s" % ", ".join(sorted(set(kw) - known)))


class MessageHistogram(Hist):
    name = "Trace.message_histogram"
    functions = ["pipit.trace.Trace.message_histogram"]

    def run(self, c, load):
        m = message_trace(c, load)
        c.env["hist"] = []
        n = SNum(c.fresh("bins", I))
        d = c.choose(2, "bins")
        g, _ = guarded(c, "message_histogram", (lambda: m.trace.message_histogram(bins=n)) if d else (lambda: m.trace.message_histogram()))
        self.one(c, m, g, m.T.all.filter(m.sends), lambda x: m.attr("msg_length", x), None, n if d else 20, None, {})
        m.frame_condition("message_histogram")


class CommOverTime(Hist):
    name = "Trace.comm_over_time"
    functions = ["pipit.trace.Trace.comm_over_time"]

    def run(self, c, load):
        m = message_trace(c, load)
        c.env["hist"] = []
        n = SNum(c.fresh("bins", I))
        kw = {}
        out = [None, "size", "count"][c.choose(3, "output")]
        typ = [None, "send", "receive"][c.choose(3, "message type")]
        d = c.choose(2, "bins")
        if out:
            kw["output"] = out
        if typ:
            kw["message_type"] = typ
        if d:
            kw["bins"] = n
        g, _ = guarded(c, "comm_over_time", lambda: m.trace.comm_over_time(**kw))
        sel = m.recvs if typ == "receive" else m.sends
        rng = EXTREME("min", m.T.all, lambda r: SNum(m.ts(r))), EXTREME("max", m.T.all, lambda r: SNum(m.ts(r)))
        self.one(c, m, g, m.T.all.filter(sel), lambda x: SNum(m.ts(x)), None if out == "count" else (lambda x: m.attr("msg_length", x)), n if d else 50, rng, {})
        m.frame_condition("comm_over_time")


def contracts():
    return [MessageHistogram(), CommOverTime()]


ASSUMPTIONS = NUMERIC + ["message events carry the attribute msg_length (the precondition of the property)", "a trace without events: the range numpy would be given is its own matter"]
