"""Executable postconditions of C01-C14 (Trace, cct, graph)."""
import itertools, json
from core import *
import core

PROPS = {}
def register(cls):
    PROPS[cls.id] = cls
    return cls

class Prop:
    weight = 1.0
    def small(self):
        return iter(())
    def check(self, case):
        raise NotImplementedError

def loc_rows(kinds, maxlen):
    """all event sequences over the given (type, name, proc, thr) kinds up to a length, unit time steps"""
    for n in range(0, maxlen + 1):
        for seq in itertools.product(range(len(kinds)), repeat=n):
            yield [[i, *kinds[k]] for i, k in enumerate(seq)]

def mk(rows, threads=False, **kw):
    c = {"rows": rows, "threads": threads, "metrics": {}, "float_ts": False, "cat": True}
    c.update(kw)
    return c

@register
class C01(Prop):
    id = "C01"
    def gen(self, rng):
        return gen_trace(rng, nested=rng.random() < .4, orphans=.4,
                         other_types=rng.choice([("Instant",), ("Instant", "Loop Enter", "Loop Leave", "X")]))
    def small(self):
        k = [("Enter", "f", 0, None), ("Leave", "f", 0, None), ("Enter", "g", 0, None), ("Leave", "g", 0, None)]
        for r in loc_rows(k, 4):
            yield mk(r)
        k = [("Enter", "f", 0, 0), ("Leave", "f", 0, 0), ("Enter", "f", 1, 0), ("Leave", "f", 0, 1), ("Instant", "f", 0, 0)]
        for r in loc_rows(k, 3):
            yield mk(r, True)
    def check(self, case):
        t = trace(case)
        before = snapshot(t.events)
        t._match_events()
        m = spec_match(case["rows"])
        check_col(t.events, "_matching_event", m)
        check_col(t.events, "_matching_timestamp", [None if x is None else case["rows"][x][0] for x in m])
        check_unchanged(before, t.events, "matching")
        t._match_events()
        check_col(t.events, "_matching_event", m, "_matching_event (second call)")
        check_col(t.events, "_matching_timestamp", [None if x is None else case["rows"][x][0] for x in m], "_matching_timestamp (second call)")

class NestedProp(Prop):
    strict = False
    def pre(self, case):
        return properly_nested(case["rows"], spec_match(case["rows"]))
    def gen(self, rng):
        for _ in range(50):
            c = gen_trace(rng, nested=rng.random() < .85, orphans=.4, other_types=rng.choice([("Instant",), ("Instant", "Loop Enter", "Loop Leave")]))
            if properly_nested(c["rows"], spec_match(c["rows"])):
                return c
        return mk([])
    def small(self):
        k = [("Enter", "f", 0, None), ("Leave", "f", 0, None), ("Enter", "g", 0, None), ("Leave", "g", 0, None)]
        for r in loc_rows(k, 4):
            if properly_nested(r, spec_match(r)):
                yield mk(r)
        k = [("Enter", "f", 0, 0), ("Leave", "f", 0, 0), ("Enter", "f", 1, 0), ("Leave", "f", 1, 0), ("Enter", "f", 0, 1), ("Leave", "f", 0, 1)]
        for r in loc_rows(k, 3):
            yield mk(r, True)

def check_tree(t, case):
    m = spec_match(case["rows"])
    depth, parent, children = spec_tree(case["rows"], m)
    check_col(t.events, "_depth", depth)
    check_col(t.events, "_parent", parent)
    got = list(t.events["_children"])
    for i, (g, w) in enumerate(zip(got, children)):
        if w is None:
            expect(isnull(g), "_children of row %d is %r, expected none", i, g)
        else:
            expect(isinstance(g, (list, tuple)) and list(g) == w, "_children of row %d is %r, expected %r", i, g, w)

@register
class C02(NestedProp):
    id = "C02"
    def check(self, case):
        t = trace(case)
        if len(case["rows"]) % 3 == 1:
            t._match_events()
        before = snapshot(t.events)
        t._match_caller_callee()
        check_tree(t, case)
        check_unchanged(before, t.events, "caller/callee matching")
        t._match_caller_callee()
        check_tree(t, case)

def request(rng, case):
    cols = ["Timestamp (ns)"] + list(case["metrics"])
    r = rng.random()
    if r < .3:
        return None
    return rng.sample(cols, rng.randint(1, len(cols)))

class MetricProp(NestedProp):
    kind = "inc"
    def pre(self, case):
        return self.kind == "inc" or properly_nested(case["rows"], spec_match(case["rows"]))
    def gen(self, rng):
        if self.kind == "inc" and rng.random() < .4:
            c = gen_trace(rng, nested=False, metrics=rng.choice([0, 1, 2, 3]), other_types=("Instant", "X"))
        else:
            for _ in range(50):
                c = gen_trace(rng, nested=True, orphans=.4, metrics=rng.choice([0, 1, 2, 3]))
                if properly_nested(c["rows"], spec_match(c["rows"])):
                    break
        c["requests"] = [request(rng, c) for _ in range(rng.choice([1, 1, 2, 3]))]
        c["pre"] = rng.choice([[], [], ["match"], ["tree"], ["inc"]])
        return c
    def small(self):
        for c in NestedProp.small(self):
            c["metrics"] = {"bytes": [7 * i * i for i in range(len(c["rows"]))]}
            c["requests"] = [None]
            c["pre"] = []
            yield c

@register
class C03(MetricProp):
    id = "C03"
    def check(self, case):
        t = trace(case)
        m = spec_match(case["rows"])
        before = snapshot(t.events)
        numeric = ["Timestamp (ns)"] + list(case["metrics"])
        want = []
        for p in case["pre"]:
            if p == "match": t._match_events()
            if p == "tree" and properly_nested(case["rows"], m): t._match_caller_callee()
        for q in case["requests"]:
            t.calc_inc_metrics(None if q is None else list(q))
            for c in (numeric if q is None else q):
                if c not in want:
                    want.append(c)
            for c in want:
                check_col(t.events, mcol(c, "inc"), spec_inc(case, m, c), cmp=close)
            expect(sorted(t.inc_metrics) == sorted(mcol(c, "inc") for c in want), "inc_metrics is %r after requesting %r", t.inc_metrics, want)
            extra = [c for c in t.events.columns if str(c).endswith((".inc", ".exc")) and c not in [mcol(w, "inc") for w in want]]
            expect(not extra, "unrequested metric columns %r", extra)
        check_unchanged(before, t.events, "calc_inc_metrics")

@register
class C04(MetricProp):
    id = "C04"
    kind = "exc"
    def check(self, case):
        t = trace(case)
        rows = case["rows"]
        m = spec_match(rows)
        _, parent, children = spec_tree(rows, m)
        before = snapshot(t.events)
        numeric = ["Timestamp (ns)"] + list(case["metrics"])
        want, winc = [], []
        for p in case["pre"]:
            if p == "match": t._match_events()
            if p == "tree": t._match_caller_callee()
            if p == "inc": t.calc_inc_metrics(["Timestamp (ns)"])
        for q in case["requests"]:
            t.calc_exc_metrics(None if q is None else list(q))
            for c in (numeric if q is None else q):
                if c not in want:
                    want.append(c)
            for c in want:
                e = spec_exc(case, m, children, c)
                check_col(t.events, mcol(c, "exc"), e, cmp=close)
                check_col(t.events, mcol(c, "inc"), spec_inc(case, m, c), cmp=close)
            expect(sorted(t.exc_metrics) == sorted(mcol(c, "exc") for c in want), "exc_metrics is %r after requesting %r", t.exc_metrics, want)
        for c in want:
            inc, exc = spec_inc(case, m, c), list(t.events[mcol(c, "exc")])
            for l in set(map(loc, rows)):
                a = sum(exc[i] for i, r in enumerate(rows) if loc(r) == l and not isnull(exc[i]))
                b = sum(inc[i] for i, r in enumerate(rows) if loc(r) == l and r[1] == "Enter" and m[i] is not None and parent[i] is None)
                expect(close(a, b), "exclusive %s of location %r add up to %r, outermost calls to %r", c, l, a, b)
        check_unchanged(before, t.events, "calc_exc_metrics")

# ----------------------------------------------------------------------------- C05
def cct_nested(rows):
    """every Leave either has no open Enter of its name or closes the innermost open call"""
    st = {}
    for r in rows:
        s = st.setdefault(loc(r), [])
        if r[1] == "Enter":
            s.append(r[2])
        elif r[1] == "Leave" and r[2] in s:
            if s[-1] != r[2]:
                return False
            s.pop()
    return True

def spec_paths(rows):
    st, out = {}, []
    for r in rows:
        s = st.setdefault(loc(r), [])
        p = None
        if r[1] == "Enter":
            s.append(r[2]); p = tuple(s)
        elif r[1] == "Leave" and r[2] in s:
            s.pop()
        out.append(p)
    return out

def check_cct(t, case):
    want = spec_paths(case["rows"])
    nodes = list(t.events["Graph_Node"])
    expect(len(nodes) == len(want), "Graph_Node has %d rows", len(nodes))
    by_path = {}
    for i, (p, nd) in enumerate(zip(want, nodes)):
        if p is None:
            expect(isnull(nd), "row %d (%r) has a tree node", i, case["rows"][i])
        else:
            expect(not isnull(nd), "Enter row %d has no tree node", i)
            if p in by_path:
                expect(by_path[p] is nd, "row %d: call path %r has two nodes", i, p)
            by_path[p] = nd
    expect(len({id(x) for x in by_path.values()}) == len(by_path), "one node stands for two call paths among %r", list(by_path))
    expect(len({x._pipit_nid for x in by_path.values()}) == len(by_path), "node ids are not distinct")
    kids = {}
    for p, nd in by_path.items():
        expect(nd.get_level() == len(p) - 1, "node of %r has level %r", p, nd.get_level())
        if len(p) == 1:
            expect(nd.parent is None, "outermost node of %r has a parent", p)
        else:
            expect(p[:-1] in by_path, "no node for %r", p[:-1])
            expect(nd.parent is by_path[p[:-1]], "node of %r has the wrong parent", p)
        kids.setdefault(p[:-1], []).append(nd)
    def same_set(a, b, what):
        expect(len(a) == len(b) and {id(x) for x in a} == {id(x) for x in b}, "%s: %d nodes listed, %d expected", what, len(a), len(b))
    same_set(t.cct.roots, kids.get((), []), "roots of the tree")
    for p, nd in by_path.items():
        same_set(nd.children, kids.get(p, []), "children of %r" % (p,))

@register
class C05(Prop):
    id = "C05"
    def pre(self, case):
        return cct_nested(case["rows"])
    def gen(self, rng):
        for _ in range(50):
            c = gen_trace(rng, nested=True, orphans=.5, strict_nest=True, other_types=rng.choice([("Instant",), ("Instant", "Loop Enter", "Loop Leave")]))
            if cct_nested(c["rows"]):
                return c
        return mk([])
    def small(self):
        k = [("Enter", "f", 0, None), ("Leave", "f", 0, None), ("Enter", "g", 0, None), ("Leave", "g", 0, None)]
        for r in loc_rows(k, 4):
            if cct_nested(r):
                yield mk(r)
        k = [("Enter", "f", 0, 0), ("Leave", "f", 0, 0), ("Enter", "f", 1, 0), ("Enter", "g", 1, 0), ("Enter", "f", 0, 1)]
        for r in loc_rows(k, 3):
            yield mk(r, True)
        k = [("Enter", x, 0, None) for x in ("a", "b", "a->b", "->", "")]
        for r in loc_rows(k, 3):
            yield mk(r)
    def check(self, case):
        t = trace(case)
        before = snapshot(t.events)
        t.create_cct()
        check_cct(t, case)
        check_unchanged(before, t.events, "create_cct")

# ----------------------------------------------------------------------------- C06
@register
class C06(Prop):
    id = "C06"
    def gen(self, rng):
        n = rng.choice([1, 2, 3, 5, 8, 15, 40])
        deep = rng.random() < .3
        par = []
        for i in range(n):
            if i == 0 or rng.random() < (.1 if deep else .25):
                par.append(None)
            else:
                par.append(i - 1 if deep and rng.random() < .9 else rng.randrange(i))
        if rng.random() < .05:
            h = core.hints().an_int(rng, 1, 300) or 150
            par = [None] + list(range(min(h, 300)))
        n = len(par)
        return {"parents": par, "ids": rng.sample(range(3 * n), n), "explicit": rng.random() < .5,
                "pairs": [[rng.randrange(n), rng.randrange(n)] for _ in range(min(40, n * n))],
                "min_levels": [-1, 0, 1, rng.randint(-2, n)]}
    def small(self):
        for n in range(1, 6):
            for par in itertools.product(*[[None] + list(range(i)) for i in range(n)]):
                yield {"parents": list(par), "ids": list(range(n)), "explicit": n % 2 == 0,
                       "pairs": [[a, b] for a in range(n) for b in range(n)], "min_levels": [-1, 0, 1, 2]}
    def check(self, case):
        from pipit.graph import Node, Graph
        par, ns, lv = case["parents"], [], []
        g = Graph()
        for i, p in enumerate(par):
            lv.append(0 if p is None else lv[p] + 1)
            pn = None if p is None else ns[p]
            nd = Node(case["ids"][i], pn, lv[i]) if case["explicit"] else Node(case["ids"][i], pn)
            ns.append(nd)
            (g.add_root(nd) if pn is None else pn.add_child(nd))
        def anc(i):
            out = []
            while i is not None:
                out.append(i); i = par[i]
            return out
        for i, nd in enumerate(ns):
            expect(nd.get_level() == lv[i], "level of node %d is %r, expected %d", i, nd.get_level(), lv[i])
            expect(nd.get_intersection(None) is None, "intersection with none is not none")
            kids = [j for j, p in enumerate(par) if p == i]
            expect([id(x) for x in nd.children] == [id(ns[j]) for j in kids], "children of node %d", i)
        expect([id(x) for x in g.roots] == [id(ns[j]) for j, p in enumerate(par) if p is None], "roots")
        for a, b in case["pairs"]:
            common = [x for x in anc(a) if x in set(anc(b))]
            want = ns[common[0]] if common else None
            got = ns[a].get_intersection(ns[b])
            expect(got is want, "intersection of nodes %d and %d is %s, expected %s", a, b, got, want)
            expect((ns[a] == ns[b]) == (a == b), "equality of nodes %d and %d", a, b)
        for a in {p[0] for p in case["pairs"]}:
            for ml in case["min_levels"]:
                want = [id(ns[x]) for x in anc(a) if lv[x] > ml]
                expect([id(x) for x in ns[a].get_node_list(ml)] == want, "node list of %d above level %d", a, ml)
        for i, nd in enumerate(ns):
            expect(nd.parent is (None if par[i] is None else ns[par[i]]) and nd.get_level() == lv[i] and nd._pipit_nid == case["ids"][i], "a query changed node %d", i)

# ----------------------------------------------------------------------------- messages
SENDS, RECVS = ("MpiSend", "MpiIsend"), ("MpiRecv", "MpiIrecv")
OTHERMSG = ("MpiSendComplete", "MpiIsendComplete", "MpiIrecvRequest", "MpiCollectiveBegin", "MPI_Send", "MPI_Isend", "MPI_Recv", "mark")

def gen_msgs(rng, min_events=0):
    P = rng.choice([1, 2, 2, 3, 4, 5, 8])
    n = max(min_events, size(rng, 200))
    rows, attrs, t = [], [], rng.choice([0, 0, 3, 1000])
    sc = rng.choice([1, 1, 10, 10**6])
    big = rng.random() < .2
    for i in range(n):
        t += rng.choice([0, 1, 1, 2, 9])
        p = rng.randrange(P) if i >= P else i % P
        kind = rng.choice(["send", "send", "isend", "recv", "irecv", "other", "call"])
        ln = rng.choice([0, 1, 8, 64, 100, 4096, rng.randint(0, 10**9 if big else 2000), core.hints().an_int(rng, 0, 10**9) or 5])
        peer = rng.randrange(P)
        if kind in ("send", "isend"):
            rows.append([t * sc, "Instant", SENDS[kind == "isend"], p, None]); attrs.append({"receiver": peer, "msg_length": ln, "communicator": "Comm 0"})
        elif kind in ("recv", "irecv"):
            rows.append([t * sc, "Instant", RECVS[kind == "irecv"], p, None]); attrs.append({"sender": peer, "msg_length": ln, "communicator": "Comm 0"})
        elif kind == "other":
            rows.append([t * sc, "Instant", rng.choice(OTHERMSG), p, None]); attrs.append({"receiver": peer, "sender": peer, "msg_length": ln + 1})
        else:
            e = rng.choice(["Enter", "Leave"])
            rows.append([t * sc, e, "MPI_Send", p, None]); attrs.append({"region": "Region 1"} if e == "Enter" else None)
    if rng.random() < .3 and rows:
        rows.append([rows[-1][0] + sc * rng.randint(0, 50), "Leave", "main", 0, None]); attrs.append(None)
    have = {r[3] for r in rows}
    if rows and have != set(range(max(have) + 1)):
        relab = {p: i for i, p in enumerate(sorted(have))}
        for r in rows: r[3] = relab[r[3]]
    np_ = len({r[3] for r in rows}) or 1
    for a in attrs:
        if a and "receiver" in a: a["receiver"] %= np_
        if a and "sender" in a: a["sender"] %= np_
    if rows and not any(r[2] in SENDS for r in rows) and rng.random() < .8:
        rows[0][1], rows[0][2], attrs[0] = "Instant", "MpiSend", {"receiver": 0, "msg_length": 7}
    return {"rows": rows, "threads": False, "metrics": {}, "attrs": attrs, "float_ts": rng.random() < .2, "cat": True}

def dense(case):
    rows = case["rows"]
    P = {r[3] for r in rows}
    return bool(rows) and P == set(range(len(P))) and all((a or {}).get(k, 0) < len(P) for a in case["attrs"] for k in ("receiver", "sender"))

@register
class C07(Prop):
    id = "C07"
    def pre(self, case):
        return dense(case)
    def gen(self, rng):
        return gen_msgs(rng, 1)
    def check(self, case):
        rows, P = case["rows"], len({r[3] for r in case["rows"]})
        for out in ("size", "count"):
            want = [[0] * P for _ in range(P)]
            for r, a in zip(rows, case["attrs"]):
                if r[2] in SENDS:
                    want[r[3]][a["receiver"]] += a["msg_length"] if out == "size" else 1
            t = trace(case)
            before = snapshot(t.events)
            m = t.comm_matrix(output=out) if out == "count" or len(rows) % 2 else t.comm_matrix()
            expect(tuple(m.shape) == (P, P), "comm_matrix(%r) has shape %r for %d processes", out, m.shape, P)
            for s in range(P):
                for r in range(P):
                    expect(close(m[s][r], want[s][r]), "comm_matrix(%r)[%d][%d] is %r, expected %r", out, s, r, m[s][r], want[s][r])
            b = t.comm_by_process(output=out)
            expect(sorted(b.index) == list(range(P)), "comm_by_process lists processes %r", list(b.index))
            for p in range(P):
                expect(close(b.loc[p]["Sent"], sum(want[p])), "comm_by_process(%r): process %d Sent %r, expected %r", out, p, b.loc[p]["Sent"], sum(want[p]))
                w = sum(want[s][p] for s in range(P))
                expect(close(b.loc[p]["Received"], w), "comm_by_process(%r): process %d Received %r, expected %r", out, p, b.loc[p]["Received"], w)
            check_unchanged(before, t.events, "comm_matrix")

@register
class C08(Prop):
    id = "C08"
    def pre(self, case):
        return dense(case) and case["rows"][0][0] < case["rows"][-1][0]
    def gen(self, rng):
        c = gen_msgs(rng, 1)
        if c["rows"][0][0] == c["rows"][-1][0]:
            c["rows"].append([c["rows"][-1][0] + 10, "Leave", "main", 0, None]); c["attrs"].append(None)
        c["bins"] = rng.choice([None, 1, 2, 3, 5, 7, 10, 50, core.hints().an_int(rng, 1, 200) or 4])
        c["density"] = rng.random() < .1
        return c
    def check(self, case):
        rows = case["rows"]
        lo, hi = rows[0][0], rows[-1][0]
        for out in ("size", "count"):
            for mt, names in (("send", SENDS), ("receive", RECVS)):
                ev = [(r[0], a["msg_length"] if out == "size" else 1) for r, a in zip(rows, case["attrs"]) if r[2] in names]
                t = trace(case)
                before = snapshot(t.events)
                kw = {} if case["bins"] is None else {"bins": case["bins"]}
                hist, edges = t.comm_over_time(output=out, message_type=mt, **kw)
                nb = case["bins"] or 50
                expect(len(hist) == nb and len(edges) == nb + 1, "comm_over_time returned %d bins for %d", len(hist), nb)
                for i in range(nb + 1):
                    w = lo + (hi - lo) * i / nb
                    expect(abs(edges[i] - w) <= 1e-9 * max(1, abs(hi)) , "edge %d is %r, expected %r", i, edges[i], w)
                want = [0.0] * nb
                for ts, v in ev:
                    k = None
                    for i in range(nb):
                        if edges[i] <= ts < edges[i + 1] or (i == nb - 1 and ts >= edges[i]):
                            k = i; break
                    expect(k is not None, "timestamp %r outside every bin", ts)
                    want[k] += v
                for i in range(nb):
                    expect(close(hist[i], want[i]), "comm_over_time(%r, %r) bin %d is %r, expected %r", out, mt, i, hist[i], want[i])
                expect(close(sum(hist), sum(v for _, v in ev)), "bins add up to %r", sum(hist))
                if case["density"] and sum(v for _, v in ev) > 0:
                    hd, _ = trace(case).comm_over_time(output=out, message_type=mt, bins=nb, density=True)
                    expect(close(float((hd * np.diff(edges)).sum()), 1.0), "density=True is not passed on")
                check_unchanged(before, t.events, "comm_over_time")
        sizes = [a["msg_length"] for r, a in zip(rows, case["attrs"]) if r[2] in SENDS]
        t = trace(case)
        kw = {} if case["bins"] is None else {"bins": case["bins"]}
        hist, edges = t.message_histogram(**kw)
        we = np.histogram(sizes, bins=case["bins"] or 20)
        expect(len(hist) == len(we[0]) and all(close(a, b) for a, b in zip(hist, we[0])), "message_histogram %r, expected %r", list(hist), list(we[0]))
        expect(all(close(a, b) for a, b in zip(edges, we[1])), "message_histogram edges")
        expect(sum(hist) == len(sizes), "message_histogram counts %r of %d sends", sum(hist), len(sizes))

# ----------------------------------------------------------------------------- profiles
def metric_of(case, m, children, name):
    base, kind = name.rsplit(".", 1)
    col = "Timestamp (ns)" if base == "time" else base
    return spec_inc(case, m, col) if kind == "inc" else spec_exc(case, m, children, col)

def spec_flat(case, metric, groups):
    rows = case["rows"]
    m = spec_match(rows)
    _, _, ch = spec_tree(rows, m)
    v = metric_of(case, m, ch, metric)
    out = {}
    for i, r in enumerate(rows):
        if r[1] == "Enter":
            g = tuple({"Name": r[2], "Thread": r[4], "Event Type": r[1], "Process": r[3]}[c] for c in groups)
            d = out.setdefault(g, {})
            d[r[3]] = d.get(r[3], 0.0) + (0.0 if v[i] is None else v[i])
    return out

def nested_case(rng, **kw):
    for _ in range(50):
        c = gen_trace(rng, nested=True, orphans=.4, **kw)
        if properly_nested(c["rows"], spec_match(c["rows"])):
            return c
    return mk([])

@register
class C09(Prop):
    id = "C09"
    def pre(self, case):
        return properly_nested(case["rows"], spec_match(case["rows"]))
    def gen(self, rng):
        c = nested_case(rng, metrics=rng.choice([0, 0, 1, 2]))
        ms = ["time.inc", "time.exc"] + [k + ".inc" for k in c["metrics"]] + [k + ".exc" for k in c["metrics"]]
        r = rng.random()
        c["req"] = None if r < .25 else rng.choice(ms) if r < .6 else rng.sample(ms, rng.randint(1, len(ms)))
        g = ["Name", ["Name"]] + ([["Name", "Thread"], "Thread", ["Thread"]] if c["threads"] else [["Name", "Event Type"]])
        c["group"] = rng.choice([None, "Name", "Name"] + g)
        c["pre"] = rng.choice([[], [], ["inc"], ["exc"]])
        return c
    def check(self, case):
        if not case["rows"] or not any(r[1] == "Enter" for r in case["rows"]):
            return
        req = case["req"]
        ms = ["time.exc"] if req is None else [req] if isinstance(req, str) else list(req)
        groups = [case["group"] or "Name"] if not isinstance(case["group"], list) else case["group"]
        for pp in (False, True):
            t = trace(case)
            for k in case["metrics"]:
                if k + ".inc" in ms: t.calc_inc_metrics([k])
                if k + ".exc" in ms: t.calc_exc_metrics([k])
            if "inc" in case["pre"]: t.calc_inc_metrics()
            if "exc" in case["pre"]: t.calc_exc_metrics()
            before = snapshot(t.events)
            kw = {}
            if req is not None: kw["metrics"] = req
            if case["group"] is not None: kw["groupby_column"] = case["group"]
            if pp: kw["per_process"] = True
            fp = t.flat_profile(**kw)
            expect(sorted(map(str, fp.columns)) == sorted(ms), "flat_profile columns %r for metrics %r", list(fp.columns), ms)
            for mname in ms:
                want = spec_flat(case, mname, groups)
                if pp:
                    want = {g + (p,): v for g, d in want.items() for p, v in d.items()}
                else:
                    want = {g: sum(d.values()) / len(d) for g, d in want.items()}
                got = {}
                for ix, v in zip(fp.index, fp[mname]):
                    ix = ix if isinstance(ix, tuple) else (ix,)
                    expect(ix not in got, "flat_profile lists %r twice", ix)
                    got[ix] = v
                for k, v in want.items():
                    expect(k in got, "flat_profile has no row for %r (metrics %r, groups %r, per_process %r)", k, ms, groups, pp)
                    expect(close(got[k], v), "flat_profile %s of %r is %r, expected %r (per_process %r)", mname, k, got[k], v, pp)
                for k, v in got.items():
                    expect(k in want or isnull(v), "flat_profile reports %r for %r, which has no calls", v, k)
            check_unchanged(before, t.events, "flat_profile")

@register
class C10(Prop):
    id = "C10"
    def pre(self, case):
        return properly_nested(case["rows"], spec_match(case["rows"]))
    def gen(self, rng):
        c = nested_case(rng, zero=False, procs=rng.choice([1, 2, 2, 3, 4, 6]), metrics=0)
        c["metric"] = rng.choice([None, "time.inc", "time.exc"])
        c["n"] = rng.choice([None, 1, 2, 3, 5, 100])
        return c
    def check(self, case):
        rows = case["rows"]
        if not any(r[1] == "Enter" for r in rows):
            return
        metric = case["metric"] or "time.exc"
        want = {k[0]: v for k, v in spec_flat(case, metric, ["Name"]).items()}
        n = case["n"] or 1
        t = trace(case)
        before = snapshot(t.events)
        kw = {}
        if case["metric"]: kw["metric"] = case["metric"]
        if case["n"]: kw["num_processes"] = case["n"]
        li = t.load_imbalance(**kw)
        expect(sorted(li.index) == sorted(want), "load_imbalance lists functions %r, expected %r", sorted(li.index), sorted(want))
        means = list(li[metric + ".mean"])
        expect(all(a >= b or close(a, b) for a, b in zip(means, means[1:])), "functions are not in descending order of mean: %r", means)
        for f, d in want.items():
            row = li.loc[f]
            mean = sum(d.values()) / len(d)
            expect(close(row[metric + ".mean"], mean), "mean of %r is %r, expected %r", f, row[metric + ".mean"], mean)
            if mean > 0:
                expect(close(row[metric + ".imbalance"], max(d.values()) / mean), "imbalance of %r is %r, expected %r", f, row[metric + ".imbalance"], max(d.values()) / mean)
            top = list(row["Top processes"])
            k = min(n, len(d))
            expect(len(top) == k and len(set(top)) == k and set(top) <= set(d), "top processes of %r are %r, expected %d of %r", f, top, k, d)
            vals = [d[p] for p in top]
            expect(all(a >= b or close(a, b) for a, b in zip(vals, vals[1:])), "top processes of %r are not in descending order: %r", f, top)
            rest = [v for p, v in d.items() if p not in top]
            expect(not rest or min(vals) >= max(rest) or close(min(vals), max(rest)), "top processes of %r are %r of totals %r", f, top, d)
        check_unchanged(before, t.events, "load_imbalance")

MPI3 = ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
@register
class C11(Prop):
    id = "C11"
    def gen(self, rng):
        c = gen_trace(rng, nested=rng.random() < .6, metrics=rng.choice([0, 0, 1]))
        pool = ["Idle", "MPI_Wait", "MPI_Waitall", "MPI_Recv", "MPI_Send", "foo", "Id", "idle"]
        names = sorted({r[2] for r in c["rows"]})
        sub = {n: rng.choice(pool) for n in names if rng.random() < .7}
        sub = sub if len(set(sub.values())) == len(sub) and not (set(sub.values()) & (set(names) - set(sub))) else {}
        for r in c["rows"]:
            r[2] = sub.get(r[2], r[2])
        names = sorted({r[2] for r in c["rows"]}) + pool
        c["calls"] = [[rng.choice([None, None, [], [rng.choice(names)], rng.sample(names, 2), "tuple"]), rng.random() < .4] for _ in range(rng.choice([1, 2, 3]))]
        c["share"] = rng.random() < .5
        return c
    def small(self):
        rows = [[0, "Enter", "main", 0, None], [1, "Enter", "Idle", 0, None], [3, "Leave", "Idle", 0, None], [3, "Enter", "MPI_Recv", 0, None],
                [7, "Leave", "MPI_Recv", 0, None], [8, "Enter", "MPI_Wait", 1, None], [9, "Leave", "MPI_Wait", 1, None], [20, "Leave", "main", 0, None]]
        opts = [None, [], ["Idle"], ["main"], ["MPI_Wait"]]
        for a in opts:
            for b in (False, True):
                for c in opts:
                    for d in (False, True):
                        yield mk(rows, calls=[[a, b], [c, d], [None, False]], share=False)
    def check(self, case):
        rows = case["rows"]
        m = spec_match(rows)
        inc = spec_inc(case, m, "Timestamp (ns)")
        t = trace(case)
        before = snapshot(t.events)
        shared = {}
        for fns, mpi in case["calls"]:
            if fns == "tuple":
                fns = ["Idle", "foo"]
            idle = set(["Idle"] if fns is None else fns) | (set(MPI3) if mpi else set())
            arg = None if fns is None else list(fns)
            if arg is not None and case["share"]:
                arg = shared.setdefault(tuple(fns), arg)
            kw = {}
            if arg is not None: kw["idle_functions"] = arg
            if mpi: kw["mpi_events"] = True
            res = t.idle_time(**kw)
            expect(arg is None or arg == list(fns), "idle_time changed the caller's list to %r", arg)
            got = {}
            for p, v in zip(res["Process"], res["Idle Time"]):
                expect(p not in got, "idle_time lists process %r twice", p)
                got[p] = v
            expect(set(got) == {r[3] for r in rows}, "idle_time lists processes %r", sorted(got))
            for p in got:
                w = sum(inc[i] for i, r in enumerate(rows) if r[3] == p and r[1] == "Enter" and r[2] in idle and inc[i] is not None)
                expect(close(got[p], w), "idle time of process %r for %r, mpi_events=%r (earlier calls: %r) is %r, expected %r", p, fns, mpi, case["calls"], got[p], w)
        check_unchanged(before, t.events, "idle_time")

# ----------------------------------------------------------------------------- C12
@register
class C12(Prop):
    id = "C12"
    def pre(self, c):
        rows = c["rows"]
        return bool(rows) and properly_nested(rows, spec_match(rows)) and rows[0][0] < rows[-1][0] and any(r[1] == "Enter" for r in rows) \
            and not {r[2] for r in rows} & {"idle_time", "bin_start", "bin_end"}
    def gen(self, rng):
        for _ in range(50):
            c = gen_trace(rng, nested=True, orphans=.3, metrics=0, positive=True, cap=150)
            if self.pre(c):
                break
        else:
            c = mk([[0, "Enter", "f", 0, None], [9, "Leave", "f", 0, None]])
        c["bins"] = rng.choice([1, 2, 3, 4, 5, 7, 10, 16, 33, core.hints().an_int(rng, 1, 60) or 6])
        if rng.random() < .2:
            span = c["rows"][-1][0] - c["rows"][0][0]
            c["bins"] = max(1, min(40, int(span) if span < 40 else 8))
        c["norm"] = rng.random() < .3
        c["pre"] = rng.random() < .3
        return c
    def small(self):
        k = [("Enter", "f", 0, None), ("Leave", "f", 0, None), ("Enter", "g", 0, None), ("Leave", "g", 0, None), ("Enter", "f", 1, None), ("Leave", "f", 1, None)]
        for r in loc_rows(k[:4], 4):
            if len(r) > 1 and properly_nested(r, spec_match(r)) and any(x[1] == "Enter" for x in r):
                yield mk([[x[0] * 6] + x[1:] for x in r], bins=1 + (len(r) + sum(x[1] == "Enter" for x in r)) % 5, norm=False, pre=False)
    def check(self, case):
        rows, nb = case["rows"], case["bins"]
        m = spec_match(rows)
        _, _, ch = spec_tree(rows, m)
        lo, hi = rows[0][0], rows[-1][0]
        width = (hi - lo) / nb
        P = len({r[3] for r in rows if r[1] == "Enter"})
        t = trace(case)
        before = snapshot(t.events)
        if case["pre"]:
            t.calc_exc_metrics()
        tp = t.time_profile(num_bins=nb, normalized=case["norm"]) if case["norm"] else t.time_profile(num_bins=nb)
        expect(len(tp) == nb, "time_profile has %d rows for %d bins", len(tp), nb)
        scale = width * P if case["norm"] else 1.0
        tol = 1e-9 * max(1.0, abs(hi))
        names = sorted({r[2] for r in rows if r[1] == "Enter"})
        extra = set(tp.columns) - set(names) - {"bin_start", "bin_end", "idle_time"}
        expect(not extra, "unexpected columns %r", extra)
        tot = {f: 0.0 for f in names}
        starts, ends = list(tp["bin_start"]), list(tp["bin_end"])
        for i in range(nb):
            s, e = lo + (hi - lo) * i / nb, lo + (hi - lo) * (i + 1) / nb
            expect(abs(starts[i] - s) <= tol and abs(ends[i] - e) <= tol, "interval %d is [%r, %r], expected [%r, %r]", i, starts[i], ends[i], s, e)
            def ov(x):
                return max(0.0, min(rows[m[x]][0], e) - max(rows[x][0], s))
            val = {f: 0.0 for f in names}
            for x, r in enumerate(rows):
                if r[1] == "Enter" and m[x] is not None:
                    val[r[2]] += ov(x) - sum(ov(c) for c in (ch[x] or []))
            idle = width * P - sum(val.values())
            val["idle_time"] = idle
            for f, w in val.items():
                got = tp[f].iloc[i]
                expect(not isnull(got), "%s in interval %d has no value, expected %r", f, i, w / scale)
                g = float(got) * scale
                if w < 0.01 - tol:
                    expect(abs(g) <= tol, "%s in interval %d is %r, expected 0 (below 0.01)", f, i, got)
                elif w > 0.01 + tol:
                    expect(abs(g - w) <= tol, "%s in interval %d is %r, expected %r", f, i, got, w / scale)
                if f in tot:
                    tot[f] += g
        exc = spec_exc(case, m, ch, "Timestamp (ns)")
        for f in names:
            w = sum(exc[x] for x, r in enumerate(rows) if r[1] == "Enter" and r[2] == f and exc[x] is not None)
            expect(abs(tot[f] - w) <= nb * (tol + .01), "%s adds up to %r over all intervals, exclusive time is %r", f, tot[f], w)
        check_unchanged(before, t.events, "time_profile")

@register
class C13(Prop):
    id = "C13"
    def gen(self, rng):
        k = rng.choice([1, 2, 2, 3, 4])
        metrics = rng.choice([0, 0, 1])
        ts = [nested_case(rng, metrics=metrics, cap=60) for _ in range(k)]
        if metrics:
            for t in ts:
                t["metrics"] = {"bytes": [rng.randint(0, 99) for _ in t["rows"]]}
        return {"traces": ts, "metric": rng.choice([None, "Timestamp (ns)"] + (["bytes"] if metrics else [])), "group": rng.choice([None, None, "Name"] + (["Event Type"]))}
    def check(self, case):
        import pipit.trace
        cs = [c for c in case["traces"] if any(r[1] == "Enter" for r in c["rows"])]
        if not cs:
            return
        group = case["group"] or "Name"
        metric = mcol(case["metric"] or "Timestamp (ns)", "exc")
        want = []
        for c in cs:
            want.append({g[0]: sum(d.values()) / len(d) for g, d in spec_flat(c, metric, [group]).items()})
        traces = [trace(c) for c in cs]
        befores = [snapshot(t.events) for t in traces]
        kw = {}
        if case["metric"]: kw["metric_column"] = case["metric"]
        if case["group"]: kw["groupby_column"] = case["group"]
        res = pipit.trace.Trace.multirun_analysis(traces, **kw)
        expect(list(res.index) == [len({r[3] for r in c["rows"]}) for c in cs], "rows are labelled %r", list(res.index))
        cols = list(res.columns)
        expect(len(set(cols)) == len(cols), "columns %r", cols)
        for g in {g for w in want for g in w}:
            expect(g in cols, "no column for %r", g)
        for j, c in enumerate(cols):
            for i, w in enumerate(want):
                got = res.iloc[i, j]
                if c in w:
                    expect(close(got, w[c]), "run %d, %r is %r, expected %r", i, c, got, w[c])
                else:
                    expect(isnull(got), "run %d has no %r but reports %r", i, c, got)
        tot = [sum(w.get(c, 0.0) for w in want) for c in cols if any(c in w for w in want)]
        expect(all(a >= b or close(a, b) for a, b in zip(tot, tot[1:])), "columns are not by descending total: %r", list(zip(cols, tot)))
        for b, t in zip(befores, traces):
            check_unchanged(b, t.events, "multirun_analysis")

# ----------------------------------------------------------------------------- C14
def canon(x):
    if isinstance(x, pd.DataFrame):
        y = x.copy()
        return {"cols": [str(c) for c in y.columns], "index": [canon(i) for i in y.index], "vals": [[canon(v) for v in y.iloc[:, j]] for j in range(y.shape[1])]}
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if x.__class__.__name__ == "Graph":
        def node(n): return [n._pipit_nid, n.get_level(), [node(c) for c in n.children]]
        return [node(r) for r in x.roots]
    if isnull(x):
        return None
    if isinstance(x, (np.generic,)):
        return canon(x.item())
    if isinstance(x, (int, float, str, bool)):
        return x
    return str(x)

def eqv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and close(a, b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eqv(a[k], b[k]) for k in a)
    return a == b

def order_free(name, r):
    """results whose row order among ties is unspecified are compared as sets of rows"""
    c = canon(r)
    if name.startswith("load_imbalance"):
        rows = sorted(zip(c["index"], *[v for k, v in zip(c["cols"], c["vals"]) if k != "Top processes"]))
        return [list(x) for x in rows]
    if name.startswith("idle"):
        return [list(x) for x in sorted(zip(*c["vals"]))]
    if name.startswith("multirun"):
        return [c["index"], [list(x) for x in sorted(zip(c["cols"], c["vals"]), key=lambda p: p[0])]]
    return c

def run_op(t, op):
    import pipit.trace
    k, a = op[0], op[1:]
    if k == "match": t._match_events(); return t.events[["_matching_event", "_matching_timestamp"]]
    if k == "tree": t._match_caller_callee(); return t.events[["_depth", "_parent", "_children"]]
    if k == "inc": t.calc_inc_metrics(*a); return t.events[[mcol(c, "inc") for c in (a[0] if a and a[0] is not None else t.numeric_cols)]]
    if k == "exc": t.calc_exc_metrics(*a); return t.events[[mcol(c, "exc") for c in (a[0] if a and a[0] is not None else t.numeric_cols)]]
    if k == "cct": t.create_cct(); return t.cct
    if k == "comm_matrix": return t.comm_matrix(*a)
    if k == "comm_by_process": return t.comm_by_process(*a)
    if k == "comm_over_time": return t.comm_over_time(*a, bins=5)
    if k == "message_histogram": return t.message_histogram()
    if k == "flat": return t.flat_profile(metrics=a[0], per_process=a[1])
    if k == "load_imbalance": return t.load_imbalance(metric=a[0], num_processes=2)
    if k == "idle": return t.idle_time(mpi_events=True) if a[0] else t.idle_time()
    if k == "time_profile": return t.time_profile(num_bins=a[0], normalized=a[1])
    if k == "multirun": return pipit.trace.Trace.multirun_analysis([t])
    if k == "chrome": return t.to_chrome()
    raise KeyError(k)

@register
class C14(Prop):
    id = "C14"
    def pre(self, c):
        rows = c["rows"]
        return bool(rows) and cct_nested(rows) and properly_nested(rows, spec_match(rows)) and rows[0][0] < rows[-1][0] and any(r[1] == "Enter" for r in rows) \
            and not {r[2] for r in rows} & {"idle_time", "bin_start", "bin_end"} and any(r[2] in SENDS for r in rows) and dense(c)
    def gen(self, rng):
        for _ in range(50):
            c = gen_trace(rng, nested=True, strict_nest=True, orphans=.2, threads=False if rng.random() < .7 else None, metrics=rng.choice([0, 1]), dense=True, cap=40, nmax=40, positive=True)
            rows = c["rows"]
            if rows and cct_nested(rows) and properly_nested(rows, spec_match(rows)) and rows[0][0] < rows[-1][0] and any(r[1] == "Enter" for r in rows) \
                    and not {r[2] for r in rows} & {"idle_time", "bin_start", "bin_end"}:
                break
        else:
            c = mk([[0, "Enter", "f", 0, None], [9, "Leave", "f", 0, None]])
        rows = c["rows"]
        P = len({r[3] for r in rows})
        relab = {p: i for i, p in enumerate(sorted({r[3] for r in rows}))}
        for r in rows: r[3] = relab[r[3]]
        c["attrs"] = []
        for r in rows:
            if r[1] == "Instant" and rng.random() < .5:
                r[2] = rng.choice(SENDS + RECVS)
                c["attrs"].append({"receiver": rng.randrange(P), "sender": rng.randrange(P), "msg_length": rng.randint(0, 99)})
            elif r[2] in SENDS + RECVS:
                r[2] = "fn"
                c["attrs"].append({})
            else:
                c["attrs"].append(None if r[1] == "Leave" else {})
        if not any(r[2] in SENDS for r in rows):
            rows.append([rows[-1][0] + 1, "Instant", "MpiSend", 0, rows[0][4]]); c["attrs"].append({"receiver": 0, "sender": 0, "msg_length": 3})
            for v in c["metrics"].values(): v.append(v[-1])
        cols = ["Timestamp (ns)"] + list(c["metrics"])
        ops = [["match"], ["tree"], ["inc"], ["inc", ["Timestamp (ns)"]], ["exc"], ["exc", ["Timestamp (ns)"]], ["cct"], ["comm_matrix", "size"], ["comm_matrix", "count"],
               ["comm_by_process"], ["comm_over_time", "size", "send"], ["comm_over_time", "count", "receive"], ["message_histogram"], ["flat", "time.exc", False], ["flat", ["time.inc"], True], ["flat", ["time.inc", "time.exc"], False],
               ["load_imbalance", "time.exc"], ["load_imbalance", "time.inc"], ["idle", False], ["idle", True], ["time_profile", 3, False], ["time_profile", 4, True], ["multirun"], ["chrome"]] \
              + [["inc", [k]] for k in c["metrics"]] + [["exc", [k]] for k in c["metrics"]]
        if c["threads"]:
            ops = [o for o in ops if o[0] != "time_profile"]
        c["ops"] = [rng.choice(ops) for _ in range(rng.randint(2, 7))]
        if rng.random() < .5:
            c["ops"].append(rng.choice(c["ops"]))
        return c
    def check(self, case):
        t = trace(case)
        before = snapshot(t.events)
        done = []
        for op in case["ops"]:
            r = order_free(op[0], run_op(t, op))
            done.append(op)
            f = order_free(op[0], run_op(trace(case), op))
            expect(eqv(r, f), "%r after %r returns\n  %s\non a fresh trace\n  %s", op, done[:-1], json.dumps(r)[:400], json.dumps(f)[:400])
            check_unchanged(before, t.events, "%r" % (op,))
            derived = [c for c in t.events.columns if c not in before.columns]
            ok = {"_matching_event", "_matching_timestamp", "_depth", "_parent", "_children", "Graph_Node"} | {mcol(c, k) for c in ["Timestamp (ns)"] + list(case["metrics"]) for k in ("inc", "exc")}
