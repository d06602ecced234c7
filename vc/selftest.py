"""selftest.py: tests of the verification-condition generator itself.

Each case is a small function with several claims about its result.  The function is run natively on many concrete arguments,
which tells the false claims; the engine then tries to prove each claim for all arguments.  A false claim that is discharged
means the engine is unsound and fails the run; a claim marked "+" is true and has to be proved.
Usage: python3-vt selftest.py [-v] [name...]
"""
import itertools, os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
import contract, engine, instrument
from engine import SNum, SBool, SList, ctx, I, expr, freeze

tb = lambda x: x.e if isinstance(x, SBool) else z3.BoolVal(bool(x)) if not z3.is_expr(x) else x


def imp(p, q):
    return (not p or q) if isinstance(p, bool) and isinstance(q, bool) else SBool(z3.Implies(tb(p), tb(q)))


def con(*ps):
    return all(ps) if all(isinstance(p, bool) for p in ps) else SBool(z3.And(*[tb(p) for p in ps]))


def dis(*ps):
    return any(ps) if all(isinstance(p, bool) for p in ps) else SBool(z3.Or(*[tb(p) for p in ps]))


def at(l, i):
    return l[i]


# name: (source, [claims], {loop variable claims: invariants})     f(a, b, n): a, b arbitrary integers, n >= 0
CASES = {
 "branches": ("def f(a, b, n):\n    if a < b:\n        x = a\n    elif a == b:\n        x = -1\n    else:\n        x = b\n    return x",
   ["+imp(a < b, r == a)", "+imp(a == b, r == -1)", "imp(a == b, r == a)", "r <= b", "+imp(a != b, con(r <= a, r <= b))", "r == a"], []),
 "shortcircuit": ("def f(a, b, n):\n    log = []\n    def p(x):\n        log.append(x)\n        return x > 0\n    if p(a) and p(b):\n        pass\n    return len(log)",
   ["+imp(a > 0, r == 2)", "+imp(a <= 0, r == 1)", "r == 2", "r == 1"], []),
 "or_value": ("def f(a, b, n):\n    return a or b", ["+imp(a != 0, r == a)", "+imp(a == 0, r == b)", "r == a"], []),
 "chained": ("def f(a, b, n):\n    return 1 if 0 < a <= b < 10 else 0", ["+imp(r == 1, con(0 < a, a <= b, b < 10))", "+imp(con(0 < a, a <= b, b < 10), r == 1)", "imp(a <= b, r == 1)", "imp(r == 1, a < b)"], []),
 "floordiv": ("def f(a, b, n):\n    return a // 3", ["+con(3 * r <= a, a < 3 * r + 3)", "imp(r < 0, 3 * r >= a)"], []),
 "mod": ("def f(a, b, n):\n    return a % 3", ["+con(r >= 0, r < 3)", "r == a", "r > 0"], []),
 "mod_neg": ("def f(a, b, n):\n    return a % -3", ["+con(r <= 0, r > -3)", "r >= 0"], []),
 "trunc": ("def f(a, b, n):\n    return int(a / 2)", ["+imp(a >= 0, con(2 * r <= a, a <= 2 * r + 1))", "+imp(a < 0, con(2 * r >= a, 2 * r <= a + 1))", "2 * r <= a", "+imp(a == -3, r == -1)"], []),
 "round": ("def f(a, b, n):\n    return round(a / 2)", ["con(2 * r <= a, a <= 2 * r + 1)", "con(a - 1 <= 2 * r, 2 * r <= a + 1)", "imp(a == 1, r == 0)", "imp(a == 3, r == 2)", "imp(a == 3, r == 1)"], []),
 "absmax": ("def f(a, b, n):\n    return max(abs(a), abs(b))", ["+r >= a", "+r >= -b", "r == a", "+dis(r == a, r == -a, r == b, r == -b)"], []),
 "minmax_args": ("def f(a, b, n):\n    return min(a, b, 0)", ["+r <= 0", "+r <= a", "+dis(r == 0, r == a, r == b)", "r == b"], []),
 "sum_loop": ("def f(a, b, n):\n    s = 0\n    for i in range(n):\n        s = s + i\n    return s",
   ["+2 * r == n * (n - 1)", "2 * r == n * n", "r >= n", "r == 0", "+r >= 0"], ["2 * s == k * (k - 1)", "s >= 0"]),
 "sum_wrong_invariant": ("def f(a, b, n):\n    s = 0\n    for i in range(n):\n        s = s + i\n    return s", ["2 * r == n * (n + 1)", "r == 0"], ["2 * s == k * (k + 1)", "s == 0"]),
 "loop_var_after": ("def f(a, b, n):\n    i = -1\n    for i in range(n):\n        pass\n    return i", ["+r == n - 1", "r == n", "imp(n == 0, r == 0)", "r == -1"], ["i == k - 1"]),
 "break_": ("def f(a, b, n):\n    r = 0\n    for i in range(n):\n        if i == a:\n            r = 1\n            break\n    else:\n        r = 2\n    return r",
   ["+imp(con(0 <= a, a < n), r == 1)", "+imp(dis(a < 0, a >= n), r == 2)", "r == 2", "r == 1", "imp(a < n, r == 1)"], ["r == 0", "dis(a < 0, a >= k)"]),
 "continue_": ("def f(a, b, n):\n    c = 0\n    for i in range(n):\n        if i < a:\n            continue\n        c += 1\n    return c", ["+imp(a <= 0, r == n)", "+imp(con(0 <= a, a <= n), r == n - a)", "r == n", "+imp(a >= n, r == 0)"],
   ["imp(a <= 0, c == k)", "imp(con(0 <= a, a <= k), c == k - a)", "imp(a >= k, c == 0)"]),
 "return_in_loop": ("def f(a, b, n):\n    for i in range(n):\n        if i == a:\n            return i\n    return -1", ["+dis(r == a, r == -1)", "+imp(con(0 <= a, a < n), r == a)", "r == a", "r == -1"], ["dis(a < 0, a >= k)"]),
 "while_": ("def f(a, b, n):\n    i = 0\n    while i < n:\n        i += 1\n    return i", ["+r == n", "r == n + 1", "r == 0"], ["con(i <= n, i >= 0)"]),
 "while_break": ("def f(a, b, n):\n    i = 0\n    while True:\n        if i >= n:\n            break\n        i += 2\n    return i", ["+dis(r == n, r == n + 1)", "r == n"], ["con(i <= n + 1, i >= 0)"]),
 "list_append": ("def f(a, b, n):\n    l = []\n    for i in range(n):\n        l.append(i + a)\n    return l", ["+len_(r) == n", "+imp(con(0 <= b, b < n), el(r, b) == a + b)", "imp(con(0 <= b, b < n), el(r, b) == b)", "len_(r) == 0"],
   ["len_(l) == k", "ALL(l, lambda i, x: x == a + i)"]),
 "list_alias": ("def f(a, b, n):\n    l = []\n    m = l\n    for i in range(n):\n        m.append(i)\n    return len(l)", ["+r == n", "r == 0"], ["len_(l) == k"]),
 "list_alias_blind": ("def f(a, b, n):\n    l = []\n    m = l\n    for i in range(n):\n        m.append(i)\n    return len(l)", ["r == n + 1", "r == 0"], []),
 "list_plus_eq": ("def f(a, b, n):\n    l = [a]\n    m = l\n    m += [b]\n    q = l\n    q = q + [b]\n    return len(l)", ["+r == 2", "r == 1", "r == 3"], []),
 "list_ops": ("def f(a, b, n):\n    l = [a, b, a + b]\n    l.insert(1, 7)\n    x = l.pop()\n    l[0] = x\n    del l[2]\n    l.reverse()\n    return l[0] * 100 + l[-1]", ["+r == 700 + a + b", "r == 700 + a", "r == 700"], []),
 "slices": ("def f(a, b, n):\n    l = [a, b, 3, 4]\n    return l[1:][0] + l[-2] + l[:-1][-1] + l[::-1][0]", ["+r == b + 3 + 3 + 4", "r == a"], []),
 "attribute_in_loop": ("class C:\n    def __init__(self):\n        self.x = 0\n    def inc(self):\n        self.x += 1\ndef f(a, b, n):\n    for i in range(n):\n        c = C()\n        c.inc()\n    d = C()\n    d.inc()\n    return d.x", ["+r == 1", "r == 0"], []),
 "attribute_of_older": ("class C:\n    def __init__(self):\n        self.x = 0\n    def inc(self):\n        self.x += 1\ndef f(a, b, n):\n    c = C()\n    for i in range(n):\n        c.inc()\n    return c.x", ["r == 0", "r == 1"], []),
 "dict_in_loop": ("def f(a, b, n):\n    d = {'x': 0}\n    for i in range(n):\n        d['x'] = i\n    return d['x']", ["r == 0", "r == n - 1", "r == n"], []),
 "set_in_loop": ("def f(a, b, n):\n    s = set()\n    for i in range(n):\n        s.add(1)\n    return len(s)", ["r == 0", "r == 1"], []),
 "nested_write": ("def f(a, b, n):\n    x = [0]\n    def g():\n        x[0] += 1\n    for i in range(n):\n        g()\n    return x[0]", ["r == 0", "r == n + 1"], []),
 "nonlocal_": ("def f(a, b, n):\n    x = 0\n    def g():\n        nonlocal x\n        x += 1\n    for i in range(n):\n        g()\n    return x", ["r == 0", "r == n + 1"], []),
 "global_": ("G = 0\ndef g():\n    global G\n    G += 1\ndef f(a, b, n):\n    global G\n    G = 0\n    for i in range(n):\n        g()\n    return G", ["r == 0", "r == n + 1"], []),
 "closure_late": ("def f(a, b, n):\n    fs = []\n    for i in (1, 2, 3):\n        fs.append(lambda: i)\n    return fs[0]()", ["+r == 3", "r == 1"], []),
 "default_mutable": ("def g(x, l=[]):\n    l.append(x)\n    return len(l)\ndef f(a, b, n):\n    g(a)\n    return g(b) - g(b)", ["+r == -1", "r == 0"], []),
 "try_finally": ("def f(a, b, n):\n    x = 0\n    try:\n        if a > 0:\n            raise ValueError('x')\n        x = 1\n    except ValueError:\n        x = 2\n    finally:\n        x += 10\n    return x", ["+imp(a > 0, r == 12)", "+imp(a <= 0, r == 11)", "r == 11"], []),
 "nested_loops": ("def f(a, b, n):\n    s = 0\n    for i in range(n):\n        for j in range(n):\n            s += 1\n    return s", ["r == n", "r == 0", "r == 2 * n"], []),
 "zip_len": ("def f(a, b, n):\n    c = 0\n    for x, y in zip(range(n), range(a)):\n        c += 1\n    return c", ["+imp(a >= n, r == n)", "+imp(con(0 <= a, a < n), r == a)", "r == n", "r == a", "+imp(a < 0, r == 0)"], ["c == k"]),
 "enumerate_": ("def f(a, b, n):\n    l = [x + a for x in range(n)]\n    r = 0\n    for i, x in enumerate(l, 5):\n        r = i - x\n    return r", ["+imp(n > 0, r == 5 - a)", "r == 0", "r == 5 - a"], ["imp(k > 0, r == 5 - a)", "imp(k == 0, r == 0)"]),
 "reversed_": ("def f(a, b, n):\n    x = -1\n    for i in reversed(range(n)):\n        x = i\n    return x", ["+imp(n > 0, r == 0)", "r == n - 1", "+imp(n == 0, r == -1)"], ["imp(k > 0, x == n - k)", "imp(k == 0, x == -1)"]),
 "range_step": ("def f(a, b, n):\n    c = 0\n    for i in range(3, n):\n        c += 1\n    return c", ["+imp(n >= 3, r == n - 3)", "+imp(n < 3, r == 0)", "r == n - 3"], ["c == k"]),
 "comp_": ("def f(a, b, n):\n    l = [x * 2 for x in range(n)]\n    return l", ["+len_(r) == n", "+imp(con(0 <= b, b < n), el(r, b) == 2 * b)", "imp(con(0 <= b, b < n), el(r, b) == b)"], []),
 "tuple_swap": ("def f(a, b, n):\n    x, y = a, b\n    x, y = y, x + y\n    return x - y", ["+r == -a", "r == a", "r == b - a"], []),
 "aug_alias": ("def f(a, b, n):\n    l = [1, 2]\n    d = {'k': l}\n    d['k'].append(a)\n    return len(l) + d['k'][2]", ["+r == 3 + a", "r == 2 + a"], []),
 "ternary_nested": ("def f(a, b, n):\n    return (a if a > b else b) if n > 2 else (b if a > b else a)", ["+imp(n > 2, con(r >= a, r >= b))", "+imp(n <= 2, con(r <= a, r <= b))", "r >= a"], []),
 "havoc_param": ("def g(l, n):\n    for i in range(n):\n        l.append(0)\ndef f(a, b, n):\n    l = []\n    g(l, n)\n    return len(l)", ["r == 0", "r == n + 1"], []),
 "swap_in_loop": ("def f(a, b, n):\n    x, y = a, b\n    for i in range(n):\n        x, y = y, x\n    return x", ["r == a", "r == b", "+dis(r == a, r == b)"], ["dis(con(x == a, y == b), con(x == b, y == a))"]),
 "unchanged_in_loop": ("def f(a, b, n):\n    x = a\n    for i in range(n):\n        x = a if i >= 0 else b\n    return x", ["+r == a", "r == b"], ["x == a"]),
 "replaced_in_loop": ("def f(a, b, n):\n    l = []\n    c = 0\n    for i in range(n):\n        l = []\n        l.append(i)\n        c = len(l)\n    return c", ["r == 0", "r == 1", "+dis(r == 0, r == 1)"], ["'l' not in globals() or len_(l) == c", "dis(c == 0, c == 1)"]),
 "exit_early_state": ("def f(a, b, n):\n    x = 0\n    for i in range(n):\n        x = 1\n        if i == a:\n            x = 2\n            break\n    return x", ["+imp(n == 0, r == 0)", "+imp(con(0 <= a, a < n), r == 2)", "r == 1", "r == 2", "+imp(con(n > 0, a < 0), r == 1)"], ["imp(k == 0, x == 0)", "imp(k > 0, x == 1)", "dis(a < 0, a >= k)"]),
}


class Inv(instrument.Invariant):
    """the same claims for every loop of the case (those whose variables are not there are skipped)"""
    name = "loop"

    def __init__(self, claims):
        self.claims = claims

    def match(self, st):
        return {}

    def clauses(self, c, st, bind):
        a, b, n = c.env["args"]
        out = []
        env = dict(G, a=a, b=b, n=n, k=SNum(st.k), **{v: x for v, x in st.L.items() if v not in "abnk"})

        def all_(l, f):
            raise AssertionError
        for cl in self.claims:
            if cl.startswith("ALL("):
                v = cl[4:cl.index(",")]
                l = st.L[v]
                if isinstance(l, SList) and l.concrete and not l.items:
                    out.append((cl, [], lambda: z3.BoolVal(True)))
                    continue
                f = eval(cl[cl.index(",") + 1:-1], env)
                out.append((cl, [l.tag], lambda i, l=l, f=f: z3.Implies(z3.And(0 <= i, i < l.length()), tb(f(SNum(i), l.at(i))))))
            else:
                if any(v not in env and v not in ("True", "False", "None") for v in compile(cl, "claim", "eval").co_names):
                    continue      # about a variable that is not carried from one iteration to the next
                out.append((cl, [], lambda cl=cl: tb(eval(cl, env))))
        return out


def len_(l):
    return len(l) if isinstance(l, list) else SNum(expr_len(l))


def expr_len(l):
    n = l.length()
    return n if z3.is_expr(n) else z3.IntVal(n)


def el(l, i):
    if isinstance(l, list):
        return l[i]
    if l.tag and isinstance(i, SNum):
        ctx().term(l.tag, i.e)
    return l.at(i.e)


class Lazy(dict):
    pass


G = dict(imp=imp, con=con, dis=dis, len_=len_, el=el)


def natively(src, claims):
    """which claims are false for some arguments"""
    g = {}
    exec(src, g)
    false = set()
    for a, b, n in itertools.product(range(-4, 6), range(-4, 6), range(0, 5)):
        r = g["f"](a, b, n)
        for cl in claims:
            e = cl.lstrip("+")
            try:
                v = eval(e, dict(G, a=a, b=b, n=n, r=r))
            except IndexError:      # the hypothesis of an implication is evaluated strictly here
                v = True
            if not v:
                false.add(cl)
    return false


def main():
    only = [x for x in sys.argv[1:] if not x.startswith("-")]
    verbose = "-v" in sys.argv
    tmp = tempfile.mkdtemp()
    bad, proved, total = [], 0, 0
    for name, (src, claims, invs) in CASES.items():
        if only and name not in only:
            continue
        false = natively(src, claims)
        wrong = [cl for cl in false if cl.startswith("+")]
        assert not wrong, (name, wrong)
        with open(os.path.join(tmp, "t_%s.py" % name), "w") as f:
            f.write(src + "\n")

        class L(instrument.Loader):
            def path(self, m):
                return os.path.join(tmp, m.split(".")[-1] + ".py")

        class C(contract.Contract):
            pass

        def run(c, _load):
            mod = L(c.env["vc"], {}).load("self.t_" + name)
            a, b, n = [SNum(c.fresh(x, I)) for x in "abn"]
            c.assume(n.e >= 0)
            c.env["args"] = (a, b, n)
            r = mod.f(a, b, n)
            for cl in claims:
                v = eval(cl.lstrip("+"), dict(G, a=a, b=b, n=n, r=r))
                c.prove("claim " + cl, tb(v), assume=False)
        con_ = C()
        con_.name, con_.run, con_.invariants = name, run, [Inv(invs)] if invs else []
        res = contract.verify([con_])
        st = {}
        for o in res["obligations"]:
            st[o["name"]] = o
        invbad = [o["name"] for o in res["obligations"] if "invariant" in o["name"] and o["status"] != "discharged"]
        unsup = [o["detail"] for o in res["obligations"] if o["status"] == "unsupported"]
        for cl in claims:
            total += 1
            o = st.get("%s: claim %s" % (name, cl))
            ok = o is not None and o["status"] == "discharged" and not invbad and not unsup
            proved += ok
            if cl in false and ok:
                bad.append((name, cl, "UNSOUND: false and discharged"))
            if cl.startswith("+") and not ok:
                bad.append((name, cl, "not proved: %s %s %s" % (o and o["status"], invbad, unsup)))
            if verbose:
                print("%-22s %-10s %-6s %s %s" % (name, o["status"] if o else "-", cl in false and "false" or "true", cl, unsup[:1] if unsup else ""))
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    for x in bad:
        print(*x)
    print("%d cases, %d claims, %d proved, %d problems (unsound: %d)" % (len(CASES), total, proved, len(bad), sum("UNSOUND" in x[2] for x in bad)))
    return 1 if any("UNSOUND" in x[2] for x in bad) else 0


if __name__ == "__main__":
    sys.exit(main())
