"""conformance.py: compares the assumed contracts of pandas (vc/tables.py) with the installed pandas.

Every snippet below is a few lines of pandas code over a small table.  It is run (1) by the installed pandas on concrete tables
and (2) by the semantics of vc/tables.py, through the same instrumentation as the code of /repo, on a symbolic table whose cells
are then pinned to the same values.  The result of (1) must be entailed by (2) ("entailed"), or at least be allowed by it
("allowed": the semantics says less than pandas, which can only lose proofs).  "contradicted" would make proofs unsound and fails
the run.  Usage: python3-vt conformance.py [-v] [name...]      (real pandas is run by /opt/venv/bin/python)
"""
import json, os, random, subprocess, sys, tempfile

SNIPPETS = {
 # selection
 "select_eq": "return df[df['et'] == 'Enter']",
 "select_and": "return df[(df['ts'] > 5) & ~(df['nm'] == 'a')]",
 "select_or": "return df[(df['ts'] >= 20) | (df['nm'].eq('b'))]",
 "select_isin": "return df[df['nm'].isin(['a', 'c'])]",
 "select_isin_index": "return df[df['ts'].isin(df['pr'])]" ,
 "select_twice": "return df[df['et'] == 'Enter'][df['nm'] == 'a'] if False else df[df['et'] == 'Enter'].loc[df['nm'] == 'a']",
 "select_notnull": "return df[df['v'].notnull()]",
 "select_isna": "return df.loc[df['v'].isna()]",
 "select_lt_nan": "return df[df['v'] < 2]",
 "select_ne_nan": "return df[df['v'] != 2]",
 "loc_col": "return df.loc[df['et'] == 'Enter', 'ts']",
 "loc_cols": "return df.loc[df['et'] == 'Enter', ['ts', 'nm']]",
 "project": "return df[['ts', 'v']]",
 "filter_copy": "return df[df['ts'].gt(5)].copy()",
 # arithmetic and alignment
 "sub": "return df['ts'] - df['pr']",
 "mul_const": "return df['ts'] * 3 + 1",
 "rsub": "return 100 - df['ts']",
 "div_const": "return df['ts'] / 4",
 "floordiv": "return df['ts'] // 4",
 "mod": "return df['ts'] % 4",
 "nan_arith": "return df['v'] + df['ts']",
 "values_sub": "return df['ts'].values[0] if False else df['ts'].iloc[0]",
 "iloc_last": "return df['ts'].iloc[-1]",
 "lookup_label": "return df['ts'][3]",
 "loc_scalar": "return df.loc[2, 'nm']",
 "assign_col": "df['x'] = df['ts'] * 2\nreturn df",
 "assign_const": "df['x'] = 7\nreturn df",
 "assign_selected": "df['x'] = df[df['et'] == 'Enter']['ts']\nreturn df",
 "assign_values": "df['x'] = df['ts'].values\nreturn df",
 "loc_assign_const": "df.loc[df['et'] == 'Enter', 'ts'] = -1\nreturn df",
 "loc_assign_new": "df.loc[df['et'] == 'Enter', 'x'] = df['ts']\nreturn df",
 "loc_assign_series": "df.loc[df['et'] == 'Enter', 'ts'] = df['ts'] + 1\nreturn df",
 "loc_assign_values": "df.loc[df['et'] == 'Enter', 'x'] = df[df['et'] == 'Enter']['pr'].values\nreturn df",
 "lookup_series": "e = df[df['et'] == 'Enter']\nreturn df['ts'][df['pr']].values",
 "where": "return df['ts'].where(df['et'] == 'Enter')",
 "where_other": "return df['ts'].where(df['et'] == 'Enter', 0)",
 "map_fn": "return df['ts'].map(lambda x: x + 1)",
 "apply_fn": "return df['ts'].apply(lambda x: x * 2)",
 "replace_dict": "return df['nm'].replace({'a': 'z', 'b': 'a'})",
 "replace_lists": "return df['nm'].replace(['a', 'b'], ['b', 'c'])",
 "replace_one": "return df['nm'].replace('a', 'zz')",
 "replace_inplace": "df['nm'].replace(['a'], ['q'], inplace=True)\nreturn df",
 "astype_int": "return df['ts'].astype('int64')",
 "astype_Int32": "return df['vi'].astype('Int32')",
 "astype_trunc": "return df['w'].astype(int)",
 "astype_frame": "return df.astype({'pr': 'int64', 'nm': 'category'})",
 "eq_series": "return df['ts'] == df['pr']",
 "name_ne": "return df['nm'] != 'a'",
 # scalars, lists, sets
 "max": "return df['ts'].max()",
 "min_sel": "return df[df['et'] == 'Enter']['ts'].min()",
 "sum": "return df['ts'].sum()",
 "sum_nan": "return df['v'].sum()",
 "len": "return len(df)",
 "len_sel": "return len(df[df['nm'] == 'a'])",
 "shape": "return df[df['nm'] == 'b'].shape[0]",
 "empty": "return df[df['nm'] == 'nobody'].empty",
 "nset": "return len(set(df['nm']))",
 "nunique": "return df['pr'].nunique()",
 "unique_len": "return len(df['pr'].unique())",
 "in_set": "return 'a' in set(df['nm'])",
 "in_index": "return 3 in df[df['et'] == 'Enter'].index",
 "in_columns": "return ['ts' in df.columns, 'zz' in df.columns]",
 "tolist": "return df[df['et'] == 'Enter']['ts'].tolist()",
 "list_series": "return list(df[df['et'] == 'Enter']['nm'])",
 "index_list": "return list(df[df['et'] == 'Enter'].index)",
 "comp_list": "return [x + 1 for x in df['ts']]",
 "zip_list": "return [x + y for x, y in zip(df['ts'], df['pr'])]",
 "equals": "return df['ts'].equals(df['ts'] + 0)",
 "equals_not": "return df['ts'].equals(df['pr'])",
 # other orders
 "sort": "return df.sort_values(by='ts', kind='stable')",
 "sort_desc": "return df.sort_values(by='ts', ascending=False, kind='mergesort')",
 "sort_unstable": "return df.sort_values(by='ts')['ts'].values",
 "sort_two": "return df.sort_values(by=['pr', 'ts'])",
 "sort_two_mixed": "return df.sort_values(by=['pr', 'ts'], ascending=[True, False])",
 "sort_nan": "return df.sort_values(by='v', kind='stable')",
 "sort_ignore": "return df.sort_values(by='ts', kind='stable', ignore_index=True)",
 "sort_reset": "return df.sort_values(by='ts', kind='stable').reset_index(drop=True)",
 "sort_inplace": "df.sort_values(by='ts', kind='stable', inplace=True)\ndf.reset_index(drop=True, inplace=True)\nreturn df",
 "sort_of_selection": "return df[df['et'] == 'Enter'].sort_values(by='ts', kind='stable', ignore_index=True)",
 "reset_selection": "return df[df['nm'] == 'a'].reset_index(drop=True)",
 "assign_after_sort": "g = df.sort_values(by='ts', kind='stable')\ng.reset_index(drop=True, inplace=True)\ng['x'] = g['ts'] + 1\nreturn g",
 "concat": "return pd.concat([df[df['et'] == 'Enter'], df[df['nm'] == 'a']], ignore_index=True)",
 "concat_two": "a = df.copy()\na['ts'] = a['ts'] + 100\nreturn pd.concat([df, a], ignore_index=True)",
 "concat_sort": "a = df.copy()\na['ts'] = a['ts'] + 3\nreturn pd.concat([df, a], ignore_index=True).sort_values(by='ts', kind='stable', ignore_index=True)",
 "rename": "return df.rename(columns={'ts': 'time', 'absent': 'q'})",
 "drop": "return df.drop(columns=['v', 'w'])",
 "drop_axis": "return df.drop('v', axis=1)",
 "pop": "df.pop('v')\nreturn df",
 "assign_kw": "return df.assign(x=df['ts'] + 1)",
 "copy_independent": "a = df.copy()\na['ts'] = 0\nreturn df",
 "columns_reorder": "l = list(df)\nl.insert(0, l.pop(l.index('v')))\nreturn df.loc[:, l]",
 "set_index": "return df.drop(columns=['nm']).set_index('ts')",
 "new_frame": "return pd.DataFrame({'a': [x for x in df['ts']], 'b': [x for x in df['nm']]})",
 "new_frame_index": "return pd.DataFrame({'a': [x + 1 for x in df['ts']]}, index=[x for x in df['pr']])",
 "index_assign": "f = pd.DataFrame({'a': [x + 1 for x in df['ts']]})\nf.index = [x for x in df['pr']]\nreturn f.sort_values(by='a', kind='stable')",
 # grouping: {key tuple: values}
 "group_sum": "return df.groupby(['nm'], observed=True)[['v', 'ts']].sum()",
 "group_sum_one": "return df.groupby('pr', observed=True)['v'].sum()",
 "group_sum_two": "return df.groupby(['pr', 'nm'], observed=True)[['v']].sum()",
 "group_mean_two": "return df.groupby(['pr', 'nm'], observed=True)[['w']].mean()",
 "group_selected": "return df[df['et'] == 'Enter'].groupby(['nm'], observed=True)[['ts']].sum()",
 "regroup_mean": "return df.groupby(['pr', 'nm'], observed=True)[['v', 'ts']].sum().groupby(['nm'], observed=True).mean()",
 "group_categories": "return df[df['et'] == 'Enter'].groupby(['cat', 'pr'], observed=False)[['ts']].sum()",
}
INTS, NAMES, FLOATS = ("ts", "pr"), ("et", "nm", "cat"), ("v", "w", "vi")


def tables():
    yield {"ts": [0, 5, 5, 9, 12, 20, 21, 30], "pr": [0, 1, 1, 0, 0, 0, 1, 2], "et": ["Enter", "Enter", "Leave", "Leave", "Enter", "Leave", "Instant", "Enter"],
           "nm": ["a", "b", "b", "a", "a", "a", "c", "b"], "cat": ["a", "b", "b", "a", "a", "a", "c", "b"], "v": [1.5, None, 2.0, 4.0, None, -1.0, 3.0, 0.0],
           "w": [0.5, 1.75, -2.25, 3.0, 4.5, -0.5, 7.0, 1.0], "vi": [1.0, None, 3.0, 4.0, None, 0.0, 2.0, 7.0]}
    yield {"ts": [4, 5, 7], "pr": [0, 1, 0], "et": ["Enter", "Enter", "Leave"], "nm": ["a", "a", "b"], "cat": ["a", "a", "b"], "v": [1.5, None, 2.0], "w": [0.5, 1.75, -2.25], "vi": [1.0, None, 3.0]}
    rnd = random.Random(5)
    for k in range(3):
        n = 5 + k
        yield {"ts": [rnd.choice([0, 3, 5, 8, 20]) for _ in range(n)], "pr": [rnd.randrange(3) for _ in range(n)], "et": [rnd.choice(["Enter", "Leave", "Instant"]) for _ in range(n)],
               "nm": (nm := [rnd.choice("abc") for _ in range(n)]), "cat": nm, "v": [rnd.choice([None, -1.5, 0.0, 2.0, 4.0]) for _ in range(n)],
               "w": [rnd.choice([-2.5, -0.5, 0.25, 1.0, 3.75]) for _ in range(n)], "vi": [rnd.choice([None, 0.0, 3.0, 9.0]) for _ in range(n)]}


# ----------------------------------------------------------------------------- the installed pandas
def real():
    import warnings
    warnings.simplefilter("ignore")
    import pandas as pd, numpy as np
    plain = lambda x: None if x is None or x is pd.NA or isinstance(x, float) and x != x else x.item() if hasattr(x, "item") else x

    def out(r, name):
        if name.startswith(("group", "regroup")):
            f = r if isinstance(r, pd.DataFrame) else r.to_frame()
            return {"kind": "group", "keys": [[plain(x) for x in (i if isinstance(i, tuple) else (i,))] for i in f.index], "cols": {c: [plain(x) for x in f[c]] for c in f.columns}}
        if isinstance(r, pd.DataFrame):
            return {"kind": "frame", "index": [plain(x) for x in r.index], "cols": {c: [plain(x) for x in r[c]] for c in r.columns}}
        if isinstance(r, pd.Series):
            return {"kind": "series", "index": [plain(x) for x in r.index], "values": [plain(x) for x in r]}
        if isinstance(r, (list, np.ndarray)):
            return {"kind": "list", "values": [plain(x) for x in r]}
        return {"kind": "scalar", "value": plain(r)}
    res = []
    for d in tables():
        rs = {}
        for name, src in SNIPPETS.items():
            g = {"pd": pd, "np": np}
            exec("def f(df):\n    " + src.replace("\n", "\n    "), g)
            df = pd.DataFrame({k: v for k, v in d.items()})
            df["cat"] = df["cat"].astype("category")
            try:
                rs[name] = out(g["f"](df), name)
            except Exception as e:
                rs[name] = {"kind": "error", "what": "%s: %s" % (type(e).__name__, e)}
        res.append(rs)
    json.dump(res, sys.stdout)


# ----------------------------------------------------------------------------- the assumed semantics
def theory(only, verbose):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.setrecursionlimit(20000)
    from fractions import Fraction
    import z3
    import contract, engine, instrument, tables as T
    from engine import SNum, SMaybe, SName, SBool, SList, SSeqBase, code, expr, ctx, Unsupported, I, freeze
    real_out = json.loads(subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "--real"], capture_output=True, text=True, check=True).stdout)
    tmp = tempfile.mkdtemp()
    num = lambda x: z3.IntVal(x) if isinstance(x, int) else z3.RealVal(Fraction(x).limit_denominator(10 ** 12))

    def eq(v, x):
        """the symbolic value v is the concrete value x"""
        if isinstance(v, (bool, int, float, str)) or v is None:
            if isinstance(v, float) and v != v:
                return x is None
            return v == x
        if isinstance(v, SBool):
            return v.e == z3.BoolVal(bool(x)) if x is not None else z3.BoolVal(False)
        nul, val = T.nullof(v), T.valof(v)
        if x is None:
            return nul
        if isinstance(x, str):
            return z3.And(z3.Not(nul), val == code(x))
        a, b = T.real(val), T.real(num(x))
        return z3.And(z3.Not(nul), a == b if not isinstance(x, float) or Fraction(x).denominator < 10 ** 6 else z3.And(a - b < z3.RealVal("1/1000000"), b - a < z3.RealVal("1/1000000")))

    class L(instrument.Loader):
        def path(self, name):
            return os.path.join(tmp, name.split(".")[-1] + ".py") if name.startswith("conf.") else instrument.Loader.path(self, name)

    def pin(c, t, n):
        """sums over the table are sums over its rows; equally for keys"""
        for kind, reg in c.env.get("reg", {}).items():
            if kind != "SUM":
                continue
            done = c.env.setdefault("pinned", set())
            for dom, g, k in list(reg.items):
                if k.get_id() in done:
                    continue
                done.add(k.get_id())
                c.keep(k)
                if isinstance(dom, T.Table):
                    c.assume(k == z3.Sum([g(z3.IntVal(i)) for i in range(n)]))
                else:
                    c.assume(k == z3.Sum([g(z3.IntVal(i)) for i in c.env["keys"]]))

    tally = {}
    for ti, d in enumerate(tables()):
        n = len(d["ts"])
        for name, src in SNIPPETS.items():
            if only and name not in only:
                continue
            if name.startswith("regroup") and n > 3:
                continue
            want = real_out[ti][name]
            with open(os.path.join(tmp, "s_%s.py" % name), "w") as f:
                f.write("import pandas as pd\nimport numpy as np\ndef f(df):\n    " + src.replace("\n", "\n    ") + "\n")

            class C(contract.Contract):
                pass

            def run(c, _load, name=name, want=want):
                vc = c.env["vc"]
                load = L(vc, {"pandas": T.pandas_mod(DataFrame=T.pd_DataFrame), "numpy": T.numpy_mod()}).load
                mod = load("conf.s_" + name)
                t = T.Table("t")
                c.env["keys"] = [0, 1, code("a"), code("b")] if name.startswith("regroup") else sorted({i for i in range(-1, 4)} | {code(x) for col in NAMES for x in d[col]})

                def pick(vals, mk):
                    def fn(r):
                        e = mk(vals[-1])
                        for i in range(n - 2, -1, -1):
                            e = z3.If(r == i, mk(vals[i]), e)
                        return e
                    return fn
                f = T.SFrame(t.all)
                for col in INTS:
                    f.cols[col] = T.Col(lambda r, g=pick(d[col], lambda x: z3.IntVal(x)): SNum(g(r)), "int64")
                for col in NAMES:
                    f.cols[col] = T.Col(lambda r, g=pick(d[col], lambda x: z3.IntVal(code(x))): SName(g(r)), "category" if col == "cat" else "object")
                for col in FLOATS:
                    f.cols[col] = T.Col(lambda r, g=pick(d[col], lambda x: z3.BoolVal(x is None)), h=pick(d[col], lambda x: num(float(x or 0))): SMaybe(g(r), SNum(h(r))), "float64") if None in d[col] else \
                        T.Col(lambda r, h=pick(d[col], lambda x: num(float(x))): SNum(h(r)), "float64")
                c.assume(t.n == n)
                for i in range(n):
                    t.row(z3.IntVal(i))
                res = mod.f(f)
                pos = lambda tag, m: [c.term(tag, z3.IntVal(k)) for k in range(m)]
                for tt in c.env["tables"]:
                    for k in range(2 * n):
                        tt.row(z3.IntVal(k))
                for tag in list(c.pool):
                    if tag.startswith("pos:"):
                        pos(tag, n + 1)
                pin(c, t, n)
                goals = []

                def at_rows(view, m):
                    cnt, at, po, tag = view.enum()
                    pos(tag, 2 * n)
                    for k in range(m):
                        view.table.row(at(z3.IntVal(k)))
                    goals.append(("length", cnt == m))
                    return [at(z3.IntVal(k)) for k in range(m)]
                if isinstance(res, T.SFrame) and want["kind"] == "frame":
                    rows = at_rows(res.view, len(want["index"]))
                    for i, (r, x) in enumerate(zip(rows, want["index"])):
                        if not res.labels:
                            goals.append(("label of row %d" % i, eq(SNum(r), x)))
                        elif res.labels.fn:
                            goals.append(("label of row %d" % i, eq(res.labels.fn(r), x)))
                    for col in set(d) | set(want["cols"]):
                        goals.append(("column " + col, z3.simplify(res.has(col)) == (col in want["cols"])))
                    for col, vals in want["cols"].items():
                        if z3.is_true(z3.simplify(res.has(col))):
                            fn = res.colfn(col)
                            goals += [("%s at %d" % (col, i), eq(fn(r), x)) for i, (r, x) in enumerate(zip(rows, vals))]
                elif isinstance(res, T.SSeries):
                    rows = at_rows(res.view, len(want["values"]))
                    goals += [("value %d" % i, eq(res.fn(r), x)) for i, (r, x) in enumerate(zip(rows, want["values"]))]
                    if not res.array and not res.labels and "index" in want:
                        goals += [("label %d" % i, eq(SNum(r), x)) for i, (r, x) in enumerate(zip(rows, want["index"]))]
                elif isinstance(res, (T.Grouped, T.Regrouped)):
                    universe = [c.env["keys"]] * (len(res.keys))
                    import itertools
                    keys = [tuple(code(x) if isinstance(x, str) else x for x in k) for k in want["keys"]]
                    for kv in itertools.product(*universe):
                        goals.append(("group %s" % (kv,), res.present([z3.IntVal(x) for x in kv]) == z3.BoolVal(kv in keys)))
                    for kv, i in zip(keys, range(len(keys))):
                        for col, vals in want["cols"].items():
                            v = res.value(col, [z3.IntVal(x) for x in kv])
                            if vals[i] is not None:
                                goals.append(("%s of %s" % (col, kv), eq(SNum(v), vals[i])))
                elif isinstance(res, (SSeqBase, list)):
                    if isinstance(res, list) or isinstance(res, SList) and res.concrete:
                        vs = list(res)
                        goals.append(("length", len(vs) == len(want["values"])))
                        goals += [("element %d" % i, eq(v, x)) for i, (v, x) in enumerate(zip(vs, want["values"]))]
                    else:
                        goals.append(("length", res.length() == len(want["values"])))
                        for i, x in enumerate(want["values"]):
                            if getattr(res, "tag", None):
                                c.term(res.tag, z3.IntVal(i))
                            goals.append(("element %d" % i, eq(res.at(z3.IntVal(i)), x)))
                elif want["kind"] == "scalar":
                    goals.append(("value", eq(res, want["value"])))
                else:
                    raise Unsupported("result %s for %s" % (type(res).__name__, want["kind"]))
                for tt in c.env["tables"]:
                    for k in range(2 * n):
                        tt.row(z3.IntVal(k))
                pin(c, t, n)
                if c.sat() == z3.unsat:
                    c.prove("contradiction", z3.BoolVal(True))
                    c.x.record = ("contradicted", "the assumptions")
                for g, e in goals:
                    c.prove(g, e if z3.is_expr(e) else bool(e), assume=False)
                c.prove("allowed by the semantics", z3.BoolVal(c.sat(*[e if z3.is_expr(e) else z3.BoolVal(bool(e)) for _, e in goals]) == z3.sat), assume=False)
            con = C()
            con.name, con.run = name, run
            r = contract.verify([con])
            bad = [o for o in r["obligations"] if o["status"] not in ("discharged",)]
            if want["kind"] == "error":
                st = "entailed" if any("no KeyError" in o["name"] or "no IndexError" in o["name"] for o in bad) else "contradicted"
            elif any(o["status"] == "unsupported" for o in bad):
                st = "unsupported"
            elif any(o["name"].endswith("allowed by the semantics") for o in bad):
                st = "contradicted"
            elif bad:
                st = "allowed"
            else:
                st = "entailed"
            tally.setdefault(st, []).append(name)
            if verbose or st in ("contradicted", "unsupported"):
                print("%-12s table %d  %s   %s" % (st, ti, name, [(o["name"].split(": ")[-1], str(o.get("detail", ""))[:90] if st != "allowed" else "") for o in bad][:3] if bad else ""))
                if st == "contradicted":
                    print("      pandas:", json.dumps(want)[:300])
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    print({k: len(v) for k, v in tally.items()}, "weaker than pandas:", sorted(set(tally.get("allowed", []))))
    return 1 if tally.get("contradicted") or tally.get("unsupported") else 0


if __name__ == "__main__":
    if "--real" in sys.argv:
        real()
    else:
        sys.exit(theory([a for a in sys.argv[1:] if not a.startswith("-")], "-v" in sys.argv))
