"""P29: the only text executed as code is that of the library's own tables, which hold arithmetic only."""
import ast
import builtins
from checks.p28 import *
from checks.plate import EDGES
from sa import effects as E

ENTRIES = ["composipy", "composipy.nastranapi", "composipy.optimize"]
EVAL = ("builtins.eval", "builtins.exec")
# running text, bytes or a named program by any other way than eval
FORBIDDEN = (
    "builtins.__import__", "builtins.breakpoint", "builtins", "importlib.*", "imp.*", "runpy.*", "code.*", "codeop.*", "pty.*", "subprocess.*", "os.system", "os.popen", "os.startfile",
    "os.execl", "os.execle", "os.execlp", "os.execv", "os.execve", "os.execvp", "os.execvpe", "os.spawnl", "os.spawnv", "os.spawnlp", "os.spawnvp", "os.posix_spawn", "commands.*",
    "pickle.*", "_pickle.*", "cPickle.*", "marshal.*", "shelve.*", "dill.*", "cloudpickle.*", "joblib.*", "yaml.load", "yaml.unsafe_load", "ctypes.*", "cffi.*", "types.FunctionType",
    "types.CodeType", "sympy.*", "numexpr.*", "pandas.eval", "pandas.read_pickle", "numpy.DataSource", "numpy.safe_eval", "asteval.*", "timeit.*", "doctest.*", "pdb.*", "bdb.*",
    "sys.settrace", "sys.setprofile", "pkgutil.*", "pydoc.locate", "logging.config.*", "xmlrpc.*", "webbrowser.*", "asyncio.create_subprocess_shell", "asyncio.create_subprocess_exec",
    "scipy.weave.*", "numpy.f2py.*", "numba.*", "cython.*", "builtins.globals.*", "code", "unittest.mock.*", "zipimport.*", "site.*")
# harmless as long as the text is one of the program's own literals
LITERAL = ("builtins.__import__", "importlib.import_module", "importlib.import_module.*", "pandas.eval")
METHODS = ("eval", "query")           # of data frames: these parse and run text
NUMPY_PICKLE = ("numpy.load",)


def parents(tree):
    up = {}
    for n in ast.walk(tree):
        for q in ast.iter_child_nodes(n):
            up[q] = n
    return up


def table_texts(pkg):
    """module-level containers of text: {module: {name: [(text, line)]}}"""
    out = {}
    for m in pkg.mods.values():
        for s in m.tree.body:
            tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []
            names = [t.id for t in tg if isinstance(t, ast.Name)]
            if not names or names[0].startswith("__") or not isinstance(s.value, (ast.Dict, ast.List, ast.Tuple, ast.Call, ast.DictComp)):
                continue
            texts = []

            def values(n):
                if isinstance(n, ast.Dict):
                    for v in n.values:
                        values(v)
                elif isinstance(n, (ast.List, ast.Tuple)):
                    for v in n.elts:
                        values(v)
                elif isinstance(n, ast.Call):
                    for v in n.args:
                        values(v)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    texts.append((n.value, n.lineno))
            values(s.value)
            if texts:
                out.setdefault(m.name, {})[names[0]] = texts
    return out


ARITH = (ast.Expression, ast.BinOp, ast.UnaryOp, ast.Constant, ast.Name, ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow, ast.USub, ast.UAdd, ast.Load)


def not_arithmetic(text, taken):
    """why the text is more than arithmetic on variables, or None"""
    try:
        t = ast.parse(text.strip(), mode="eval")
    except SyntaxError:
        return "is not an expression"
    for n in ast.walk(t):
        if not isinstance(n, ARITH):
            return f"contains {type(n).__name__}: {ast.unparse(n)[:60]}" if isinstance(n, ast.expr) else f"contains {type(n).__name__}"
        if isinstance(n, ast.Constant) and (not isinstance(n.value, (int, float)) or isinstance(n.value, bool)):
            return f"contains the constant {n.value!r}"
        if isinstance(n, ast.Name) and (hasattr(builtins, n.id) or n.id in taken):
            return f"refers to {n.id}"
    return None


def enclosing(r, executed):
    """the executed evaluations inside the statement of a reference"""
    lo, hi = r.stmt.lineno, getattr(r.stmt, "end_lineno", r.stmt.lineno)
    return [v for w, v in executed if w[0] == r.mod.rel and lo <= w[1] <= hi]


def check():
    c = Check("P29", "query over every module the library loads for references (through aliases, attribute chains and star imports) to anything that runs text, bytes or programs, and abstract "
              "interpretation of the public interface with symbolic numbers, arbitrary texts and objects as inputs: every reference must either be an evaluation that is executed in the "
              "interpretation with nothing but entries of the library's literal tables, or not be there; every entry of those tables must be arithmetic on variables")
    c.min_obs = 20
    pkg = E.Package(REPO, ENTRIES)
    c.count("modules queried", len(pkg.mods))
    c.count("references resolved", len(pkg.refs))
    texts = table_texts(pkg)
    known = {t for d in texts.values() for l in d.values() for t, _ in l}
    executed = []

    # ------------------------------------------------ what is executed
    def record(x, label):
        for where, fn, v, pc in x.it.eval_sites:
            f, _, ln = where.rpartition(":")
            executed.append(((f, int(ln) if ln.isdigit() else 0), (fn, v, label, pc)))
        x.it.eval_sites.clear()
        for fn, n in x.it.functions_seen.items():
            c.functions[fn] = c.functions.get(fn, 0) + n
        c.contexts.append(label)

    def explore(label, thunk, x=None):
        x = x or Ctx()
        try:
            x.it.run(lambda: thunk(x))
        except (Limit, Skip, Broken):
            c.count("contexts left at an analysis limit")
        except Exception:       # noqa    an input of a kind the models do not know: what was executed before it counts
            c.count("contexts left at a model limit")
        if os.environ.get("P29_TIME"):
            print(f"{time.time() - c.t0:8.1f} {label}", flush=True)
        record(x, label)

    for gname, obs in GROUPS.items():
        if gname == "strength" or gname == "materials":
            names = list(obs)[::3]
        else:
            names = list(obs)
        if gname == "plates":
            names = [n for n in names if "calc_K" in n or "buckling" in n][::2]
        for n in names:
            explore(n, lambda x: obs[n](World(x), x))
    explore("mode shape", lambda x: x.meth(World(x)("plate edges"), "plot_eigenvalue", ngridx=num(3), ngridy=num(2)))
    for fn in lookups(pkg):
        explore(fn, lambda x: lookup_call(x, fn))
        for how, tx in (("a text of digits", lambda: "1"), ("a text", lambda: "xi+eta"), ("any text", lambda: V.StrV([(Opaque("input", "text"), "")]))):
            for k in range(3):
                explore(f"{fn}, argument {k + 1} is {how}", lambda x: lookup_call(x, fn, (k, tx())))
    for label, f in texts_in().items():
        explore(f"text: {label}", f)
    for mname in pkg.mods:
        for k in ENTRIES:
            if mname == k:
                explore(f"import {k}", lambda x: x.mod(k))

    # ------------------------------------------------ the references
    n_eval = 0
    for r in pkg.refs:
        p = E.matches(r.path, EVAL)
        if p:
            n_eval += 1
            runs = enclosing(r, executed)
            key = f"{r.path} in {r.mod.name}.{r.fn or '<module>'}"
            if r.bound and r.call is None:
                aliases = [q for q in pkg.refs if q is not r and q.path == r.path and q.mod is r.mod]
                c.ob(bool(aliases), f"{key}: alias", "a second name for the evaluation, resolved at its uses", r.where, undecided=not aliases)
                continue
            if not runs:
                c.ob(False, f"{key}: explained", "runs text no analysed use of the public interface shows to be a table entry: " + ast.unparse(r.stmt)[:200], r.where)
                continue
            judge(c, key, runs, known, r.where)
            continue
        if isinstance(r.node, (ast.Import, ast.ImportFrom)):
            p = E.matches(r.path, [q for q in FORBIDDEN if q.split(".")[0] != "builtins" or q == "builtins"])
            if p and not r.path.startswith(("importlib", "builtins", "code")):
                c.ob(False, f"import of {r.path} in {r.mod.name}", "a module that runs code or programs", r.where)
            continue
        p = E.matches(r.path, FORBIDDEN)
        if p:
            own = r.call is not None and E.matches(r.path, LITERAL) and r.call.args and isinstance(r.call.args[0], ast.Constant)
            reads = r.path.startswith("importlib.") and r.path.split(".")[1] in ("metadata", "resources")
            c.ob(bool(own or reads), f"{r.path} in {r.mod.name}.{r.fn or '<module>'}", "can run code or programs: " + ast.unparse(r.stmt)[:200], r.where)
        elif r.path.startswith("?.") and r.call is not None and r.path[2:] in METHODS:
            own = r.call.args and isinstance(r.call.args[0], ast.Constant)
            c.ob(bool(own), f"{r.path} in {r.mod.name}.{r.fn or '<module>'}", "runs text that is not a literal: " + ast.unparse(r.stmt)[:200], r.where)
        elif E.matches(r.path, NUMPY_PICKLE) and r.call is not None and any(k.arg == "allow_pickle" and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in r.call.keywords):
            c.ob(False, f"{r.path} in {r.mod.name}.{r.fn or '<module>'}", "loads pickled objects", r.where)
        elif r.path == "builtins.getattr" and r.call is not None and len(r.call.args) > 1 and not isinstance(r.call.args[1], ast.Constant):
            base = dotted_base(pkg, r)
            c.ob(base is None, f"getattr in {r.mod.name}.{r.fn or '<module>'}", f"attribute of the module {base} chosen by a value: " + ast.unparse(r.stmt)[:200], r.where)
    # evaluations reached in ways the query does not see
    hit = {(r.mod.rel, ln) for r in pkg.refs if E.matches(r.path, EVAL) for ln in range(r.stmt.lineno, getattr(r.stmt, "end_lineno", r.stmt.lineno) + 1)}
    other = [(w, v) for w, v in executed if w not in hit]
    for w in sorted({w for w, _ in other}):
        judge(c, f"evaluation in {w[0]} ({[v[0] for q, v in other if q == w][0]})", [v for q, v in other if q == w], known, f"{w[0]}:{w[1]}")
    c.ob(n_eval + len(other) > 0 or not texts, "evaluations found", f"{n_eval} references, {len(executed)} executed evaluations", undecided=not executed)
    c.count("evaluation references", n_eval)
    c.count("evaluations executed", len(executed))

    # ------------------------------------------------ the tables
    evaluating = {r.mod.name for r in pkg.refs if E.matches(r.path, EVAL)} | {m for m in pkg.mods if m.startswith("composipy.pre_integrated_component")}
    taken = {k for m in evaluating for k in pkg.globals[m] if k not in ("xi", "eta")}
    for m in sorted(evaluating):
        for name, ts in texts.get(m, {}).items():
            bad = [(t, ln, w) for t, ln in ts for w in [not_arithmetic(t, taken)] if w]
            if bad and len(bad) == len(ts) and all(t.isidentifier() or " " in t for t, _, _ in bad):
                continue        # a table of labels
            c.obs += len(ts) - 1
            c.ok += len(ts) - 1 - len(bad) + (1 if bad else 0)
            for t, ln, w in bad[:5]:
                c.ob(False, f"table {m}.{name}: entry {t[:60]!r}", w, f"{pkg.mods[m].rel}:{ln}")
            if not bad:
                c.ob(True, f"table {m}.{name}", f"{len(ts)} entries are arithmetic on variables")
            c.count("table entries parsed", len(ts))
    # nothing else gets into the tables
    for r in pkg.refs:
        if r.path.rsplit(".", 1)[-1] in [k for d in texts.values() for k in d] and isinstance(r.node, ast.Name):
            up = r.stmt
            tg = up.targets if isinstance(up, ast.Assign) else [up.target] if isinstance(up, ast.AugAssign) else up.targets if isinstance(up, ast.Delete) else []
            writes = [t for t in tg if isinstance(t, ast.Subscript) and any(q is r.node for q in ast.walk(t.value))]
            calls = [q for q in ast.walk(up) if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.value is r.node and q.func.attr in
                     ("update", "setdefault", "__setitem__", "append", "extend", "insert")] if not isinstance(up, (ast.FunctionDef, ast.ClassDef)) else []
            mod, _, name = r.path.rpartition(".")
            if mod in evaluating and name in texts.get(mod, {}) and (writes or calls):
                v = (up.value if writes else calls[0])
                const = all(isinstance(q, (ast.Constant, ast.Dict, ast.Tuple, ast.List, ast.UnaryOp, ast.USub, ast.Load)) for q in ast.walk(v)) if writes else False
                c.ob(const, f"table {r.path}: written in {r.mod.name}.{r.fn or '<module>'}", "an entry that is not a literal: " + ast.unparse(up)[:200], r.where)
    c.modules |= {m.rel for m in pkg.mods.values()}
    return c


def judge(c, key, runs, known, where):
    bad, und = [], []
    for fn, v, label, pc in runs:
        for g, q in (v.alts if isinstance(v, Phi) else ((True, v),)):
            if isinstance(q, Opaque) and q.tag == "tabletext" or isinstance(q, str) and q in known:
                continue
            (und if isinstance(q, Unk) else bad).append((q, label))
    if bad:
        c.ob(False, f"{key}: text", f"runs {show(bad[0][0])}, which is not an entry of a table, in: {bad[0][1]}", where)
    elif und:
        c.ob(False, f"{key}: text", f"{show(und[0][0])} in: {und[0][1]}", where, undecided=True)
    else:
        c.ob(True, f"{key}: text", f"{len(runs)} executions, each of an entry of the library's tables")


def dotted_base(pkg, r):
    """the module a getattr is applied to, if it is one"""
    for q in pkg.refs:
        if r.call is not None and q.node is r.call.args[0]:
            head = q.path.split(".")[0]
            if head not in ("builtins", "?"):
                return q.path
    return None


def lookups(pkg):
    """functions the pre-integrated component offers for evaluating its tables; helpers of theirs are analysed through them"""
    name = "composipy.pre_integrated_component.functions"
    x = Ctx()
    try:
        mod = x.mod(name)
        v, alive, _ = x.it.run(lambda: x.it.iterate(x.it.getattr(mod, "__all__")))
    except (Limit, Broken):
        return []
    if not alive or not isinstance(v, list):
        v = sorted({r.fn for r in pkg.refs if E.matches(r.path, EVAL) and r.fn and "." not in r.fn and r.mod.name == name and not r.fn.startswith("_")})
    return sorted({f"{name}:{n}" for n in v if isinstance(n, str)})


def lookup_call(x, path, other=None):
    try:
        fn = x.get(path)
    except Broken:
        return None
    names = [a.arg for a in fn.node.args.args] if isinstance(fn, V.FnV) and fn.node is not None else []
    args = {1: [(num(3), num(1))], 2: [num(3), sym("xi")], 3: [(num(3), num(1)), sym("xi"), sym("eta")]}.get(len(names))
    if args is None:
        return None
    if other:
        if other[0] >= len(args):
            return None
        args[other[0]] = other[1]
    return x.call(fn, *args)


def texts_in():
    """uses of the public interface with texts where numbers, labels or texts are taken"""
    out = {}

    def add(label, f):
        out[label] = f
    vals = {"a number": lambda: "21.5e-1", "a sum": lambda: "1+1.25", "any text": lambda: V.StrV([(Opaque("input", "text"), "")]), "a name": lambda: "abcdef"}
    for how, tx in vals.items():
        for k in ("e1", "e2", "v12", "g12", "thickness", "t1", "c1", "t2", "c2", "s", "name"):
            def go(x, k=k, tx=tx):
                kw = {n: F.ONE for n in ("e1", "e2", "v12", "g12", "thickness")}
                kw["v12"] = F.const(Q(1, 4))
                m = x.call(x.get(MAT), **{**kw, k: tx()})
                x.attr(m, "Q_0")
                return x.meth(m, "Invariants")
            add(f"{how} as {k}", go)
        for k in ("e", "v", "g", "thickness", "t", "c", "s", "name"):
            def go(x, k=k, tx=tx):
                kw = {"e": F.ONE, "v": F.const(Q(1, 4)), "g": F.ONE, "thickness": F.ONE}
                m = x.call(x.get(ISO), **{**kw, k: tx()})
                return x.attr(m, "Q_0")
            add(f"{how} as {k} of an isotropic material", go)
        for k in ("stacking", "angle", "plies", "xiD", "xiA", "T"):
            def go(x, k=k, tx=tx):
                w = World(x)
                t = tx()
                st = t if k == "stacking" else x.it.new_list([t, F.ZERO]) if k == "angle" else w("angles")
                if k in ("xiD", "xiA", "T"):
                    d = {"xiD": w("xiD"), "xiA": w("xiD"), "T": F.ONE}
                    d[k] = t
                    st = x.it.new_dict(d)
                lam = x.call(x.get(LAM), st, t if k == "plies" else w("p"))
                for a in ("A", "B", "D", "ABD", "xiA", "xiD", "Q_layup", "T_layup"):
                    x.it.run(lambda a=a: x.attr(lam, a))
            add(f"{how} as {k} of a laminate", go)
        for k in ("a", "b", "Nxx", "Nyy", "Nxy", "m", "n", "constraints", "x0", "num_eigvalues", "label", "dproperty"):
            def go(x, k=k, tx=tx):
                w = World(x)
                kw = {"dproperty": w("laminate pq"), "a": F.ONE, "b": F.ONE, "Nxx": F.const(-1), "m": num(2), "n": num(2)}
                if k in ("x0", "label"):
                    kw["constraints"] = x.it.new_dict({e: (tx() if k == "x0" else x.it.new_list([tx()])) if e == "x0" else "PINNED" for e in EDGES})
                elif k != "num_eigvalues":
                    kw[k] = tx()
                p = x.call(x.get(PLATE), **kw)
                x.meth(p, "buckling_analysis", **({"num_eigvalues": tx()} if k == "num_eigvalues" else {}))
                x.meth(p, "calc_K_KG_ABD")
            if (how, k) != ("any text", "constraints"):      # any text against every preset on every edge: too many cases
                add(f"{how} as {k} of a plate", go)
        for k in ("Nxx", "Nyy", "Nxy", "Mxx", "Myy", "Mxy", "dproperty"):
            def go(x, k=k, tx=tx):
                w = World(x)
                kw = {"dproperty": w("laminate pq"), k: tx()}
                o = x.call(x.get(STR), **kw)
                for a in ("epsilon0", "calculate_strain", "calculate_stress", "calculate_maxstressmargin"):
                    x.it.run(lambda a=a: x.meth(o, a))
            add(f"{how} as {k} of a strength analysis", go)
        for k in ("midi", "ti", "sequence", "sout", "pid", "z0"):
            for inl in (False, True):
                def go(x, k=k, tx=tx, inl=inl):
                    kw = {"midi": F.ONE, "ti": F.ONE}
                    sq = x.it.new_list([F.ZERO, F.const(90)])
                    t = x.it.new_list([tx(), tx()]) if inl else tx()
                    if k == "sequence":
                        sq = t
                    else:
                        kw[k] = t
                    return x.call(x.get(CARD), sq, **kw)
                add(f"{how} as {k}{' in a list' if inl else ''} of a card", go)
        add(f"{how} as a stacking text", lambda x, tx=tx: x.call(x.get(SEQ), tx()))
        for f in (MAXB, MINW):
            for k in ("a", "E1", "Nxx", "panel_constraint", "options", "tol", "penalty", "m"):
                def go(x, k=k, tx=tx, f=f):
                    kw = {n: F.ONE for n in ("a", "b", "E1", "E2", "G12")}
                    kw.update({"v12": F.const(Q(1, 4)), "Nxx": F.const(-1), "m": num(2), "n": num(2)})
                    if f == MAXB:
                        kw["T"] = F.ONE
                    kw[k] = tx()
                    return x.call(x.get(f), **kw)
                add(f"{how} as {k} of {f.partition(':')[2]}", go)
    for t in ("[45/-45/(0/90)_2]s", "[2*22/1+1]", "[abc/0]", "[\\pm22.5_2/abc]S"):
        add(f"stacking text {t}", lambda x, t=t: x.call(x.get(SEQ), t))
    return out
