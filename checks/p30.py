"""P30: results are reproducible; analyses have no hidden effects on the process or the libraries."""
import ast
from checks.p28 import *
from checks.p29 import ENTRIES
from checks import plate
from sa import effects as E

RANDOM = ("random.*", "secrets.*", "uuid.*", "numpy.random.*", "os.urandom", "os.getrandom", "scipy.stats.*", "numpy.empty", "numpy.empty_like")
RANDOM_OK = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.SeedSequence", "numpy.random.MT19937", "numpy.random.Philox",
             "numpy.random.SFC64", "random.Random", "uuid.UUID", "uuid.uuid5", "uuid.uuid3")
SEEDED = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.PCG64", "numpy.random.SeedSequence", "numpy.random.MT19937", "numpy.random.Philox", "numpy.random.SFC64",
          "random.Random")
CLOCK = ("time.*", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "os.times", "timeit.*", "resource.*")
ENVIRONMENT = ("os.environ.*", "os.environb.*", "os.getenv", "os.putenv", "os.getcwd", "os.chdir", "os.getpid", "os.getlogin", "os.getuid", "os.listdir", "os.scandir", "os.walk", "os.cpu_count",
               "os.getloadavg", "os.umask", "os.stat", "os.path.exists", "os.path.isfile", "os.path.getmtime", "platform.*", "socket.*", "getpass.*", "pwd.*", "sys.argv", "sys.stdin.*", "sys.flags",
               "sys.modules.*", "glob.*", "threading.get_ident", "threading.current_thread", "locale.*", "urllib.*", "http.*", "requests.*", "psutil.*", "multiprocessing.current_process",
               "sys.getrefcount", "builtins.input")
WRITES = ("builtins.open", "io.open", "os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.write", "os.open", "os.truncate", "os.symlink", "os.link",
          "os.chmod", "os.kill", "os._exit", "os.abort", "os.fork", "shutil.*", "tempfile.*", "pathlib.*", "numpy.save", "numpy.savez", "numpy.savez_compressed", "numpy.savetxt", "numpy.memmap",
          "numpy.loadtxt", "numpy.genfromtxt", "numpy.fromfile", "numpy.load", "pandas.read_csv", "pandas.read_excel", "pandas.read_json", "pandas.to_pickle", "scipy.io.*", "csv.*", "json.dump",
          "sqlite3.*", "h5py.*", "matplotlib.pyplot.savefig", "matplotlib.pyplot.imsave", "logging.FileHandler", "zipfile.*", "tarfile.*", "gzip.*", "codecs.open", "builtins.exit", "builtins.quit", "sys.exit")
SETTINGS = ("numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "numpy.set_printoptions", "numpy.set_string_function", "pandas.set_option", "pandas.reset_option", "pandas.set_eng_float_format",
            "matplotlib.use", "matplotlib.rc", "matplotlib.rcdefaults", "matplotlib.rcParams.*", "matplotlib.interactive", "matplotlib.pyplot.rc", "matplotlib.pyplot.rcParams.*", "matplotlib.pyplot.ion",
            "matplotlib.pyplot.ioff", "matplotlib.pyplot.switch_backend", "matplotlib.style.*", "matplotlib.pyplot.style.*", "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings",
            "logging.basicConfig", "logging.disable", "logging.root.*", "sys.setrecursionlimit", "sys.setswitchinterval", "sys.path.*", "sys.stdout", "sys.stderr", "sys.excepthook", "sys.displayhook",
            "sys.set_int_max_str_digits", "sys.tracebacklimit", "decimal.getcontext", "decimal.setcontext", "gc.*", "signal.*", "atexit.*", "faulthandler.*", "builtins.globals", "mkl.*", "threadpoolctl.*",
            "locale.setlocale", "pandas.options.*", "scipy.fft.set_workers", "scipy.linalg.set_backend", "numpy.random.seed", "random.seed")
REPORT = ("builtins.print", "sys.stdout.*", "sys.stderr.*", "pprint.*", "logging.*", "tqdm.*")
WRITERS = ("to_csv", "to_excel", "to_json", "to_pickle", "to_hdf", "to_parquet", "to_feather", "to_sql", "to_latex", "to_html", "to_clipboard", "tofile", "dump", "savefig", "write_text", "write_bytes",
           "unlink", "rmdir", "mkdir", "touch")
SOLVERS = ("scipy.sparse.linalg.eigs", "scipy.sparse.linalg.eigsh", "scipy.sparse.linalg.svds", "scipy.optimize.differential_evolution", "scipy.optimize.dual_annealing", "scipy.optimize.basinhopping",
           "scipy.optimize.shgo")
SCOPED = ("numpy.errstate", "numpy.printoptions", "pandas.option_context", "warnings.catch_warnings", "matplotlib.rc_context", "matplotlib.pyplot.rc_context", "contextlib.redirect_stdout")

# what the documentation says is reported: event root -> contexts in which it may occur
QUIET, LOUD, PLOT = "quiet", "reporting asked for", "plotting"


def event_kind(e):
    """(kind, text) of an effect of an analysed path, or None if it is none"""
    n = e.name
    if n in ("scipy.sparse.linalg.eigsh", "scipy.sparse.linalg.eigs", "scipy.linalg.eigh", "scipy.linalg.eig", "numpy.linalg.eig", "numpy.linalg.eigh", "scipy.optimize.minimize", "with", "warnings.warn"):
        return None
    args = ", ".join(a if isinstance(a, str) and n == "nondeterminism" else repr(a) if isinstance(a, str) else show(a, 60) for a in e.args)
    if n == "nondeterminism":
        return "nondeterminism", args
    if n == "print":
        return "print", "print"
    if n.startswith("sys.stdout") or n.startswith("sys.stderr") or n.startswith("logging.") or "getLogger" in n:
        return "print", n
    if E.matches(n, CLOCK):
        return "clock", n
    if n.startswith(("matplotlib.", "mpl_toolkits.")) or n.startswith("call <") and "matplotlib" in n:
        return ("setting", f"{n}({args})") if E.matches(n, SETTINGS) else ("plot", n)
    if n in ("store", "set attribute"):
        base = M.opaque_path(e.args[0]) if isinstance(e.args[0], Opaque) else getattr(e.args[0], "path", repr(e.args[0]))
        return ("plot", f"{n} of {base}") if "matplotlib" in base else ("setting", f"{n} of {base}: {show(e.args[1], 60)}") if isinstance(e.args[0], V.Ext) or "ext" in repr(getattr(e.args[0], "tag", "")) else None
    if n == "builtins.call":
        return "file or interpreter", args or n
    if n.startswith("call "):
        return None if not n.startswith("call <") else ("library call", n)
    if E.matches(n, SETTINGS) or n.startswith(("numpy.", "pandas.", "warnings.", "gc.")):
        return "setting", f"{n}({args})"
    if n.startswith("os."):
        return "file or environment", f"{n}({args})"
    if n.startswith("sys."):
        return "interpreter", f"{n}({args})"
    return None


ALLOWED = {QUIET: (), LOUD: ("print", "clock"), PLOT: ("print", "plot", "library call")}


def reporting():
    """label -> (mode, program, the quiet program of the same result)"""
    out = {}

    def buckle(**kw):
        return lambda w, x: x.meth(w("plate edges"), "buckling_analysis", num_eigvalues=num(2), **kw)
    out["buckling_analysis(silent=False)"] = (LOUD, buckle(silent=False), buckle())
    out["buckling_analysis(silent=True)"] = (QUIET, buckle(silent=True), buckle())

    def loud_plate(w, x):
        x.meth(w("plate"), "buckling_analysis", silent=False, num_eigvalues=num(3))
        return (x.attr(w("plate"), "eigenvalue"), x.attr(w("plate"), "eigenvector"))

    def quiet_plate(w, x):
        x.meth(w("plate"), "buckling_analysis", num_eigvalues=num(3))
        return (x.attr(w("plate"), "eigenvalue"), x.attr(w("plate"), "eigenvector"))
    out["modes after buckling_analysis(silent=False)"] = (LOUD, loud_plate, quiet_plate)
    out["plot_eigenvalue()"] = (PLOT, lambda w, x: x.meth(w("plate edges"), "plot_eigenvalue", ngridx=num(3), ngridy=num(2)), None)
    for pen in (True, False):
        def opt(plot, pen=pen):
            def f(w, x):
                par = {k: F.const(v) for k, v in (("a", 2), ("b", 3), ("T", 1), ("E1", 60), ("E2", 50), ("v12", Q(1, 4)), ("G12", 5))}
                kw = {"plot": True, "points_to_plot": num(3)} if plot else {}
                return x.call(x.get(MAXB), **par, Nxx=F.const(-1), m=num(2), n=num(2), penalty=pen, **kw)
            return f
        out[f"maximize_buckling_load(plot=True, penalty={pen})"] = (PLOT, opt(True), opt(False))
    return out


def check():
    c = Check("P30", "effects recorded by abstract interpretation of every public read and call (reporting off, reporting asked for, plotting), classified by what they touch; equality of the symbolic "
              "results with and without reporting and under both iteration orders of sets of text; and a query over every module the library loads for references (through aliases, attribute "
              "chains and star imports) to clocks, unseeded randomness, environment, files and library settings: a reference must be one whose execution the interpretation has judged")
    c.min_obs = 150
    pkg = E.Package(REPO, ENTRIES)
    c.count("modules queried", len(pkg.mods))
    c.count("references resolved", len(pkg.refs))
    clocks = []
    ran = {}        # (file, line) -> kinds of effects judged there
    allow = (lambda st, e: "Arpack" in repr(e))

    def effects(x, label, mode, n0=0):
        bad = 0
        for e in x.it.events[n0:]:
            f, _, ln = e.where.rpartition(":")
            ran.setdefault((f, int(ln) if ln.isdigit() else 0), set()).add(e.name)
            k = event_kind(e)
            if k is None or k[0] in ALLOWED[mode] or e.pc is False:
                continue
            if k[0] == "clock" and k[1] in M.CLOCKS:
                clocks.append(e)        # judged by what becomes of the time
                continue
            bad += 1
            c.ob(False, f"{label.rpartition('.')[2]}: {k[0]}: {k[1]}"[:300], f"on the path {G.show(e.pc)[:200]}", f"{e.where} in {e.fn}")
        if not bad:
            c.ob(True, f"{label}: effects", f"{len(x.it.events) - n0} library events, none beyond those documented")

    def one(label, f, mode=QUIET, reverse=False, clock=0):
        x = Ctx()
        x.it.reverse_sets = reverse
        x.it.clock = clock
        w = World(x)
        v, alive, exc = c.run(x, label, lambda: (snap(x, f(w, x)),), allowed=allow)
        effects(x, label, mode)
        return x, (v[0] if isinstance(v, tuple) else None)

    # ------------------------------------------------ imports
    for k in ENTRIES:
        x = Ctx()
        c.run(x, f"import {k}", lambda: x.mod(k) and None)
        effects(x, f"import {k}", QUIET)

    # ------------------------------------------------ every public use
    for gname, obs in GROUPS.items():
        for n, f in obs.items():
            clocks.clear()
            try:
                x, a = one(n, f)
                if clocks:
                    e = clocks[0]
                    x2, b = one(n, f, clock=1)
                    d = differ(x2, b, a)
                    c.ob(not d, f"{n}: independent of the time of day", "; ".join(d[:2]), f"{e.where} in {e.fn}")
                    c.count("results compared at two times of day")
                sets = x.it.sets_of_text
                if sets:
                    x2, b = one(n, f, reverse=True)
                    d = differ(x, b, a)
                    c.ob(not d, f"{n}: independent of the order of sets", "; ".join(d[:2]), where_obs(x2, World(x2), n))
                    c.count("results compared under both orders of a set")
                rnd = [q for q in atoms_of(a) if q.kind == "rand" and q.args and q.args[0] == "global"]
                c.ob(not rnd, f"{n}: no random part", f"{rnd[:1]}")
            except Skip:
                pass
    for n, f in BAD.items():
        x = Ctx()
        try:
            w = World(x)
            x.it.run(lambda: f(w, x))
            effects(x, n, QUIET)
            c.use(x, n)
        except Limit as e:
            c.ob(False, n, f"analysis limit: {e}", undecided=True)
    # ------------------------------------------------ large plates, matrices given
    def big(x, label, P):
        n0 = len(x.it.events)
        c.run(x, label, lambda: x.meth(P.ref, "buckling_analysis"), allowed=allow)
        effects(x, f"buckling_analysis(), {label}", QUIET, n0)
        c.run(x, label, lambda: x.meth(P.ref, "buckling_analysis", num_eigvalues=num(30)), allowed=allow)
        effects(x, f"buckling_analysis(num_eigvalues=30), {label}", QUIET, n0)
    plate.large(c, plate.LARGE if THOROUGH else plate.LARGE[1:3], big)
    # ------------------------------------------------ reporting changes nothing
    for label, (mode, f, quiet) in reporting().items():
        try:
            x, a = one(label, f, mode)
            if quiet is not None:
                _, b = one(f"{label}, quiet", quiet)
                d = differ(x, a, b)
                c.ob(not d, f"{label}: result as without reporting", "; ".join(d[:2]), where_obs(x, World(x), label))
        except Skip:
            pass

    # ------------------------------------------------ references anywhere in the library
    judged = 0
    for r in pkg.refs:
        p = r.path
        if isinstance(r.node, (ast.Import, ast.ImportFrom)):
            continue
        key = f"{p} in {r.mod.name}.{r.fn or '<module>'}"
        text = ast.unparse(r.stmt).split("\n")[0][:160]
        lo, hi = r.stmt.lineno, getattr(r.stmt, "end_lineno", r.stmt.lineno)
        seen = any((r.mod.rel, ln) in ran for ln in range(lo, hi + 1)) and not isinstance(r.stmt, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.With, ast.Try)) 
        if isinstance(r.node, ast.Attribute) and isinstance(r.node.ctx, ast.Store):
            root = p.split(".")[0]
            if root not in ("?", pkg.package, "builtins"):
                c.ob(False, key, f"changes an attribute of a library: {text}", r.where)
            continue
        if E.matches(p, RANDOM_OK):
            if E.matches(p, SEEDED) and r.call is not None:
                a = r.call.args[0] if r.call.args else next((k.value for k in r.call.keywords if k.arg in ("seed", "x")), None)
                ok = a is not None and not (isinstance(a, ast.Constant) and a.value is None)
                c.ob(ok, key, f"random numbers without a fixed seed: {text}", r.where)
            continue
        hit = next(((k, q) for k, pats in (("randomness", RANDOM), ("library or interpreter setting", SETTINGS), ("environment or process state", ENVIRONMENT), ("files or processes", WRITES))
                    for q in [E.matches(p, pats)] if q), None)
        if hit is None and p.startswith("?.") and p[2:] in WRITERS and r.call is not None:
            hit = ("files or processes", p)
        if hit is not None:
            judged += 1
            if E.matches(p, ("numpy.empty", "numpy.empty_like")):
                continue            # contents are tracked by the interpretation
            if seen and hit[0] == "library or interpreter setting":
                c.ob(True, key, "executed in the interpretation, judged there")
                continue
            if hit[0] == "library or interpreter setting" and p.startswith("warnings.") and within(r, pkg, "warnings.catch_warnings"):
                c.ob(True, key, "inside catch_warnings, undone on exit")
                continue
            if p in ("sys.stdout", "sys.stderr", "sys.stdout.*", "sys.stderr.*") and not stored(r):
                continue
            c.ob(False, key, f"{hit[0]}: {text}", r.where)
            continue
        if E.matches(p, SOLVERS) and r.call is not None:
            need = "v0" if ".sparse." in p else "seed"
            ok = any(k.arg in (need, "rng") or k.arg is None for k in r.call.keywords) or seen or p.endswith("shgo")
            c.ob(ok, key, f"starts from random numbers: {text}", r.where)
        if p == "builtins.id" and r.call is not None:
            use = keyed(r)
            c.ob(use is None, key, f"kept under the address of an object, which is used again after the object is gone: {use}", r.where)
        if E.matches(p, REPORT + CLOCK) and r.call is not None:
            c.count("reporting statements")
            # module level statements run at import
            if not r.fn:
                c.ob(False, key, f"reports when the library is imported: {text}", r.where)
    c.count("references to effects", judged)
    c.ob(len(pkg.refs) > 300, "references resolved", f"{len(pkg.refs)} in {len(pkg.mods)} modules", undecided=len(pkg.refs) <= 300)
    c.modules |= {m.rel for m in pkg.mods.values()}
    c.assumptions.append("warnings issued with warnings.warn and drawing in functions asked to plot are documented reporting; names of materials counted when none is given are labels, not results")
    return c


def stored(r):
    return isinstance(r.stmt, (ast.Assign, ast.AugAssign)) and any(t is r.node for t in (r.stmt.targets if isinstance(r.stmt, ast.Assign) else [r.stmt.target]))


def within(r, pkg, path):
    """the reference lies in a with statement of the given context manager"""
    for q in pkg.refs:
        if q.path == path and q.mod is r.mod and isinstance(q.stmt, (ast.With,)) and q.stmt.lineno <= r.node.lineno <= q.stmt.end_lineno:
            return True
    return False


def keyed(r):
    """where an address ends up as the key of something that outlives the call"""
    fn = next((f for f in ast.walk(r.mod.tree) if isinstance(f, (ast.FunctionDef, ast.Lambda)) and f.lineno <= r.node.lineno <= f.end_lineno and f is not r.stmt), None)
    if fn is None:
        return None
    local = {t.id for s in ast.walk(fn) for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} | (
        {a.arg for a in fn.args.args} if True else set())
    tainted = set()
    call = r.call

    def has(n):
        return any(q is call or isinstance(q, ast.Name) and q.id in tainted and isinstance(q.ctx, ast.Load) for q in ast.walk(n))
    for _ in range(3):
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and has(s.value):
                tainted |= {t.id for t in s.targets if isinstance(t, ast.Name)}

    def lasting(b):
        while isinstance(b, (ast.Subscript,)):
            b = b.value
        return isinstance(b, ast.Attribute) or isinstance(b, ast.Name) and b.id not in local
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and has(n.slice) and lasting(n.value):
            return ast.unparse(n)
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops) and has(n.left) and any(lasting(q) for q in n.comparators):
            return ast.unparse(n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault", "add", "pop") and n.args and has(n.args[0]) and lasting(n.func.value):
            return ast.unparse(n)
    return None


def atoms_of(v):
    if isinstance(v, Form):
        return v.atoms()
    if isinstance(v, Phi):
        return [a for _, q in v.alts for a in atoms_of(q)]
    if isinstance(v, np.ndarray):
        return [a for q in v.reshape(-1) for a in atoms_of(q)]
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict):
        return [a for q in v[1].values() for a in atoms_of(q)]
    if isinstance(v, (tuple, list)):
        return [a for q in v for a in atoms_of(q)]
    return []
