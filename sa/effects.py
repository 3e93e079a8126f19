"""Whole-package queries: the modules the library loads, and every reference in them to an imported or builtin name,
resolved through aliases, scopes and star imports to a dotted path."""
import ast
import builtins
import os
import warnings


class Ref:
    """one reference: dotted path, module, line, enclosing function, and how it is used"""
    __slots__ = ("path", "mod", "node", "fn", "call", "stmt", "bound")

    def __init__(self, path, mod, node, fn, call, stmt, bound):
        self.path, self.mod, self.node, self.fn, self.call, self.stmt, self.bound = path, mod, node, fn, call, stmt, bound

    @property
    def where(self):
        return f"{self.mod.rel}:{self.node.lineno} {self.fn or '<module>'}"


class Mod:
    def __init__(self, name, path, root):
        self.name, self.path, self.rel = name, path, os.path.relpath(path, root)
        with open(path, encoding="utf-8") as f:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.tree = ast.parse(f.read(), path)


class Package:
    """the modules reachable by import from the entry modules"""

    def __init__(self, root, entries, package="composipy"):
        self.root, self.package = root, package
        self.mods, self.external, self.refs, self.globals = {}, set(), [], {}
        todo = list(entries)
        while todo:
            n = todo.pop()
            if n in self.mods:
                continue
            f = self.file(n)
            if f is None:
                continue
            m = self.mods[n] = Mod(n, f, root)
            todo += self.imports(m)
            if "." in n:
                todo.append(n.rsplit(".", 1)[0])
        for n in sorted(self.mods):
            self.globals[n] = self.bindings(self.mods[n], self.mods[n].tree)
        for n in sorted(self.mods):
            Walk(self, self.mods[n]).run()

    def file(self, name):
        p = os.path.join(self.root, *name.split("."))
        for f in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(f):
                return f
        return None

    def base(self, m, node):
        """the absolute module an import statement names"""
        if not node.level:
            return node.module or ""
        parts = m.name.split(".")
        if not m.path.endswith("__init__.py"):
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def imports(self, m):
        out = []
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                out += [a.name for a in n.names]
            elif isinstance(n, ast.ImportFrom):
                b = self.base(m, n)
                out += [b] + [f"{b}.{a.name}" for a in n.names if a.name != "*"]
        for x in out:
            if x.split(".")[0] != self.package:
                self.external.add(x)
        return [x for x in out if x.split(".")[0] == self.package]

    # names bound in a scope: name -> dotted path, or None when it is something else
    def bindings(self, m, scope):
        b, count = {}, {}

        def put(k, v):
            count[k] = count.get(k, 0) + 1
            if k in b and b[k] != v:
                v = None
            b[k] = v

        def imp(n):
            if isinstance(n, ast.Import):
                for a in n.names:
                    put(a.asname or a.name.split(".")[0], a.name if a.asname else a.name.split(".")[0])
            else:
                base = self.base(m, n)
                for a in n.names:
                    if a.name == "*":
                        if base in self.mods:
                            for k in self.exports(base):
                                put(k, f"{base}.{k}")
                        else:
                            for k in star_names(base):
                                put(k, f"{base}.{k}")
                    else:
                        put(a.asname or a.name, f"{base}.{a.name}")
        simple = []
        if isinstance(scope, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = scope.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                put(x.arg, None)

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    put(c.name, f"{m.name}.{c.name}" if scope is m.tree else None)
                    continue
                if isinstance(c, (ast.Lambda,)):
                    continue
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    imp(c)
                if isinstance(c, ast.Assign) and len(c.targets) == 1 and isinstance(c.targets[0], ast.Name) and dotted(c.value):
                    simple.append((c.targets[0].id, c.value))
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    put(c.id, f"{m.name}.{c.id}" if scope is m.tree else None)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    put(c.name, None)
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    for k in c.names:
                        b[k] = Ellipsis
                walk(c)
        if isinstance(scope, ast.Lambda):
            pass
        else:
            for dec in [scope]:
                walk(dec)
        for k, v in simple:
            put(k, v)
        return {k: v for k, v in b.items() if v is not Ellipsis}

    def exports(self, name, seen=()):
        """names a star import takes"""
        if name in seen or name not in self.mods:
            return set()
        m = self.mods[name]
        allv, pub = set(), set()
        has_all = False
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                pub.add(s.name)
            elif isinstance(s, ast.Import):
                pub |= {(a.asname or a.name.split(".")[0]) for a in s.names}
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == "*":
                        pub |= self.exports(self.base(m, s), seen + (name,))
                    else:
                        pub.add(a.asname or a.name)
            for t in ast.walk(s):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    pub.add(t.id)
            tgt = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AugAssign) else []
            if any(isinstance(t, ast.Name) and t.id == "__all__" for t in tgt) and isinstance(s.value, (ast.List, ast.Tuple)):
                has_all = True
                allv |= {e.value for e in s.value.elts if isinstance(e, ast.Constant)}
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and dotted(s.value.func) and ast.unparse(s.value.func).startswith("__all__."):
                for a in s.value.args:
                    if isinstance(a, (ast.List, ast.Tuple)):
                        allv |= {e.value for e in a.elts if isinstance(e, ast.Constant)}
                    elif isinstance(a, ast.Constant):
                        allv.add(a.value)
        return allv if has_all else {k for k in pub if not k.startswith("_")}

    def final(self, path, seen=()):
        """follow re-exports and module-level aliases to where a dotted path is defined"""
        if path in seen:
            return path
        head, rest = path, []
        while head and head not in self.mods:
            head, _, t = head.rpartition(".")
            rest.insert(0, t)
        if head not in self.mods or not rest:
            return path
        g = self.globals.get(head, {})
        v = g.get(rest[0])
        if isinstance(v, ast.AST):
            v = self.resolve_expr(v, [g], seen + (path,))
        if v is None or v == f"{head}.{rest[0]}":
            return path
        return self.final(".".join([v] + rest[1:]), seen + (path,))

    def resolve_expr(self, node, scopes, seen=()):
        """dotted path of a name or attribute chain, through the enclosing scopes; None when it is a local value"""
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(node.value, scopes, seen)
            return None if b is None else self.final(f"{b}.{node.attr}", seen)
        if not isinstance(node, ast.Name):
            return None
        for i in range(len(scopes) - 1, -1, -1):
            if node.id in scopes[i]:
                v = scopes[i][node.id]
                if v is None:
                    return None
                if isinstance(v, ast.AST):
                    if (i, node.id) in seen:
                        return None
                    return self.resolve_expr(v, scopes[:i + 1], seen + ((i, node.id),))
                return self.final(v, seen)
        if hasattr(builtins, node.id):
            return f"builtins.{node.id}"
        return None


def dotted(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


def star_names(base):
    """what `from base import *` brings in, for libraries outside the package: the names that matter to the queries"""
    return {"os": ("system", "popen", "environ", "getenv", "putenv", "remove", "chdir"), "subprocess": ("run", "Popen", "call", "check_output", "check_call"),
            "random": ("random", "seed", "uniform", "randint"), "time": ("time", "sleep", "perf_counter")}.get(base, ())


class Walk(ast.NodeVisitor):
    def __init__(self, pkg, m):
        self.pkg, self.m = pkg, m
        self.scopes = [pkg.globals[m.name]]
        self.fn = []
        self.stmt = None

    def run(self):
        self.body(self.m.tree)

    def body(self, n):
        for c in ast.iter_child_nodes(n):
            self.go(c, None)

    def go(self, n, parent):
        old = self.stmt
        if isinstance(n, ast.stmt):
            self.stmt = n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(n, "decorator_list", []):
                self.go(d, n)
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                self.go(d, n)
            if isinstance(n, ast.Lambda):
                sc = {a.arg: None for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
                self.scopes.append(sc)
                self.go(n.body, n)
                self.scopes.pop()
            else:
                self.scopes.append(self.pkg.bindings(self.m, n))
                self.fn.append(n.name)
                for c in n.body:
                    self.go(c, n)
                self.fn.pop()
                self.scopes.pop()
        elif isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.go(d, n)
            self.fn.append(n.name)
            for c in n.body:
                self.go(c, n)
            self.fn.pop()
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            sc = {}
            for g in n.generators:
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name):
                        sc[t.id] = None
            self.scopes.append(sc)
            for c in ast.iter_child_nodes(n):
                self.go(c, n)
            self.scopes.pop()
        elif isinstance(n, (ast.Name, ast.Attribute)) and dotted(n) and not (isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)):
            p = self.pkg.resolve_expr(n, self.scopes)
            if p is not None:
                call = isinstance(parent, ast.Call) and parent.func is n
                bound = isinstance(parent, ast.Assign) and parent.value is n and all(isinstance(t, ast.Name) for t in parent.targets)
                self.pkg.refs.append(Ref(p, self.m, n, ".".join(self.fn), parent if call else None, self.stmt, bound))
                # prefixes of a chain resolve with it
            elif isinstance(n, ast.Attribute):
                call = isinstance(parent, ast.Call) and parent.func is n
                self.pkg.refs.append(Ref(f"?.{n.attr}", self.m, n, ".".join(self.fn), parent if call else None, self.stmt, False))
                self.go(n.value, n)
        else:
            if isinstance(n, ast.Attribute):
                call = isinstance(parent, ast.Call) and parent.func is n
                self.pkg.refs.append(Ref(f"?.{n.attr}", self.m, n, ".".join(self.fn), parent if call else None, self.stmt, False))
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    base = a.name if isinstance(n, ast.Import) else f"{self.pkg.base(self.m, n)}.{a.name}"
                    self.pkg.refs.append(Ref(base, self.m, n, ".".join(self.fn), None, self.stmt, True))
            for c in ast.iter_child_nodes(n):
                self.go(c, n)
        self.stmt = old


def matches(path, pats):
    """the first pattern (dotted, trailing .* for anything below) a path falls under"""
    for p in pats:
        if p.endswith(".*"):
            if path == p[:-2] or path.startswith(p[:-1]):
                return p
        elif path == p:
            return p
    return None
