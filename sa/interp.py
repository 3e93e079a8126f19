"""Abstract interpreter over the Python syntax tree of the repository.

Flow-sensitive, joined at merges (guarded values, never path enumeration),
interprocedural by inlining.  Loops over sequences of unknown length are
summarised by solving their recurrences (see loops.py).
"""
import ast
import builtins
import os
import numpy as np
from . import forms as F
from . import guards as G
from . import values as V
from .values import *   # noqa
from .forms import Form
from . import pycls


class Dead(Exception):
    """no execution continues past this point"""


Limit = G.Limit


class State:
    __slots__ = ("heap", "pc", "frame")

    def __init__(self, heap, pc, frame):
        self.heap, self.pc, self.frame = heap, pc, frame

    def clone(self, pc=None):
        return State(dict(self.heap), self.pc if pc is None else pc, self.frame)


class Event:
    """an effect on the world outside the analysed objects"""
    __slots__ = ("name", "args", "kwargs", "pc", "where", "fn", "state")

    def __init__(self, name, args, kwargs, pc_, where, fn):
        self.name, self.args, self.kwargs, self.pc, self.where, self.fn = name, args, kwargs, pc_, where, fn
        self.state = None

    def __repr__(self):
        return f"{self.name}{self.args} at {self.where}"


PY_EXC = {n: getattr(builtins, n) for n in dir(builtins)
          if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
PY_TYPES = {n: getattr(builtins, n) for n in ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset",
                                              "object", "type", "complex", "bytes", "slice", "property", "range")}


class Interp:
    def __init__(self, root, package="composipy"):
        self.root = root
        self.package = package
        self.st = State({}, True, None)
        self.next_addr = 1
        self.modules = {}
        self.exc_sinks = [[]]
        self.ret_sinks = []
        self.loop_sinks = []
        self.events = []
        self.writes = []          # (addr, where, function, pc)
        self.watch = set()        # addrs whose writes are recorded
        self.stack = []           # (FnV, call node)
        self.functions_seen = {}  # qualname -> call count
        self.notes = []
        self.cur_node = None
        self.cur_mod = None
        self.captured = set()
        self.unks = {}
        self.steps = 0
        self.max_steps = 30_000_000
        self.load_log = []
        self.overrides = {}       # qualname or ext path -> python function(it, args, kwargs)
        self.loop_hook = None
        self.classify_tables = True
        self.eval_sites = []      # (where, fn, evaluated text, path condition)
        self.sets_of_text = 0     # sets of texts iterated
        self.reverse_sets = False # iterate sets of texts in the opposite order
        self.readonly = set()        # dictionaries whose changes would have effects which are not followed
        self.clock = 0               # what is added to every time of day read
        self.cm_hook = None       # what the yield of a generator used as context manager runs
        V.IT[0] = self
        from . import models
        self.models = models
        self.load_shim()

    def load_shim(self):
        """the library functions which are described in the language itself"""
        self.shim = {}
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.py")
        fr = self.alloc({"__name__": "shim", "__file__": path})
        mod = ModV("shim", fr.a, path)
        mod.is_pkg = False
        mod.tree = _shim_tree(path)
        self.st.frame, self.cur_mod = fr.a, mod
        self.captured.add(fr.a)
        self.exec_block(mod.tree.body)
        self.st.frame, self.cur_mod, self.cur_node = None, None, None
        for k, v in self.st.heap[fr.a].items():
            if isinstance(v, (FnV, ClassV)):
                self.shim[k.replace("__", ".")] = v

    # ------------------------------------------------------------ heap
    def alloc(self, cell):
        a = self.next_addr
        self.next_addr += 1
        self.st.heap[a] = cell
        return Ref(a)

    def cell(self, ref):
        c = self.st.heap[ref.a]
        if c.__class__ is V.InstDict:
            return V.DictC(dict(self.st.heap[c.owner].attrs))
        return c

    def put(self, ref, cell, note=True):
        old = self.st.heap.get(ref.a)
        if old.__class__ is V.InstDict and cell.__class__ is V.DictC:
            owner = self.st.heap[old.owner]
            self.put(Ref(old.owner), V.ObjC(owner.cls, dict(cell.d)), note)
            return
        if note and ref.a in self.watch:
            self.writes.append((ref.a, self.where(), self.cur_fn(), self.st.pc))
        self.st.heap[ref.a] = cell

    def new_list(self, items):
        return self.alloc(ListC(items))

    def new_dict(self, d=None, kind="dict"):
        return self.alloc(DictC(dict(d or {}), kind))

    def new_arr(self, a):
        return self.alloc(ArrC(a))

    def where(self, node=None):
        n = node if node is not None else self.cur_node
        m = self.cur_mod
        return f"{os.path.relpath(m.path, self.root) if m is not None and m.path else '?'}:{getattr(n, 'lineno', '?')}"

    def cur_fn(self):
        return self.stack[-1][0].qualname if self.stack else "<module>"

    def unk(self, reason):
        u = Unk(f"{reason} (in {self.cur_fn()} at {self.where()})")
        self.unks[u.reason] = self.unks.get(u.reason, 0) + 1
        return u

    # ------------------------------------------------------------ control helpers
    def raise_exc(self, cls, *args, guard=True):
        """raise under guard; execution continues under its negation"""
        if isinstance(cls, str):
            cls = Builtin(cls, PY_EXC[cls])
        g = G.AND(self.st.pc, guard)
        if g is not False:
            s = self.st.clone(g)
            e = ExcV(cls, args)
            e.where, e.fn = self.where(), self.cur_fn()
            self.exc_sinks[-1].append((s, e))
        rest = G.AND(self.st.pc, G.NOT(guard))
        if rest is False:
            raise Dead()
        self.st.pc = rest

    def raise_ext(self, cls, *args, guard=True):
        """raise an exception of a library class under guard"""
        g = G.AND(self.st.pc, guard)
        if g is not False:
            s = self.st.clone(g)
            e = ExcV(cls, args)
            e.where, e.fn = self.where(), self.cur_fn()
            self.exc_sinks[-1].append((s, e))
        rest = G.AND(self.st.pc, G.NOT(guard))
        if rest is False:
            raise Dead()
        self.st.pc = rest

    def fork_join(self, alts):
        """alts: [(guard, thunk)] with disjoint guards; runs each on its own copy of the state and joins"""
        base = self.st
        done = []
        live = [(g, th) for g, th in alts if G.AND(base.pc, g) is not False]
        if len(live) == 1 and G.implies(base.pc, live[0][0]):
            return live[0][1]()
        for g, th in live:
            self.st = base.clone(G.AND(base.pc, g))
            try:
                v = th()
            except Dead:
                continue
            done.append((self.st, v))
        if not done:
            self.st = base
            raise Dead()
        return self.join(done)

    def join(self, done):
        """join [(state, value)] into self.st; returns the joined value"""
        if len(done) == 1:
            self.st = done[0][0]
            return done[0][1]
        states = [s for s, _ in done]
        p = G.OR(*[s.pc for s in states])
        heap = {}
        out = State(heap, p, states[0].frame)
        self.st = out
        keys = {}
        for s in states:
            for k in s.heap:
                keys[k] = None
        first = states[0].heap
        for k in keys:
            c0 = first.get(k)
            if all(s.heap.get(k) is c0 for s in states[1:]):
                heap[k] = c0
                continue
            have = [(s.pc, s.heap[k]) for s in states if k in s.heap]
            heap[k] = self.join_cells(have) if len(have) > 1 else have[0][1]
        vals = [(s.pc, v) for s, v in done]
        return mk_phi(vals) if any(v is not vals[0][1] for _, v in vals[1:]) else vals[0][1]

    def join_cells(self, have):
        c0 = have[0][1]
        if all(c is c0 for _, c in have[1:]):
            return c0
        if any(type(c) is not type(c0) for _, c in have):
            return Unk("cells of different kinds merged")
        if isinstance(c0, dict):            # frame
            return self._join_maps([(g, c) for g, c in have])
        if isinstance(c0, ObjC):
            if any(c.cls is not c0.cls for _, c in have):
                return Unk("objects of different classes merged")
            return ObjC(c0.cls, self._join_maps([(g, c.attrs) for g, c in have]))
        if isinstance(c0, DictC):
            return DictC(self._join_maps([(g, c.d) for g, c in have]), c0.kind)
        if isinstance(c0, ListC):
            return self._join_lists(have)
        if isinstance(c0, ArrC) or isinstance(c0, SeriesC):
            from . import pandas_
            if any(c.a.shape != c0.a.shape for _, c in have):
                return Unk("arrays of different shapes merged")
            a = np.empty(c0.a.shape, dtype=object)
            for i in np.ndindex(*c0.a.shape):
                a[i] = mk_phi([(g, c.a[i]) for g, c in have])
            if isinstance(c0, SeriesC) and any(not pandas_.same_index(c0, c) for _, c in have[1:]):
                return Unk("series of different labels merged")
            return ArrC(a) if isinstance(c0, ArrC) else SeriesC(a, c0.name, c0.index)
        if isinstance(c0, FrameDFC):
            from . import pandas_
            if any(not pandas_.same_index(c0, c) for _, c in have[1:]):
                return Unk("tables of different labels merged")
            return FrameDFC(self._join_maps([(g, c.cols) for g, c in have]), c0.index)
        if isinstance(c0, SetC):
            keys = {}
            for g, c in have:
                for k, pg in c.d.items():
                    keys[k] = G.OR(keys.get(k, False), G.AND(g, pg))
            p = G.OR(*[g for g, _ in have])
            return SetC({k: (True if G.implies(p, g) else g) for k, g in keys.items()}, c0.frozen)
        if isinstance(c0, CounterC):
            return CounterC(mk_phi([(g, c.cur) for g, c in have]), c0.step)
        if isinstance(c0, IterC):
            if all(len(c.items) == len(c0.items) and all(identical(x, y) for x, y in zip(c.items, c0.items)) for _, c in have):
                return c0
            return Unk("iterators merged")
        return Unk(f"cannot merge {type(c0).__name__}")

    def _join_maps(self, have):
        keys = {}
        for _, d in have:
            for k in d:
                keys[k] = None
        out = {}
        for k in keys:
            vals = [(g, d.get(k, UNDEF)) for g, d in have]
            v0 = vals[0][1]
            if all(v is v0 for _, v in vals[1:]):
                out[k] = v0
            elif any(isinstance(v, np.ndarray) for _, v in vals):
                if all(isinstance(v, np.ndarray) and v.shape == v0.shape for _, v in vals):
                    a = np.empty(v0.shape, dtype=object)
                    for i in np.ndindex(*v0.shape):
                        a[i] = mk_phi([(g, v[i]) for g, v in vals])
                    out[k] = a
                else:
                    out[k] = Unk("columns of different lengths merged")
            else:
                out[k] = mk_phi(vals)
        return out

    def _join_lists(self, have):
        n = len(have[0][1].items)
        if all(len(c.items) == n for _, c in have):
            plain = not any(isinstance(x, (Gitem,)) or self.is_part(x) for _, c in have for x in c.items)
            if plain:
                return ListC([mk_phi([(g, c.items[i]) for g, c in have]) for i in range(n)])
        acc_g, acc = have[0][0], [(G.AND(have[0][0], x.g) if isinstance(x, Gitem) else have[0][0], x.v if isinstance(x, Gitem) else x)
                                  for x in have[0][1].items]
        for g, c in have[1:]:
            new = [(G.AND(g, x.g) if isinstance(x, Gitem) else g, x.v if isinstance(x, Gitem) else x) for x in c.items]
            acc = _lcs_merge(acc, new)
            acc_g = G.OR(acc_g, g)
        items = []
        for g, v in acc:
            if G.implies(acc_g, g):
                items.append(v)
            elif self.is_part(v):
                return Unk("summarised sequences under different guards merged")
            else:
                items.append(Gitem(G.restrict(g, acc_g), v))
        return ListC(items)

    @staticmethod
    def is_part(x):
        return getattr(x, "is_part", False)

    # ------------------------------------------------------------ modules
    def module_file(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        return None, False

    def in_repo(self, name):
        return name.split(".")[0] == self.package

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.module_file(name)
        if path is None:
            raise Limit(f"module {name} not found")
        src = open(path, encoding="utf-8").read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
        fr = self.alloc({"__name__": name, "__file__": path})
        mod = ModV(name, fr.a, path)
        mod.is_pkg = is_pkg
        mod.tree = tree
        self.modules[name] = mod
        self.load_log.append(name)
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            self.set_frame(self.modules[parent].frame, leaf, mod)
        saved = (self.st.frame, self.cur_mod, self.cur_node, self.stack, self.ret_sinks, self.loop_sinks)
        self.st.frame, self.cur_mod, self.stack = fr.a, mod, []
        self.captured.add(fr.a)
        try:
            self.exec_block(tree.body)
        finally:
            self.st.frame, self.cur_mod, self.cur_node, self.stack, self.ret_sinks, self.loop_sinks = saved
        return mod

    def set_frame(self, addr, name, v):
        if addr in self.watch:
            self.writes.append((addr, self.where(), self.cur_fn(), self.st.pc))
        self.st.heap[addr] = {**self.st.heap[addr], name: v}

    def mod_attr(self, mod, name):
        d = self.st.heap[mod.frame]
        if name in d:
            return d[name]
        sub = f"{mod.name}.{name}"
        if mod.is_pkg and self.module_file(sub)[0]:
            return self.load(sub)
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body:
            self.exec(s)

    def exec(self, s):
        self.cur_node = s
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("step limit")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Limit(f"statement {type(s).__name__} at {self.where(s)}")
        m(s)

    def x_Expr(self, s):
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.ev(s.value)
            self.assign(t, self.inplace(s.op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, self.mangle(t.attr))
            v = self.ev(s.value)
            self.setattr(o, self.mangle(t.attr), self.inplace(s.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            cur = self.getitem(o, k)
            v = self.ev(s.value)
            self.setitem(o, k, self.inplace(s.op, cur, v))
        else:
            raise Limit("augmented assignment target")

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%",
           ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}

    def inplace(self, op, cur, v):
        return self.models.inplace(self, self.OPS[type(op)], cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if isinstance(v, Undef):
                v = self.unk("undefined value assigned")
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Limit("assignment target")

    def unpack(self, elts, v):
        v = narrow(v)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Unk):
            for e in elts:
                self.assign(e, v)
            return
        if isinstance(v, Phi):
            def mk(x):
                def run():
                    return self._unpack_values(elts, x, n, star)
                return run
            outs = self.fork_join([(g, mk(x)) for g, x in v.alts])
            vals = self._phi_rows(outs, n)
        else:
            vals = self._unpack_values(elts, v, n, star)
        for e, x in zip(elts, vals):
            self.assign(e, x)

    def _phi_rows(self, outs, n):
        if isinstance(outs, tuple):
            return outs
        if isinstance(outs, Unk):
            return [outs] * n
        return [mk_phi([(g, row[i]) for g, row in outs.alts]) for i in range(n)]

    def _unpack_values(self, elts, v, n, star):
        items = self.iterate(v)
        if isinstance(items, Unk):
            return tuple([items] * n)
        if not isinstance(items, list):
            known = self.loop_hook and self.loop_hook.fixed_items(self, items, n if not star else None)
            if not known:
                return tuple([self.unk("unpacking a sequence of unknown length")] * n)
            items = known
        if star:
            i = star[0]
            after = n - i - 1
            if len(items) < n - 1:
                self.raise_exc("ValueError", "not enough values to unpack")
            mid = self.new_list(items[i:len(items) - after])
            return tuple(items[:i]) + (mid,) + tuple(items[len(items) - after:])
        if len(items) != n:
            self.raise_exc("ValueError", "unpack mismatch")
        return tuple(items)

    def x_If(self, s):
        c = self.truth(self.ev(s.test))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse), s)

    def branch(self, c, th, el, node=None):
        if isinstance(c, Unk):
            c = G.pred("unknown condition", c.reason, self.where(node))
        self.fork_join([(c, th), (G.NOT(c), el)])

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.ret_sinks[-1].append((self.st, v))
        raise Dead()

    def x_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if cur is None:
                raise Limit("bare raise")
            self.exc_sinks[-1].append((self.st.clone(), cur))
            raise Dead()
        e = self.ev(s.exc)
        cause = None
        if s.cause is not None:
            cause = narrow(self.ev(s.cause))
        e = narrow(e)
        if isinstance(e, (Builtin, ClassV, Ext)):
            e = self.call(e, [], {})
        if isinstance(e, Ref) and isinstance(self.cell(e), ObjC):
            c = self.cell(e)
            e2 = ExcV(c.cls, ())
            e2.obj = e
            e = e2
        if not isinstance(e, ExcV):
            e = ExcV(e, ())
        if isinstance(cause, ExcV):
            e.cause = cause
        if not hasattr(e, "where"):
            e.where, e.fn = self.where(s), self.cur_fn()
        self.exc_sinks[-1].append((self.st.clone(), e))
        raise Dead()

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if isinstance(c, Unk):
            return
        if s.msg is not None and c is not True:
            def fail():
                self.raise_exc("AssertionError", self.ev(s.msg))
            self.branch(c, lambda: None, fail, s)
            return
        self.raise_exc("AssertionError", guard=G.NOT(c))

    def x_Import(self, s):
        for al in s.names:
            if self.in_repo(al.name):
                m = self.load(al.name)
                v = m if al.asname else self.load(al.name.split(".")[0])
                self.store_name(al.asname or al.name.split(".")[0], v)
            else:
                if al.asname:
                    self.store_name(al.asname, Ext(self.models.canon_ext(al.name)))
                else:
                    self.store_name(al.name.split(".")[0], Ext(al.name.split(".")[0]))

    def x_ImportFrom(self, s):
        name = s.module or ""
        if s.level:
            base = self.cur_mod.name if self.cur_mod.is_pkg else self.cur_mod.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                base = base.rsplit(".", 1)[0]
            name = base + ("." + name if name else "")
        if self.in_repo(name):
            mod = self.load(name)
            for al in s.names:
                if al.name == "*":
                    d = self.st.heap[mod.frame]
                    al_ = d.get("__all__")
                    if al_ is not None:
                        names = [x for x in self.iterate(al_)]
                    else:
                        names = [k for k in d if not k.startswith("_")]
                    for k in names:
                        if isinstance(k, str):
                            v = self.mod_attr(mod, k)
                            if v is None and k not in d:
                                self.raise_exc("AttributeError", k)
                            self.store_name(k, v)
                    continue
                v = self.mod_attr(mod, al.name)
                if v is None and al.name not in self.st.heap[mod.frame]:
                    self.raise_exc("ImportError", al.name)
                self.store_name(al.asname or al.name, v)
        else:
            for al in s.names:
                if al.name == "*":
                    raise Limit(f"star import from {name}")
                self.store_name(al.asname or al.name, self.models.ext_attr(self, Ext(self.models.canon_ext(name)), al.name))

    def x_FunctionDef(self, s):
        f = self.make_fn(s)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            v = self.call(dv, [v], {})
        self.store_name(s.name, v)

    x_AsyncFunctionDef = None

    def make_fn(self, node, name=None):
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {k.arg: self.ev(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        nm = getattr(node, "name", "<lambda>")
        cls = getattr(self, "cur_class", None)
        owner = self.st.heap[self.st.frame].get("__qualname__", "")
        q = f"{self.cur_mod.name}.{owner + '.' if owner else ''}{nm}"
        self.captured.add(self.st.frame)
        f = FnV(node, self.cur_mod, self.st.frame, defaults, kwd, q, cls)
        # owner class for name mangling
        f.mangle = self.st.heap[self.st.frame].get("__mangle__")
        return f

    def x_ClassDef(self, s):
        bases = [narrow(self.ev(b)) for b in s.bases]
        owner = self.st.heap[self.st.frame].get("__qualname__", "")
        q = f"{owner + '.' if owner else ''}{s.name}"
        fr = self.alloc({"__qualname__": q, "__mangle__": s.name.lstrip("_"), "__classframe__": True})
        saved = self.st.frame
        outer = saved
        self.st.heap[fr.a]["__outer__"] = outer
        self.captured.add(fr.a)
        self.captured.add(outer)
        self.st.frame = fr.a
        try:
            self.exec_block(s.body)
        finally:
            self.st.frame = saved
        cls = ClassV(s.name, bases, fr.a, self.cur_mod, s, f"{self.cur_mod.name}.{q}")
        for k, v in self.st.heap[fr.a].items():
            if isinstance(v, FnV) and v.cls is None:
                v.cls = cls
            for w in (getattr(v, "fget", None), getattr(v, "fset", None), getattr(v, "fn", None)):
                if isinstance(w, FnV) and w.cls is None:
                    w.cls = cls
        if any(isinstance(b, Ext) and b.path == "typing.NamedTuple" for b in bases):
            pycls.nt_setup(self, cls)
        if pycls.is_enum(cls):
            pycls.enum_setup(self, cls)
        for k, v in list(self.st.heap[fr.a].items()):
            if isinstance(v, Ref) and isinstance(self.cell(v), ObjC) and self.class_lookup(self.cell(v).cls, "__set_name__") is not None:
                self.call(self.getattr(v, "__set_name__"), [cls, k], {})
        for b in cls.mro()[1:]:
            if isinstance(b, ClassV) and "__init_subclass__" in self.st.heap[b.ns]:
                f = self.st.heap[b.ns]["__init_subclass__"]
                self.call(f.fn if isinstance(f, ClassMV) else f, [cls], {k.arg: self.ev(k.value) for k in s.keywords if k.arg})
                break
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.store_name(s.name, v)

    def x_Global(self, s):
        d = self.st.heap[self.st.frame]
        self.st.heap[self.st.frame] = {**d, "__global__": tuple(d.get("__global__", ())) + tuple(s.names)}

    def x_Nonlocal(self, s):
        d = self.st.heap[self.st.frame]
        self.st.heap[self.st.frame] = {**d, "__nonlocal__": tuple(d.get("__nonlocal__", ())) + tuple(s.names)}

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(self.st.heap[self.st.frame])
                d.pop(t.id, None)
                self.st.heap[self.st.frame] = d
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.ev(t.value), self.ev_index(t.slice))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value), self.mangle(t.attr))

    def x_With(self, s, i=0):
        if i == len(s.items):
            self.exec_block(s.body)
            return
        it = s.items[i]
        v = self.ev(it.context_expr)

        def body(r):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
            self.x_With(s, i + 1)
        if isinstance(v, Ref) and isinstance(self.cell(v), ObjC):
            r = self.call(self.getattr(v, "__enter__"), [], {})
            leave = self.getattr(v, "__exit__")
            self._try(lambda: body(r), [], None, None,
                      lambda exc: self.call(leave, [None] * 3 if exc is None else [exc.cls, exc, None], {}))
            return
        if isinstance(v, GenCM):
            self.with_generator(v, body)
            return
        if not isinstance(v, (Opaque, Unk)):
            raise Limit("with on a modelled value")
        self.events.append(Event("with", (v,), {}, self.st.pc, self.where(s), self.cur_fn()))
        body(v)

    def with_generator(self, cm, body):
        """contextlib.contextmanager: the block runs at the yield of the generator"""
        here = (self.st.frame, self.cur_mod, self.stack, self.ret_sinks, self.loop_sinks)
        flag = []

        def hook(it, a, k):
            there = (self.st.frame, self.cur_mod, self.stack, self.ret_sinks, self.loop_sinks)
            my_ret, my_loop = [], ([], [])
            self.st.frame, self.cur_mod, self.stack = here[:3]
            self.ret_sinks = here[3][:-1] + [my_ret] if here[3] else []
            self.loop_sinks = here[4][:-1] + [my_loop] if here[4] else []
            outs = []
            try:
                body(a[0])
                outs.append((self.st, None))
            except Dead:
                pass
            finally:
                frame, self.cur_mod, self.stack, self.ret_sinks, self.loop_sinks = there
            for kind, sink in (("ret", my_ret), ("break", my_loop[0]), ("continue", my_loop[1])):
                outs += [(st, _Mark(kind, v)) for st, v in sink]
            if not outs:
                raise Dead()
            for st, _ in outs:
                st.frame = frame
            r = self.join(outs)
            flag.append(r)
            return None
        self.cm_hook = Native("with block", hook)
        try:
            self.call(cm.fn, cm.args, cm.kwargs)
        finally:
            self.cm_hook = None
        rest = True
        base = self.st
        for r in flag:
            for g, m in (r.alts if isinstance(r, Phi) else [(True, r)]):
                if isinstance(m, _Mark):
                    p = G.AND(base.pc, g)
                    rest = G.AND(rest, G.NOT(g))
                    if p is False:
                        continue
                    sink = self.ret_sinks[-1] if m.kind == "ret" else self.loop_sinks[-1][0 if m.kind == "break" else 1]
                    sink.append((base.clone(p), m.v))
        p = G.AND(base.pc, rest)
        if p is False:
            raise Dead()
        base.pc = p

    def x_Try(self, s):
        self._try(lambda: self.exec_block(s.body), s.handlers,
                  (lambda: self.exec_block(s.orelse)) if s.orelse else None,
                  (lambda: self.exec_block(s.finalbody)) if s.finalbody else None)

    def _try(self, body, handlers, orelse, final, leave=None):
        """leave(exception or None): what a context manager does at the end of its block; a true result swallows the exception"""
        if leave is not None:
            def orelse():
                leave(None)

            def final():
                leave(None)
        frame = self.st.frame
        stack = self.stack
        mod = self.cur_mod
        outs = []                       # live normal states
        sink = []
        saved_sinks = (self.exc_sinks, self.ret_sinks, self.loop_sinks)
        my_ret, my_loop = [], [([], [])] if self.loop_sinks else []
        if final:
            if self.ret_sinks:
                self.ret_sinks = self.ret_sinks[:-1] + [my_ret]
            if self.loop_sinks:
                my_loop = ([], [])
                self.loop_sinks = self.loop_sinks[:-1] + [my_loop]
        self.exc_sinks = self.exc_sinks + [sink]
        base = self.st
        try:
            body()
            alive = True
        except Dead:
            alive = False
        self.exc_sinks = self.exc_sinks[:-1]
        self.stack, self.cur_mod = stack, mod
        pending = []                    # exceptions leaving the try
        hsink = []
        self.exc_sinks = self.exc_sinks + [hsink]
        if alive:
            try:
                if orelse:
                    orelse()
                outs.append((self.st, None))
            except Dead:
                pass
        # group exceptions by class and arguments
        for st, exc in sink:
            st.frame = frame
            self.stack, self.cur_mod = stack, mod
            self.st = st
            handled = False
            if leave is not None:
                saved_h = getattr(self, "handling", None)
                self.handling = exc
                try:
                    b = self.truth(leave(exc))
                except Dead:
                    continue
                finally:
                    self.handling = saved_h
                if isinstance(b, Unk):
                    raise Limit(f"result of __exit__: {b.reason}")
                g = G.AND(self.st.pc, b)
                h = G.AND(self.st.pc, G.NOT(b))
                if h is not False:
                    hsink.append((self.st if g is False else self.st.clone(h), exc))
                if g is not False:
                    self.st.pc = g
                    outs.append((self.st, None))
                continue
            for h in handlers:
                m = self.exc_matches(exc, h.type)
                if m is None:
                    m = True
                if m:
                    handled = True
                    saved_h = getattr(self, "handling", None)
                    self.handling = exc
                    try:
                        if h.name:
                            self.store_name(h.name, exc)
                        self.exec_block(h.body)
                        outs.append((self.st, None))
                    except Dead:
                        pass
                    self.handling = saved_h
                    break
            if not handled:
                hsink.append((st, exc))
        self.exc_sinks = self.exc_sinks[:-1]
        self.ret_sinks, self.loop_sinks = saved_sinks[1], saved_sinks[2]
        pending = hsink
        if final:
            def run_final(st, target, val):
                self.st = st
                st.frame = frame
                self.stack, self.cur_mod = stack, mod
                try:
                    final()
                except Dead:
                    return
                target.append((self.st, val))
            if leave is None:
                for st, e in pending:
                    run_final(st, self.exc_sinks[-1], e)
            else:
                self.exc_sinks[-1].extend(pending)
            for st, v in my_ret:
                run_final(st, self.ret_sinks[-1], v)
            if self.loop_sinks and isinstance(my_loop, tuple):
                for st, v in my_loop[0]:
                    run_final(st, self.loop_sinks[-1][0], v)
                for st, v in my_loop[1]:
                    run_final(st, self.loop_sinks[-1][1], v)
            if outs:
                self.join(outs)
                self.stack, self.cur_mod = stack, mod
                if leave is None:
                    final()
                return
            raise Dead()
        self.exc_sinks[-1].extend(pending)
        self.stack, self.cur_mod = stack, mod
        if not outs:
            self.st = base
            raise Dead()
        self.join(outs)

    def exc_matches(self, exc, tnode):
        if tnode is None:
            return True
        t = narrow(self.ev(tnode))
        ts = list(t) if isinstance(t, tuple) else [t]
        r = False
        for x in ts:
            if isinstance(x, Builtin) and x.py in (Exception, BaseException):
                return True
            c = exc.cls
            if isinstance(c, Builtin) and isinstance(x, Builtin):
                if issubclass(c.py, x.py):
                    return True
            elif isinstance(c, ClassV):
                for k in c.mro():
                    if k is x or k == x:
                        return True
                    if isinstance(k, Builtin) and isinstance(x, Builtin) and issubclass(k.py, x.py):
                        return True
            elif isinstance(c, Ext):
                if x == c:
                    return True
                if isinstance(x, Builtin) and x.name in self.models.EXT_EXC_BASES.get(c.path, ()):
                    return True
                if isinstance(x, Ext) and x.path in self.models.EXT_EXC_BASES.get(c.path, ()):
                    return True
        return r

    def x_Break(self, s):
        if not self.loop_sinks:
            raise Limit("break outside loop")
        self.loop_sinks[-1][0].append((self.st, None))
        raise Dead()

    def x_Continue(self, s):
        self.loop_sinks[-1][1].append((self.st, None))
        raise Dead()

    def x_For(self, s):
        it = self.ev(s.iter)
        self.for_loop(it, lambda v: self.assign(s.target, v), lambda: self.exec_block(s.body), s,
                      (lambda: self.exec_block(s.orelse)) if s.orelse else None)

    def for_loop(self, it, bind, body, node, orelse=None):
        it = narrow(it)
        if isinstance(it, Phi):
            self.fork_join([(g, (lambda x=x: self.for_loop(x, bind, body, node, orelse))) for g, x in it.alts])
            return
        items = self.iterate(it, lazy=True)
        if isinstance(items, Unk):
            self.havoc_loop(items, bind, body, node)
            return
        if not isinstance(items, list):
            if self.loop_hook is None:
                raise Limit(f"loop over a sequence of unknown length at {self.where(node)}")
            self.loop_hook.run(self, items, bind, body, node)
            if orelse:
                orelse()
            return
        breaks = []
        live = True
        for v in items:
            guard = True
            if isinstance(v, Gitem):
                guard, v = v.g, v.v
            conts = []
            self.loop_sinks.append((breaks, conts))
            base = self.st
            outs = []
            g = G.AND(base.pc, guard)
            ng = G.AND(base.pc, G.NOT(guard))
            if ng is not False:
                outs.append((base.clone(ng), None))
            try:
                if g is not False:
                    self.st = base.clone(g) if ng is not False else base
                    try:
                        bind(v)
                        body()
                        outs.append((self.st, None))
                    except Dead:
                        pass
            finally:
                self.loop_sinks.pop()
            outs.extend(conts)
            if not outs:
                live = False
                break
            self.join(outs)
        outs = []
        if live:
            try:
                if orelse:
                    orelse()
                outs.append((self.st, None))
            except Dead:
                pass
        outs.extend(breaks)
        if not outs:
            raise Dead()
        self.join(outs)

    def havoc_loop(self, u, bind, body, node):
        raise Limit(f"loop over an unknown value: {u.reason}")

    def x_While(self, s):
        breaks = []
        n = 0
        exits = []
        while True:
            c = self.truth(self.ev(s.test))
            if isinstance(c, Unk):
                raise Limit(f"while condition unknown: {c.reason}")
            p = self.st.pc
            go, stop = G.AND(p, c), G.AND(p, G.NOT(c))
            if go is not False and (stop is not False or n >= 400) and self.loop_hook is not None:
                if self.loop_hook.run_while(self, s, breaks):
                    exits.append((self.st, None))
                    break
            if stop is not False:
                st = self.st.clone(stop)
                saved = self.st
                self.st = st
                try:
                    if s.orelse:
                        self.exec_block(s.orelse)
                    exits.append((self.st, None))
                except Dead:
                    pass
                self.st = saved
            if go is False:
                break
            n += 1
            if n > 400 or (stop is not False and n > 60):
                raise Limit(f"while loop with unknown bound at {self.where(s)}")
            self.st = self.st.clone(go)
            conts = []
            self.loop_sinks.append((breaks, conts))
            outs = []
            try:
                self.exec_block(s.body)
                outs.append((self.st, None))
            except Dead:
                pass
            finally:
                self.loop_sinks.pop()
            outs.extend(conts)
            if not outs:
                break
            self.join(outs)
        exits.extend(breaks)
        if not exits:
            raise Dead()
        self.join(exits)

    def x_Match(self, s):
        v = self.ev(s.subject)

        def cases(i):
            if i >= len(s.cases):
                return
            c = s.cases[i]
            b = self.match_pattern(c.pattern, v)

            def hit():
                if c.guard is not None:
                    g = self.truth(self.ev(c.guard))
                    self.branch(g, lambda: self.exec_block(c.body), lambda: cases(i + 1), s)
                else:
                    self.exec_block(c.body)
            self.branch(b, hit, lambda: cases(i + 1), s)
        cases(0)

    def match_pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.models.equals(self, v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.models.is_(self, v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                b = self.match_pattern(p.pattern, v)
            else:
                b = True
            if p.name:
                self.store_name(p.name, v)
            return b
        if isinstance(p, ast.MatchOr):
            return G.OR(*[self.match_pattern(q, v) for q in p.patterns])
        if isinstance(v, Unk):
            return v
        if isinstance(v, Phi) and not isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
            r = self.fork_join([(g, (lambda x=x: self._wrap_truth(self.match_pattern(p, x)))) for g, x in v.alts])
            return self.truth(r)
        if isinstance(p, ast.MatchSequence):
            c = self.cell(v) if isinstance(v, Ref) else None
            if not (isinstance(v, tuple) or isinstance(c, (V.ListC, V.IterC))):
                return False
            items = self.iterate(v)
            if isinstance(items, list):
                star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
                n = len(p.patterns)
                if star is None:
                    if len(items) != n:
                        return False
                    return self._match_all(p.patterns, items)
                if len(items) < n - 1:
                    return False
                after = n - 1 - star
                mid = items[star:len(items) - after]
                b = self._match_all(p.patterns[:star] + p.patterns[star + 1:], items[:star] + items[len(items) - after:])
                if p.patterns[star].name:
                    self.store_name(p.patterns[star].name, self.new_list(mid))
                return b
        if isinstance(p, ast.MatchMapping):
            c = self.cell(v) if isinstance(v, Ref) else None
            if not isinstance(c, V.DictC):
                return False
            ks, qs, vs = [self.ev(k) for k in p.keys], list(p.patterns), []
            r = True
            for k in ks:
                b = self.truth(self.models.contains(self, v, k))
                if isinstance(b, Unk):
                    return b
                r = G.AND(r, b)
            if r is False:
                return False
            if not G.implies(self.st.pc, r):
                raise Limit("match of a mapping with keys under conditions")
            for k in ks:
                vs.append(self.getitem(v, k))
            if p.rest:
                self.store_name(p.rest, self.new_dict({k: x for k, x in c.d.items() if k not in ks}))
            return self._match_all(qs, vs)
        if isinstance(p, ast.MatchClass):
            from . import lib
            cls = narrow(self.ev(p.cls))
            b = lib.isinst(self, v, cls)
            if isinstance(b, Unk):
                return b
            if not p.patterns and not p.kwd_patterns or b is False:
                return b
            if not G.implies(self.st.pc, b):
                raise Limit("match of a class under conditions")
            qs, vs = list(p.patterns) + list(p.kwd_patterns), []
            if len(p.patterns) == 1 and isinstance(cls, Builtin):
                vs.append(v)
            elif p.patterns:
                names = self.iterate(self.getattr(cls, "__match_args__"))
                vs += [self.getattr(v, n) for n in names[:len(p.patterns)]]
            vs += [self.getattr(v, n) for n in p.kwd_attrs]
            return self._match_all(qs, vs)
        raise Limit("match pattern")

    def _wrap_truth(self, b):
        return b if isinstance(b, Unk) else V.mk_bool(b)

    def _match_all(self, pats, vals):
        r = True
        for q, x in zip(pats, vals):
            b = self.match_pattern(q, x)
            if isinstance(b, Unk):
                return b
            r = G.AND(r, b)
            if r is False:
                return False
        return r

    # ------------------------------------------------------------ names
    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__"):
            m = None
            if self.stack:
                m = self.stack[-1][0].mangle
            elif self.st.frame is not None:
                m = self.st.heap[self.st.frame].get("__mangle__")
            if m:
                return f"_{m}{name}"
        return name

    def store_name(self, name, v):
        name = self.mangle(name)
        fr = self.st.heap[self.st.frame]
        if name in fr.get("__global__", ()):
            self.set_frame(self.cur_mod.frame, name, v)
            return
        if name in fr.get("__nonlocal__", ()):
            a = fr.get("__outer__")
            while a is not None:
                d = self.st.heap[a]
                if name in d:
                    self.st.heap[a] = {**d, name: v}
                    return
                a = d.get("__outer__")
        if self.st.frame in self.watch:
            self.writes.append((self.st.frame, self.where(), self.cur_fn(), self.st.pc))
        self.st.heap[self.st.frame] = {**fr, name: v}

    def lookup(self, name):
        name = self.mangle(name)
        fr = self.st.heap[self.st.frame]
        a = self.st.frame
        first = True
        while a is not None:
            d = self.st.heap[a]
            if name in d and (first or not d.get("__classframe__")) and not (first and name in d.get("__global__", ())):
                return self.check_undef(d[name], name)
            if first and name in d.get("__locals__", ()):
                self.raise_exc("UnboundLocalError", name)
            first = False
            a = d.get("__outer__")
        d = self.st.heap[self.cur_mod.frame]
        if name in d:
            return self.check_undef(d[name], name)
        b = self.models.builtin(name)
        if b is None:
            self.raise_exc("NameError", name)
        return b

    def check_undef(self, v, name, exc="UnboundLocalError"):
        if isinstance(v, Undef):
            self.raise_exc(exc, name)
        if isinstance(v, Phi):
            for g, x in v.alts:
                if isinstance(x, Undef):
                    if G.AND(g, self.st.pc) is not False:
                        self.raise_exc(exc, name, guard=g)
                    return narrow(Phi([(h, y) for h, y in v.alts if not isinstance(y, Undef)])) if len(v.alts) > 2 else \
                        next(y for h, y in v.alts if not isinstance(y, Undef))
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk(f"expression {type(e).__name__}")
        saved = self.cur_node
        self.cur_node = e
        r = m(e)
        self.cur_node = saved
        return r

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return v
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                return self.models.INF if v > 0 else -self.models.INF
            return F.form(v)
        return self.unk("constant")

    def e_Name(self, e):
        v = self.lookup(e.id)
        return narrow(v) if isinstance(v, Phi) else v

    def e_Tuple(self, e):
        return tuple(self._elts(e.elts))

    def e_List(self, e):
        return self.new_list(self._elts(e.elts))

    def e_Set(self, e):
        return self.models.make_set(self, self._elts(e.elts))

    def _elts(self, elts, library=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = narrow(self.ev(x.value))
                if library and isinstance(v, Opaque):
                    out.append(Opaque("starred", v))
                    continue
                it = self.iterate(v)
                if isinstance(it, Unk):
                    raise Limit(f"unpacking {it.reason}")
                if isinstance(it, list):
                    out.extend(it)
                else:
                    out.extend(self.loop_hook.parts_of(self, it))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        if len(e.keys) > 200:
            t = self.models.literal_table(self, e)
            if t is not None:
                return t
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = narrow(self.ev(v))
                if isinstance(x, Ref) and isinstance(self.cell(x), DictC):
                    d.update(self.cell(x).d)
                    continue
                raise Limit("dict unpacking")
            kk = self.models.key(self, self.ev(k))
            d[kk] = self.ev(v)
        return self.new_dict(d)

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value)
                spec = ""
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec)
                    if not isinstance(spec, str):
                        spec = repr(spec)
                if p.conversion == 114:
                    parts.append(self.models.to_repr(self, v))
                    continue
                if p.conversion == 115:
                    v = self.models.to_str(self, v)
                parts.append(self.models.to_format(self, v, spec))
        return self.models.concat_str(self, parts)

    def e_FormattedValue(self, e):
        return self.models.to_format(self, self.ev(e.value), "")

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), self.mangle(e.attr))

    def e_Subscript(self, e):
        o = self.ev(e.value)
        return self.getitem(o, self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x) for x in s.elts)
        return self.ev(s)

    e_Slice = ev_index

    def e_Starred(self, e):
        return self.unk("starred")

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.models.binop(self, self.OPS[type(e.op)], a, b)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return c if isinstance(c, Unk) else mk_bool(G.NOT(c))
        if isinstance(e.op, ast.USub):
            return self.models.binop(self, "*", F.const(-1), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.models.invert(self, v)
        return self.unk("unary operator")

    def e_BoolOp(self, e):
        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isinstance(c, Unk):
                c = G.pred("unknown condition", c.reason, self.where(e))
            isand = isinstance(e.op, ast.And)
            stop = G.NOT(c) if isand else c
            keep = v
            if isinstance(v, Cond):
                keep = not isand
            elif isinstance(v, Phi):
                pass
            return self.fork_join([(G.NOT(stop), lambda: go(i + 1)), (stop, lambda: keep)])
        r = go(0)
        return self.tidy_bool(r)

    def tidy_bool(self, r):
        if isinstance(r, Phi) and all(isinstance(v, (bool, Cond)) for _, v in r.alts):
            return mk_bool(G.restrict(to_bdd(r), self.st.pc))
        return r

    def e_Compare(self, e):
        left = self.ev(e.left)
        if len(e.ops) == 1:
            return self.models.cmp(self, e.ops[0], left, self.ev(e.comparators[0]))
        acc = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            b = to_bdd(self.models.cmp(self, op, left, right))
            if isinstance(b, Unk):
                return b
            acc = G.AND(acc, b)
            left = right
        return mk_bool(acc)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        if isinstance(c, Unk):
            c = G.pred("unknown condition", c.reason, self.where(e))
        return self.tidy_bool(self.fork_join([(c, lambda: self.ev(e.body)), (G.NOT(c), lambda: self.ev(e.orelse))]))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        saved = self.st.frame
        while self.st.heap[self.st.frame].get("__compframe__"):
            self.st.frame = self.st.heap[self.st.frame]["__outer__"]
        self.store_name(e.target.id, v)
        self.st.frame = saved
        return v

    def e_Lambda(self, e):
        return self.make_fn(e)

    def e_Call(self, e):
        fn = self.ev(e.func) if not (isinstance(e.func, ast.Name) and e.func.id == "super") else Builtin("super")
        args = self._elts(e.args, isinstance(fn, Ext))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = narrow(self.ev(k.value))
                if isinstance(d, Ref) and isinstance(self.cell(d), DictC):
                    for kk, v in self.cell(d).d.items():
                        kwargs[kk] = v
                else:
                    raise Limit("**kwargs of an unknown mapping")
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.cur_node = e
        return self.call(fn, args, kwargs)

    def e_ListComp(self, e):
        out = self.new_list([])
        self._comp(e.generators, lambda: self.models.list_append(self, out, self.ev(e.elt)), e)
        return out

    def e_SetComp(self, e):
        out = self.models.make_set(self, [])
        self._comp(e.generators, lambda: self.models.set_add(self, out, self.ev(e.elt)), e)
        return out

    def e_DictComp(self, e):
        out = self.new_dict()
        self._comp(e.generators, lambda: self.setitem(out, self.ev(e.key), self.ev(e.value)), e)
        return out

    def e_GeneratorExp(self, e):
        out = self.new_list([])
        self._comp(e.generators, lambda: self.models.list_append(self, out, self.ev(e.elt)), e)
        c = self.cell(out)
        return self.alloc(IterC(c.items)) if isinstance(c, ListC) else c

    def _comp(self, gens, emit, node):
        # comprehension scope: a child frame
        outer = self.st.frame
        fr = self.alloc({"__outer__": outer, "__compframe__": True,
                         "__mangle__": self.st.heap[outer].get("__mangle__"),
                         "__qualname__": self.st.heap[outer].get("__qualname__", "")})
        first = self.ev(gens[0].iter)
        isclass = self.st.heap[outer].get("__classframe__")
        if isclass:
            self.st.heap[fr.a]["__outer__"] = self.st.heap[outer].get("__outer__")
        self.st.frame = fr.a

        def level(i):
            g = gens[i]
            src = first if i == 0 else self.ev(g.iter)

            def body():
                def conds(j):
                    if j == len(g.ifs):
                        if i + 1 < len(gens):
                            level(i + 1)
                        else:
                            emit()
                        return
                    c = self.truth(self.ev(g.ifs[j]))
                    self.branch(c, lambda: conds(j + 1), lambda: None, node)
                conds(0)
            saved = self.loop_sinks
            self.loop_sinks = []
            try:
                self.for_loop(src, lambda v: self.assign(g.target, v), body, node)
            finally:
                self.loop_sinks = saved
        try:
            level(0)
        finally:
            self.st.frame = outer
        if fr.a not in self.captured:
            self.st.heap.pop(fr.a, None)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        y = self.lookup("__yields__")
        if isinstance(y, Native):
            return y.fn(self, [v], {})
        self.models.list_append(self, y, v)
        return None

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        y = self.lookup("__yields__")
        if isinstance(y, Native):
            raise Limit("yield from in a context manager")
        self.call(Method(y, "extend"), [v], {})
        return None

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kwargs):
        fn = narrow(fn)
        if isinstance(fn, Phi):
            v = self.fork_join([(g, (lambda f=f: self.call(f, list(args), dict(kwargs)))) for g, f in fn.alts])
            if isinstance(v, Phi) and all(isinstance(f, Method) and f.name == "tolist" for _, f in fn.alts):
                v = self.one_list(v)
            return v
        if isinstance(fn, Unk):
            return fn
        if isinstance(fn, FnV):
            return self.call_fn(fn, args, kwargs)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self] + list(args), kwargs)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, Native):
            return fn.fn(self, args, kwargs)
        if isinstance(fn, Ref) and isinstance(self.cell(fn), ObjC):
            m = self.class_lookup(self.cell(fn).cls, "__call__")
            if m is not None:
                return self.call(m, [fn] + list(args), kwargs)
        if isinstance(fn, StaticV):
            return self.call(fn.fn, args, kwargs)
        if isinstance(fn, (Builtin, Ext, Method, Opaque)):
            return self.models.call(self, fn, args, kwargs)
        if fn is None or isinstance(fn, (str, Form, tuple, bool)):
            self.raise_exc("TypeError", "not callable")
        return self.unk(f"call of {fn!r}")

    def one_list(self, v):
        """the lists made in the different cases, as one list of guarded elements if they are equally long"""
        cs = [self.cell(x) if isinstance(x, Ref) else None for _, x in v.alts]
        if not all(isinstance(c, ListC) and all(isinstance(x, (Form, bool, str, Phi)) for x in c.items) for c in cs) or len({len(c.items) for c in cs}) != 1:
            return v
        return self.new_list([mk_phi([(G.restrict(g, self.st.pc), c.items[i]) for (g, _), c in zip(v.alts, cs)]) for i in range(len(cs[0].items))])

    def instantiate(self, cls, args, kwargs):
        ext = self.overrides.get(cls.qualname)
        if ext is not None:
            return ext(self, args, kwargs)
        for b in cls.mro():
            if isinstance(b, Builtin) and b.py is not None and isinstance(b.py, type) and issubclass(b.py, BaseException):
                init = self.class_lookup(cls, "__init__")
                e = ExcV(cls, args)
                e.where, e.fn = self.where(), self.cur_fn()
                e.obj = self.alloc(ObjC(cls, {"args": tuple(args)}))
                if init is not None:
                    self.call(init, [e.obj] + list(args), kwargs)
                    a = narrow(self.cell(e.obj).attrs.get("args"))
                    if isinstance(a, tuple):
                        e.args = a
                return e
        if pycls.nt_fields(cls)[0] is not None:
            new = self.class_lookup(cls, "__new__")
            if new is not None:
                return self.call(new.fn if isinstance(new, StaticV) else new, [cls] + list(args), kwargs)
            return pycls.nt_make(self, cls, args, kwargs)
        if hasattr(cls, "enum"):
            return pycls.enum_call(self, cls, args[0])
        for b in cls.mro():
            if isinstance(b, Builtin) and b.name in ("list", "dict", "set", "str", "int", "float", "frozenset", "type", "bytes", "complex"):
                raise Limit(f"instance of a class derived from {b.name}")
        new = self.class_lookup(cls, "__new__")
        if new is not None and isinstance(new, (FnV, StaticV)):
            o = self.call(new, [cls] + list(args), kwargs)
        else:
            o = self.alloc(ObjC(cls, {}))
        init = self.class_lookup(cls, "__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            self.raise_exc("TypeError", f"{cls.name}() takes no arguments")
        return o

    def class_lookup(self, cls, name):
        for c in cls.mro():
            if isinstance(c, ClassV):
                d = self.st.heap[c.ns]
                if name in d:
                    return d[name]
        return None

    def call_fn(self, fn, args, kwargs):
        ov = self.overrides.get(fn.qualname)
        if ov is not None:
            return ov(self, args, kwargs)
        if len(self.stack) > 80:
            raise Limit(f"recursion in {fn.qualname}")
        if fn.module.name != "shim":
            self.functions_seen[fn.qualname] = self.functions_seen.get(fn.qualname, 0) + 1
        d = {"__outer__": fn.frame, "__qualname__": self._qual(fn), "__mangle__": fn.mangle,
             "__locals__": _local_names(fn.node)}
        if self.st.heap[fn.frame].get("__name__") and fn.frame == fn.module.frame:
            d["__outer__"] = None
        elif self.st.heap.get(fn.frame, {}).get("__classframe__"):
            o = self.st.heap[fn.frame].get("__outer__")
            while o is not None and self.st.heap[o].get("__classframe__"):
                o = self.st.heap[o].get("__outer__")
            d["__outer__"] = None if o == fn.module.frame else o
        self.bind_args(fn, args, kwargs, d)
        saved = (self.st.frame, self.cur_mod, self.cur_node, self.stack, self.ret_sinks, self.loop_sinks)
        fr = self.alloc(d)
        self.st.frame, self.cur_mod = fr.a, fn.module
        self.stack = self.stack + [(fn, self.cur_node)]
        rets = []
        hook, self.cm_hook = self.cm_hook, None
        self.ret_sinks = [rets]
        self.loop_sinks = []
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body)
                rets.append((self.st, v))
            else:
                gen = _is_generator(fn.node)
                if gen:
                    y = hook if hook is not None else self.new_list([])
                    self.store_name("__yields__", y)
                try:
                    self.exec_block(fn.node.body)
                    rets.append((self.st, None))
                except Dead:
                    pass
        finally:
            frame, self.cur_mod, self.cur_node, self.stack, self.ret_sinks, self.loop_sinks = saved
        if not rets:
            raise Dead()
        v = self.join(rets)
        self.st.frame = frame
        if not isinstance(fn.node, ast.Lambda) and gen and hook is None:
            c = self.cell(y)
            v = self.alloc(IterC(c.items)) if isinstance(c, ListC) else c
        if fr.a not in self.captured:
            self.st.heap.pop(fr.a, None)
        return v

    def _qual(self, fn):
        q = fn.qualname
        m = fn.module.name
        return (q[len(m) + 1:] if q.startswith(m + ".") else q) + ".<locals>"

    def bind_args(self, fn, args, kwargs, d):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        if len(args) > len(pos) and a.vararg is None:
            self.raise_exc("TypeError", f"{fn.name}() takes {len(pos)} positional arguments")
        for n, v in zip(pos, args):
            d[n] = v
        if a.vararg is not None:
            d[a.vararg.arg] = tuple(args[len(pos):])
        for n in pos:
            if n in kwargs:
                if n in d and pos.index(n) < len(args):
                    self.raise_exc("TypeError", f"{fn.name}() got multiple values for argument {n!r}")
                d[n] = kwargs.pop(n)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                d[x.arg] = kwargs.pop(x.arg)
            elif x.arg in fn.kwdefaults:
                d[x.arg] = fn.kwdefaults[x.arg]
            else:
                self.raise_exc("TypeError", f"{fn.name}() missing keyword argument {x.arg!r}")
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in d:
                j = i - (len(pos) - nd)
                if j >= 0:
                    d[n] = fn.defaults[j]
                else:
                    self.raise_exc("TypeError", f"{fn.name}() missing argument {n!r}")
        if kwargs:
            if a.kwarg is not None:
                d[a.kwarg.arg] = self.new_dict(kwargs)
            else:
                self.raise_exc("TypeError", f"{fn.name}() got an unexpected keyword argument {next(iter(kwargs))!r}")
        elif a.kwarg is not None:
            d[a.kwarg.arg] = self.new_dict({})

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        o = narrow(o)
        if isinstance(o, Phi):
            return self.fork_join([(g, (lambda x=x: self.getattr(x, name))) for g, x in o.alts])
        if isinstance(o, Unk):
            return o
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjC):
                return self.obj_attr(o, c, name)
            if isinstance(c, Unk):
                return c
            return self.models.getattr(self, o, name)
        if isinstance(o, ModV):
            v = self.mod_attr(o, name)
            if v is None and name not in self.st.heap[o.frame]:
                self.raise_exc("AttributeError", name)
            return v
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            if name == "__dict__":
                return self.unk("class __dict__")
            if name == "__mro__":
                return tuple(o.mro()) + (self.models.builtin("object"),)
            if name == "_fields" and pycls.nt_fields(o)[0] is not None:
                return pycls.nt_fields(o)[0]
            if name == "_make" and pycls.nt_fields(o)[0] is not None:
                return Native("_make", lambda it, a, k: pycls.nt_make(it, o, it.iterate(a[0]), {}))
            if name == "__qualname__":
                return o.qualname[len(o.module.name) + 1:]
            if name == "__module__":
                return o.module.name
            v = self.class_lookup(o, name)
            if v is None:
                if name == "__init__":
                    return Native("object.__init__", lambda it, a, k: None)
                if name == "__eq__":
                    return Native("object.__eq__", lambda it, a, k: mk_bool(self.models.is_(it, a[0], a[1])))
                if not self._has_in_class(o, name):
                    self.raise_exc("AttributeError", name)
            if isinstance(v, StaticV):
                return v.fn
            if isinstance(v, ClassMV):
                return Bound(o, v.fn)
            if isinstance(v, Ref) and isinstance(self.cell(v), ObjC):
                g = self.class_lookup(self.cell(v).cls, "__get__")
                if g is not None:
                    return self.call(g, [v, None, o], {})
            return v
        if isinstance(o, SuperV):
            obj = o.self
            cls = self.cell(obj).cls if isinstance(obj, Ref) else obj
            mro = cls.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassV):
                    d = self.st.heap[c.ns]
                    if name in d:
                        return self.bind_member(obj, d[name], name)
            if name == "__init__" and any(isinstance(b, Builtin) and isinstance(b.py, type) and issubclass(b.py, BaseException) for b in mro):
                return Native("exception.__init__", lambda it, a, k: it.setattr(obj, "args", tuple(a), True))
            if name == "__str__" and any(isinstance(b, Builtin) and isinstance(b.py, type) and issubclass(b.py, BaseException) for b in mro):
                return Native("exception.__str__", lambda it, a, k: it.models.to_str(it, ExcV(Builtin("Exception", Exception), it.getattr(obj, "args"))))
            if name in ("__init__", "__init_subclass__"):
                return Native("object.__init__", lambda it, a, k: None)
            if name == "__new__":
                return Native("object.__new__", lambda it, a, k: pycls.nt_make(it, a[0], a[1:], k) if pycls.nt_fields(a[0])[0] is not None
                              else it.alloc(ObjC(a[0], {})))
            if name == "__setattr__":
                return Native("object.__setattr__", lambda it, a, k: it.setattr(obj, a[0], a[1], True))
            if name == "__delattr__":
                return Native("object.__delattr__", lambda it, a, k: it.delattr(obj, a[0], True))
            if name == "__getattribute__":
                return Native("object.__getattribute__", lambda it, a, k: it.getattr(obj, a[0]))
            self.raise_exc("AttributeError", name)
        if isinstance(o, FnV) and name in ("__name__", "__qualname__", "__doc__", "__module__"):
            return {"__name__": o.name, "__qualname__": o.name, "__module__": o.module.name}.get(name)
        if isinstance(o, ExcV):
            if name == "args":
                return tuple(o.args)
            if name == "__class__":
                return o.cls
            if name in ("__cause__", "__context__", "__traceback__"):
                return getattr(o, "cause", None) if name != "__traceback__" else None
            if name == "with_traceback":
                return Native(name, lambda it, a, k: o)
            if hasattr(o, "obj"):
                return self.getattr(o.obj, name)
            return self.unk(f"exception attribute {name}")
        if isinstance(o, PropV) and name in ("setter", "getter", "deleter"):
            def mk(it, a, k):
                if name == "setter":
                    return PropV(o.fget, a[0], o.fdel)
                if name == "getter":
                    return PropV(a[0], o.fset, o.fdel)
                return PropV(o.fget, o.fset, a[0])
            return Native("property." + name, mk)
        if isinstance(o, PropV) and name in ("fget", "fset"):
            return getattr(o, name)
        return self.models.getattr(self, o, name)

    def _has_in_class(self, cls, name):
        return any(isinstance(c, ClassV) and name in self.st.heap[c.ns] for c in cls.mro())

    def obj_attr(self, o, c, name):
        cv = self.class_lookup(c.cls, name)
        if isinstance(cv, PropV):
            if cv.fget is None:
                self.raise_exc("AttributeError", name)
            return self.call(cv.fget, [o], {})
        desc = isinstance(cv, Ref) and isinstance(self.cell(cv), ObjC) and self.class_lookup(self.cell(cv).cls, "__get__")
        if desc and (name not in c.attrs or self.class_lookup(self.cell(cv).cls, "__set__") is not None):
            return self.call(desc, [cv, o, c.cls], {})
        if name in c.attrs:
            return self.check_undef(c.attrs[name], name, "AttributeError")
        if isinstance(cv, CachedPropV):
            v = self.call(cv.fn, [o], {})
            cc = self.cell(o)
            self.put(o, ObjC(cc.cls, {**cc.attrs, name: v}))
            return v
        if cv is not None or self._has_in_class(c.cls, name):
            return self.bind_member(o, cv, name)
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            return self.alloc(V.InstDict(o.a))
        ga = self.class_lookup(c.cls, "__getattr__")
        if ga is not None:
            return self.call(ga, [o, name], {})
        if name in ("__eq__", "__ne__"):
            return Native(name, lambda it, a, k: mk_bool(it.models.is_(it, o, a[0])))
        self.raise_exc("AttributeError", name)

    def bind_member(self, o, v, name):
        if isinstance(v, FnV):
            return Bound(o, v)
        if isinstance(v, Native):
            return Bound(o, v)
        if isinstance(v, StaticV):
            return v.fn
        if isinstance(v, ClassMV):
            return Bound(self.cell(o).cls if isinstance(o, Ref) else o, v.fn)
        if isinstance(v, PropV):
            return self.call(v.fget, [o], {})
        return v

    def delattr(self, o, name, plain=False):
        o = narrow(o)
        c = self.cell(o) if isinstance(o, Ref) else None
        if not isinstance(c, ObjC):
            raise Limit(f"attribute {name} deleted from {o!r}")
        da = self.class_lookup(c.cls, "__delattr__")
        if da is not None and not plain:
            self.call(da, [o, name], {})
            return
        cv = self.class_lookup(c.cls, name)
        if isinstance(cv, PropV):
            if cv.fdel is None:
                self.raise_exc("AttributeError", f"can't delete attribute {name}")
            self.call(cv.fdel, [o], {})
            return
        if name not in c.attrs:
            self.raise_exc("AttributeError", name)
        self.put(o, ObjC(c.cls, {k: v for k, v in c.attrs.items() if k != name}))

    def setattr(self, o, name, v, plain=False):
        o = narrow(o)
        if isinstance(o, Phi):
            self.fork_join([(g, (lambda x=x: self.setattr(x, name, v))) for g, x in o.alts])
            return
        if isinstance(o, Unk):
            raise Limit(f"attribute {name} set on an unknown value: {o.reason}")
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjC):
                sa = self.class_lookup(c.cls, "__setattr__")
                if sa is not None and not plain:
                    self.call(sa, [o, name, v], {})
                    return
                cv = self.class_lookup(c.cls, name)
                if isinstance(cv, PropV):
                    if cv.fset is None:
                        self.raise_exc("AttributeError", f"can't set attribute {name}")
                    self.call(cv.fset, [o, v], {})
                    return
                desc = isinstance(cv, Ref) and isinstance(self.cell(cv), ObjC) and self.cell(cv).cls
                if desc and self.class_lookup(desc, "__set__") is not None:
                    self.call(self.class_lookup(desc, "__set__"), [cv, o, v], {})
                    return
                if isinstance(v, Undef):
                    v = self.unk("undefined value stored")
                self.put(o, ObjC(c.cls, {**c.attrs, name: v}))
                return
            if isinstance(c, Unk):
                raise Limit(f"attribute set on {c.reason}")
        if isinstance(o, ClassV):
            self.set_frame(o.ns, name, v)
            return
        if isinstance(o, ModV):
            self.set_frame(o.frame, name, v)
            return
        if isinstance(o, FnV):
            self.notes.append(f"attribute {name} set on function {o.qualname}")
            return
        self.models.setattr(self, o, name, v)

    # ------------------------------------------------------------ delegations
    def getitem(self, o, k):
        return self.models.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.models.setitem(self, o, k, v)

    def truth(self, v):
        return self.models.truth(self, v)

    def iterate(self, v, lazy=False):
        return self.models.iterate(self, v, lazy)

    # ------------------------------------------------------------ API for the specs
    def run(self, thunk):
        """run thunk from the current state; returns (value, exceptions) -- value is None if nothing returns"""
        sink = []
        self.exc_sinks.append(sink)
        try:
            v = thunk()
            alive = True
        except Dead:
            v, alive = None, False
        finally:
            self.exc_sinks.pop()
        return v, alive, sink


class GenCM:
    """call of a function decorated with contextlib.contextmanager"""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class _Mark:
    def __init__(self, kind, v):
        self.kind, self.v = kind, v


def _lcs_merge(a, b):
    """merge two guarded sequences keeping the order of both"""
    n, m = len(a), len(b)
    L = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            if identical(a[i][1], b[j][1]):
                L[i][j] = L[i + 1][j + 1] + 1
            else:
                L[i][j] = max(L[i + 1][j], L[i][j + 1])
    i = j = 0
    out = []
    while i < n and j < m:
        if identical(a[i][1], b[j][1]) and L[i][j] == L[i + 1][j + 1] + 1:
            out.append((G.OR(a[i][0], b[j][0]), a[i][1]))
            i += 1
            j += 1
        elif L[i + 1][j] >= L[i][j + 1]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return out


_shim_memo = {}


def _shim_tree(path):
    if path not in _shim_memo:
        with open(path, encoding="utf-8") as f:
            _shim_memo[path] = ast.parse(f.read(), path)
    return _shim_memo[path]


_locals_memo = {}


def _local_names(fn):
    r = _locals_memo.get(fn)
    if r is None:
        names = set()
        glob = set()

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    names.add(c.name)
                    continue
                if isinstance(c, ast.Lambda):
                    continue
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for x in ast.walk(c):
                        if isinstance(x, ast.NamedExpr):
                            names.add(x.target.id)
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    names.add(c.id)
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    glob.update(c.names)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    for al in c.names:
                        names.add((al.asname or al.name).split(".")[0])
                if isinstance(c, ast.ExceptHandler) and c.name:
                    names.add(c.name)
                walk(c)
        if not isinstance(fn, ast.Lambda):
            for s in fn.body:
                walk(ast.Module([s], []))
        r = frozenset(names - glob)
        _locals_memo[fn] = r
    return r


_gen_memo = {}


def _is_generator(fn):
    r = _gen_memo.get(fn)
    if r is None:
        r = False
        todo = list(fn.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        _gen_memo[fn] = r
    return r
