"""Classes the library makes out of a description: dataclasses, named tuples, enumerations."""
import ast
from . import values as V, guards as G, forms as F
from .values import (Ext, Native, ClassV, ObjC, Ref, FnV, StaticV, ClassMV, PropV, CachedPropV, Unk, Opaque, Builtin, mk_bool, to_bdd, narrow, Form)


class FieldV:
    """dataclasses.field(...)"""

    def __init__(self, kw):
        self.kw = kw


class AutoV:
    """enum.auto()"""


class NTuple(tuple):
    """value of a named tuple class"""
    _fields = ()
    cls = None


def dataclass(it, cls, opts):
    on = lambda k, d: it.truth(opts[k]) if k in opts else d       # noqa: E731
    fields = {}
    for b in reversed(cls.mro()):
        if b is not cls and isinstance(b, ClassV):
            fields.update(getattr(b, "dc_fields", None) or {})
    kw_only = on("kw_only", False) is True
    for s in cls.node.body:
        if not (isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)):
            continue
        t = ast.unparse(s.annotation)
        if "ClassVar" in t:
            continue
        if t.endswith("KW_ONLY"):
            kw_only = True
            continue
        n = s.target.id
        f = {"init": True, "kw_only": kw_only, "compare": True, "initvar": "InitVar" in t}
        d = it.st.heap[cls.ns]
        if s.value is not None:
            v = d.get(n)
            if isinstance(v, FieldV):
                for k in ("init", "kw_only", "compare"):
                    if k in v.kw:
                        f[k] = it.truth(v.kw[k]) is True
                if "default_factory" in v.kw:
                    f["factory"] = v.kw["default_factory"]
                d = {k: x for k, x in d.items() if k != n}
                if "default" in v.kw:
                    f["default"] = d[n] = v.kw["default"]
                it.st.heap[cls.ns] = d
            elif isinstance(v, Ref) and isinstance(it.cell(v), ObjC) and it.class_lookup(it.cell(v).cls, "__get__") is not None:
                f["default"] = it.getattr(cls, n)
            else:
                f["default"] = v
        fields[n] = f
    cls.dc_fields = fields
    d = dict(it.st.heap[cls.ns])
    frozen = on("frozen", False) is True or any(getattr(b, "dc_frozen", False) for b in cls.mro())
    cls.dc_frozen = frozen

    def init(it, a, k):
        self, a, k = a[0], list(a[1:]), dict(k)
        vals, extra = {}, []
        pos = [n for n, f in fields.items() if f["init"] and not f["kw_only"]]
        if len(a) > len(pos):
            it.raise_exc("TypeError", f"__init__() takes {len(pos) + 1} positional arguments but {len(a) + 1} were given")
        vals.update(zip(pos, a))
        for n, f in fields.items():
            if f["init"] and n in k:
                if n in vals:
                    it.raise_exc("TypeError", f"__init__() got multiple values for argument '{n}'")
                vals[n] = k.pop(n)
        if k:
            it.raise_exc("TypeError", f"__init__() got an unexpected keyword argument '{next(iter(k))}'")
        for n, f in fields.items():
            if n in vals:
                v = vals[n]
            elif "factory" in f:
                v = it.call(f["factory"], [], {})
            elif "default" in f:
                v = f["default"]
            elif f["init"]:
                it.raise_exc("TypeError", f"__init__() missing a required argument: '{n}'")
            else:
                continue
            if f["initvar"]:
                extra.append(v)
            elif f["init"] or n in vals or "factory" in f:
                it.setattr(self, n, v, frozen)
        if it._has_in_class(it.cell(self).cls, "__post_init__"):
            it.call(it.getattr(self, "__post_init__"), extra, {})

    def eq(it, a, k):
        x, y = narrow(a[0]), narrow(a[1])
        if not (isinstance(y, Ref) and isinstance(it.cell(y), ObjC) and it.cell(y).cls is it.cell(x).cls):
            return Builtin("NotImplemented")
        ns = [n for n, f in fields.items() if f["compare"] and not f["initvar"]]
        return it.models.equals(it, tuple(it.getattr(x, n) for n in ns), tuple(it.getattr(y, n) for n in ns))

    def text(it, a, k):
        return it.models.to_str(it, tuple(it.getattr(a[0], n) for n, f in fields.items() if not f["initvar"]))

    def no_set(it, a, k):
        it.raise_ext(Ext("dataclasses.FrozenInstanceError"), "cannot assign to field")

    if on("init", True) is not False and "__init__" not in d:
        d["__init__"] = Native(f"{cls.qualname}.__init__", init)
    if on("eq", True) is not False and "__eq__" not in d:
        d["__eq__"] = Native(f"{cls.qualname}.__eq__", eq)
        if "__hash__" not in d and on("unsafe_hash", False) is not True:
            d["__hash__"] = Native("hash", lambda it, a, k: Opaque("hash", a[0])) if frozen else None
    if on("repr", True) is not False and "__repr__" not in d:
        d["__repr__"] = Native(f"{cls.qualname}.__repr__", text)
    if frozen:
        d.setdefault("__setattr__", Native("frozen", no_set))
        d.setdefault("__delattr__", Native("frozen", no_set))
    d["__dataclass_fields__"] = Opaque("dataclass fields", cls.qualname)
    it.st.heap[cls.ns] = d
    return cls


def field_names(it, o):
    c = it.cell(o).cls if isinstance(o, Ref) and isinstance(it.cell(o), ObjC) else o
    for b in c.mro():
        if isinstance(b, ClassV) and getattr(b, "dc_fields", None) is not None:
            return [n for n, f in b.dc_fields.items() if not f["initvar"]], b.dc_fields
    it.raise_exc("TypeError", "not a dataclass")


def replace(it, o, kw):
    ns, fs = field_names(it, o)
    vals = {n: it.getattr(o, n) for n in ns if fs[n]["init"] and n not in kw}
    return it.call(it.cell(o).cls, [], {**vals, **kw})


# ---------------------------------------------------------------- named tuples

def nt_fields(cls):
    for b in cls.mro():
        if isinstance(b, ClassV) and getattr(b, "nt_fields", None) is not None:
            return b.nt_fields, b.nt_defaults
    return None, None


def nt_class(it, name, fields, defaults, ns=None):
    fr = it.alloc(dict(ns or {}))
    it.captured.add(fr.a)
    cls = ClassV(name, [Builtin("tuple", tuple)], fr.a, it.cur_mod, None, f"{it.cur_mod.name}.{name}")
    cls.nt_fields, cls.nt_defaults = tuple(fields), dict(defaults)
    return cls


def nt_make(it, cls, args, kwargs):
    fields, defaults = nt_fields(cls)
    kwargs = dict(kwargs)
    vals = list(args)
    if len(vals) > len(fields):
        it.raise_exc("TypeError", f"{cls.name}() takes {len(fields)} arguments")
    for n in fields[len(vals):]:
        if n in kwargs:
            vals.append(kwargs.pop(n))
        elif n in defaults:
            vals.append(defaults[n])
        else:
            it.raise_exc("TypeError", f"{cls.name}() missing argument '{n}'")
    if kwargs:
        it.raise_exc("TypeError", f"{cls.name}() got an unexpected argument")
    return nt_value(cls, vals)


def nt_value(cls, vals):
    v = NTuple(vals)
    v._fields, v.cls = nt_fields(cls)[0], cls
    return v


def nt_getattr(it, o, name):
    """(found, value)"""
    if name in o._fields:
        return True, o[o._fields.index(name)]
    if name == "_fields":
        return True, tuple(o._fields)
    if name == "_asdict":
        return True, Native("_asdict", lambda it, a, k: it.new_dict(dict(zip(o._fields, o))))
    if name == "_replace" and o.cls is not None:
        return True, Native("_replace", lambda it, a, k: nt_value(o.cls, [k.get(n, x) for n, x in zip(o._fields, o)]))
    if name == "__class__" and o.cls is not None:
        return True, o.cls
    if o.cls is not None and it._has_in_class(o.cls, name):
        v = it.class_lookup(o.cls, name)
        if isinstance(v, ClassMV):
            return True, V.Bound(o.cls, v.fn)
        return True, it.bind_member(o, v, name)
    return False, None


def nt_setup(it, cls):
    """class P(NamedTuple): fields by annotation"""
    d = it.st.heap[cls.ns]
    cls.nt_fields = tuple(s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name))
    cls.nt_defaults = {n: d[n] for n in cls.nt_fields if n in d}
    it.st.heap[cls.ns] = {k: v for k, v in d.items() if k not in cls.nt_fields}


# ---------------------------------------------------------------- enumerations

ENUMS = ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag", "enum.IntFlag")


def is_enum(cls):
    return any(isinstance(b, Ext) and b.path in ENUMS for b in cls.mro())


def enum_setup(it, cls):
    d = dict(it.st.heap[cls.ns])
    members, last, kind = {}, F.ZERO, [b.path for b in cls.mro() if isinstance(b, Ext) and b.path in ENUMS][0]
    for k, v in list(d.items()):
        if k.startswith("__") or k.startswith("_") or isinstance(v, (FnV, StaticV, ClassMV, PropV, CachedPropV, Native, ClassV)):
            continue
        if isinstance(v, AutoV):
            v = k.lower() if kind == "enum.StrEnum" else last + F.ONE
        if isinstance(v, Form):
            last = v
        for r, w in members.values():
            if V.identical(w, v):
                d[k] = r
                break
        else:
            r = it.alloc(ObjC(cls, {"value": v, "_value_": v, "name": k, "_name_": k}))
            members[k] = (r, v)
            d[k] = r
    d["__members__"] = it.new_dict({k: r for k, (r, _) in members.items()})
    it.st.heap[cls.ns] = d
    cls.enum = members


def enum_call(it, cls, v):
    v = narrow(v)
    if isinstance(v, Ref) and isinstance(it.cell(v), ObjC) and it.cell(v).cls is cls:
        return v
    alts, rest = [], True
    for r, w in cls.enum.values():
        b = to_bdd(it.models.equals(it, v, w))
        if isinstance(b, Unk):
            return b
        alts.append((G.AND(rest, b), r))
        rest = G.AND(rest, G.NOT(b))
    it.raise_exc("ValueError", "not a valid member", guard=rest)
    return V.mk_phi([(g, r) for g, r in alts if g is not False])


def enum_item(it, cls, k):
    k = narrow(k)
    alts, rest = [], True
    for n, (r, _) in cls.enum.items():
        b = to_bdd(it.models.equals(it, k, n))
        if isinstance(b, Unk):
            return b
        alts.append((G.AND(rest, b), r))
        rest = G.AND(rest, G.NOT(b))
    it.raise_exc("KeyError", k, guard=rest)
    return V.mk_phi([(g, r) for g, r in alts if g is not False])
