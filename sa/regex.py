"""Regular expressions on constant texts; symbolic numerals stand for themselves as seven-digit numerals."""
import re
from . import forms as F
from . import models as M
from . import values as V
from .values import *   # noqa
from .forms import Form

BASE = 7310000


class ReV(Opaque):
    """a compiled pattern or a match (value object, the Python object in .o)"""
    __slots__ = ("o", "back")

    def __init__(self, tag, o, key, back=None):
        Opaque.__init__(self, tag, *key)
        self.o, self.back = o, back


class Sub(Exception):
    pass


def enc(s):
    """text handed to the regular expression machine, and the way back"""
    if not M.has_tok(s):
        return s, {}
    back, out = {}, []
    for ch in s:
        if M.is_tok(ch):
            n = str(BASE + ord(ch) - 0xE000)
            back[n] = ch
            out.append(n)
        else:
            out.append(ch)
    return "".join(out), back


def dec(t, back):
    if t is None or not back:
        return t
    t2 = re.sub(r"731\d{4}", lambda m: back.get(m.group(), m.group()), t)
    rest = "".join(c for c in t2 if not M.is_tok(c))
    if "731" in rest:
        raise Sub()
    return t2


def val(it, x, back):
    if isinstance(x, str) or x is None:
        return dec(x, back)
    if isinstance(x, (tuple, list)):
        y = [val(it, i, back) for i in x]
        return tuple(y) if isinstance(x, tuple) else it.new_list(y)
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        if back:
            raise Sub()
        return F.const(x)
    if isinstance(x, dict):
        r = it.call(Builtin("dict"), [], {})
        for k, v in x.items():
            M.setitem(it, r, k, val(it, v, back))
        return r
    raise Sub()


def match(m, back):
    if m is None:
        return None
    return ReV("re.match", m, (m.re.pattern, m.string, F.const(m.start()), F.const(m.end()), m.pos), back)


def pattern(it, p, flags=0):
    p = narrow(p)
    if isinstance(p, ReV):
        return p.o
    if not isinstance(p, str) or M.has_tok(p):
        raise Sub()
    f = flags
    if isinstance(f, Form):
        f = M.const_int(f)
    if not isinstance(f, int):
        raise Sub()
    return re.compile(p, f)


def run(it, name, p, args, kwargs):
    """one operation of a pattern"""
    names = {"split": ("string", "maxsplit"), "sub": ("repl", "string", "count"), "subn": ("repl", "string", "count")}.get(name, ("string",))
    a = dict(zip(names, args))
    if len(args) > len(names):
        raise Sub()
    a.update(kwargs)
    a = {k: narrow(v) for k, v in a.items()}
    s = a.get("string")
    if isinstance(s, Form) or s is None or isinstance(s, bool):
        it.raise_exc("TypeError", "expected string or bytes-like object")
    if not isinstance(s, str):
        raise Sub()
    t, back = enc(s)
    n = 0
    for k in ("maxsplit", "count"):
        if k in a:
            n = M.const_int(a[k]) if isinstance(a[k], Form) else a[k]
    if name in ("match", "fullmatch", "search"):
        return match(getattr(p, name)(t), back)
    if name == "findall":
        return val(it, p.findall(t), back)
    if name == "finditer":
        return it.new_list([match(m, back) for m in p.finditer(t)])
    if name == "split":
        return val(it, p.split(t, n), back)
    if name in ("sub", "subn"):
        repl = a["repl"]
        if isinstance(repl, str):
            r = p.sub(repl, t, n)
            k = p.subn(repl, t, n)[1]
        elif isinstance(repl, (ReV, Form)) or repl is None:
            raise Sub()
        else:
            out, last, k = [], 0, 0
            for m in p.finditer(t):
                if n and k >= n:
                    break
                out.append(t[last:m.start()])
                x = narrow(it.call(repl, [match(m, back)], {}))
                if not isinstance(x, str):
                    raise Sub()
                x, b2 = enc(x)
                back = {**back, **b2}
                out.append(x)
                last, k = m.end(), k + 1
            r = "".join(out) + t[last:]
        r = dec(r, back)
        return r if name == "sub" else (r, F.const(k))
    raise Sub()


def guarded(it, what, f):
    try:
        return f()
    except Sub:
        return it.unk(f"{what} on a text that is not constant")
    except (re.error, IndexError) as e:
        it.raise_exc("error" if isinstance(e, re.error) else "IndexError", str(e))


def fn(name):
    def go(it, args, kwargs):
        kw = dict(kwargs)
        fl = kw.pop("flags", 0)
        npos = {"split": 3, "sub": 4, "subn": 4}.get(name, 2)
        args = list(args)
        if len(args) > npos:
            fl = args[npos]
            args = args[:npos]
        pat = kw.pop("pattern", None) or args.pop(0)
        return guarded(it, f"re.{name}", lambda: run(it, name, pattern(it, pat, fl), args, kw))
    return go


OPS = ("match", "fullmatch", "search", "findall", "finditer", "split", "sub", "subn")
for _n in OPS:
    M.EXT_FNS["re." + _n] = fn(_n)


def compile_(it, args, kwargs):
    def f():
        p = pattern(it, args[0], args[1] if len(args) > 1 else kwargs.get("flags", 0))
        return ReV("re.pattern", p, (p.pattern, F.const(int(p.flags))))
    return guarded(it, "re.compile", f)


M.EXT_FNS["re.compile"] = compile_


def escape(it, args, kwargs):
    s = narrow(args[0])
    return re.escape(s) if isinstance(s, str) and not M.has_tok(s) else it.unk("re.escape")


M.EXT_FNS["re.escape"] = escape
for _f in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "A", "ASCII"):
    M.EXT_CONST["re." + _f] = (lambda n: lambda: F.const(int(getattr(re, n))))(_f)


def attr(it, o, name):
    """attribute of a pattern or match that is not a method; None: it is a method"""
    if o.tag == "re.match" and name in ("string", "lastgroup", "lastindex"):
        return guarded(it, name, lambda: val(it, getattr(o.o, name), o.back))
    if o.tag == "re.pattern" and name in ("pattern", "flags", "groups"):
        v = getattr(o.o, name)
        return v if isinstance(v, str) else F.const(int(v))
    if not hasattr(o.o, name):
        it.raise_exc("AttributeError", name)
    return None


def method(it, o, name, args, kwargs):
    if o.tag == "re.pattern":
        return guarded(it, name, lambda: run(it, name, o.o, args, kwargs))

    def f():
        a = []
        for x in args:
            x = narrow(x)
            x = M.const_int(x) if isinstance(x, Form) else x
            if not isinstance(x, (int, str)) and x is not None:
                raise Sub()
            a.append(x)
        if name in ("group", "groups", "groupdict", "__getitem__", "start", "end", "span"):
            if kwargs:
                raise Sub()
            return val(it, getattr(o.o, name)(*a), o.back)
        raise Sub()
    return guarded(it, name, f)
