"""String methods."""
from . import forms as F
from . import guards as G
from . import values as V
from .values import *   # noqa
from .forms import Form


def _plain(*xs):
    return all(isinstance(x, str) for x in xs)


def maketrans(it, args):
    args = [narrow(a) for a in args]
    u = it.models.has_unk(*args)
    if u:
        return u
    if len(args) == 1 and isinstance(args[0], Ref) and isinstance(it.cell(args[0]), DictC):
        d = {}
        for k, v in it.cell(args[0]).d.items():
            if isinstance(k, str) and len(k) != 1:
                it.raise_exc("ValueError", "string keys in translate table must be of length 1")
            d[F.const(ord(k)) if isinstance(k, str) else k] = v
        return it.new_dict(d)
    if not all(isinstance(a, str) and not it.models.has_tok(a) for a in args):
        return it.unk("str.maketrans of a composed string")
    try:
        return it.new_dict({F.const(k): F.const(v) if isinstance(v, int) else v for k, v in str.maketrans(*args).items()})
    except (ValueError, TypeError) as e:
        it.raise_exc(type(e).__name__, str(e))


def translate(it, o, table):
    """characters replaced one by one; a numeral stands for its digits, which the table must leave alone"""
    if not (isinstance(table, Ref) and isinstance(it.cell(table), DictC)):
        return it.unk("str.translate with an unknown table")
    d = {it.models.const_int(k) if isinstance(k, Form) else k: narrow(v) for k, v in it.cell(table).d.items()}
    d = {k: it.models.const_int(v) if isinstance(v, Form) else v for k, v in d.items()}
    if not all(isinstance(k, int) for k in d) or not all(v is None or isinstance(v, (int, str)) for v in d.values()):
        return it.unk("str.translate with an unknown table")
    t, back = enc(o)
    if (back or it.models.has_tok(t)) and any(chr(k) in "0123456789.eE+-" for k in d):
        return it.unk("str.translate of numerals")
    return dec(t.translate(d), back)


def str_method(it, o, name, args, kwargs):
    m = it.models
    args = [narrow(a) for a in args]
    if name == "maketrans":
        return maketrans(it, args)
    if name == "translate" and len(args) == 1 and isinstance(o, (str, StrV)) and not isinstance(args[0], (Phi, Unk)):
        return translate(it, o, args[0])
    u = m.has_unk(*args)
    if u:
        return u
    if any(isinstance(a, Phi) for a in args):
        i = next(i for i, a in enumerate(args) if isinstance(a, Phi))
        return it.fork_join([(g, (lambda x=x: str_method(it, o, name, args[:i] + [x] + args[i + 1:], kwargs)))
                             for g, x in args[i].alts])
    if name == "format":
        if isinstance(o, str):
            return m.str_format(it, o, args, kwargs)
        return it.unk("format of a composed string")
    if name == "join":
        items = it.iterate(args[0])
        if isinstance(items, Unk):
            return items
        if not isinstance(items, list):
            return it.unk("join of a sequence of unknown length")
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(o)
            x = narrow(x)
            if isinstance(x, (Form, bool)) or x is None:
                it.raise_exc("TypeError", "sequence item: expected str instance")
            out.append(x)
        return m.concat_str(it, out)
    if isinstance(o, str):
        a = []
        for x in args:
            if isinstance(x, Form):
                c = m.const_int(x)
                if c is None:
                    return it.unk(f"str.{name} with a symbolic number")
                a.append(c)
            elif isinstance(x, (str, bool)) or x is None:
                a.append(x)
            elif isinstance(x, tuple) and _plain(*x):
                a.append(x)
            else:
                if isinstance(x, StrV):
                    return it.unk(f"str.{name} with a composed string")
                it.raise_exc("TypeError", f"str.{name}")
        kw = {}
        for k, x in kwargs.items():
            kw[k] = m.const_int(x) if isinstance(x, Form) else x
        if m.has_tok(o):
            return tok_method(it, o, name, a, kw)
        f = getattr(o, name, None)
        if f is None:
            it.raise_exc("AttributeError", name)
        try:
            return back(it, f(*a, **kw))
        except (ValueError, TypeError, IndexError) as e:
            it.raise_exc(type(e).__name__, str(e))
    if isinstance(o, StrV):
        r = hole_method(it, o, name, args, kwargs)
        if r is not None:
            return r
    return it.unk(f"str.{name} of a composed string")


TOK_SAFE = {"replace", "strip", "lstrip", "rstrip", "split", "rsplit", "find", "index", "rfind", "count", "startswith", "endswith",
            "partition", "rpartition", "splitlines", "removeprefix", "removesuffix", "lower", "upper", "casefold", "rindex"}


def tok_method(it, o, name, a, kw):
    """string with symbolic numerals (pseudo characters): the numerals contain none of the structural characters"""
    if name not in TOK_SAFE:
        if name in ("isdigit", "isnumeric", "isalpha", "isalnum", "isspace", "isdecimal"):
            rest = "".join(c for c in o if not it.models.is_tok(c))
            if name in ("isdigit", "isnumeric", "isdecimal"):
                if rest and not getattr(rest, name)():
                    return False
                ints = all(V.is_int(it.models.TOKENS[c]) for c in o if it.models.is_tok(c))
                return True if ints else mk_bool(G.pred("digits", o))
            return False
        return it.unk(f"str.{name} of a text with symbolic numerals")
    try:
        return back(it, getattr(o, name)(*a, **kw))
    except (ValueError, TypeError, IndexError) as e:
        it.raise_exc(type(e).__name__, str(e))


def back(it, v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return F.const(v)
    if isinstance(v, tuple):
        return tuple(back(it, x) for x in v)
    if isinstance(v, list):
        return it.new_list([back(it, x) for x in v])
    if isinstance(v, bytes):
        return v
    return it.unk("string method result")


# ---------------------------------------------------------------- composed strings
# a hole (the text of a number) is one pseudo character while a method works on the text; numbers contain none of the structural characters

HOLE = 0xF0000


def is_hole(ch):
    return HOLE <= ord(ch) < HOLE + 0xFF00


def enc(o):
    back, out = [], []
    for p in o.parts if isinstance(o, StrV) else [o]:
        if isinstance(p, str):
            out.append(p)
        else:
            out.append(chr(HOLE + len(back)))
            back.append(p)
    return "".join(out), back


def dec(t, back):
    out = []
    for ch in t:
        if is_hole(ch):
            out.append(back[ord(ch) - HOLE])
        else:
            out.append(ch)
    return mk_str(out)


def dec_any(it, v, back):
    if isinstance(v, str):
        return dec(v, back)
    if isinstance(v, tuple):
        return tuple(dec_any(it, x, back) for x in v)
    if isinstance(v, list):
        return it.new_list([dec_any(it, x, back) for x in v])
    return None


HOLE_SAFE = {"replace", "strip", "lstrip", "rstrip", "split", "rsplit", "startswith", "endswith", "partition", "rpartition", "splitlines",
             "removeprefix", "removesuffix", "lower", "upper", "count", "join", "encode"}


def hole_method(it, o, name, args, kwargs):
    m = it.models
    if name not in HOLE_SAFE:
        return None
    if name == "encode":
        return o
    t, back = enc(o)
    a = []
    for x in args:
        if isinstance(x, Form):
            x = m.const_int(x)
            if x is None:
                return None
        elif isinstance(x, StrV):
            if name != "replace" or len(a) != 1:
                return None
            k = len(back)
            t2, b2 = enc(x)
            x = "".join(chr(ord(ch) + k) if is_hole(ch) else ch for ch in t2)
            back = back + b2
        elif not (isinstance(x, (str, bool)) or x is None or isinstance(x, tuple) and _plain(*x)):
            return None
        a.append(x)
    num = set("0123456789.eE+-")
    texts = [y for x in a for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, str)]
    if name in ("strip", "lstrip", "rstrip"):
        u = getattr(t, name)(*a)
        # a hole next to the cut could lose digits
        if texts and set(texts[0]) & num and ((name != "rstrip" and u and is_hole(u[0])) or (name != "lstrip" and u and is_hole(u[-1]))):
            return None
        return dec(u, back)
    pat = texts[:1] if name == "replace" else texts
    if any(y and set(y) <= num for y in pat) and back:
        return None
    kw = {}
    for k, x in kwargs.items():
        kw[k] = m.const_int(x) if isinstance(x, Form) else x
    try:
        r = getattr(t, name)(*a, **kw)
    except (ValueError, TypeError, IndexError) as e:
        it.raise_exc(type(e).__name__, str(e))
    if isinstance(r, bool):
        if r is False and back and (name == "startswith" and is_hole(t[0]) or name == "endswith" and is_hole(t[-1])):
            return None
        return r
    if isinstance(r, int):
        return F.const(r)
    return dec_any(it, r, back)


def hole_getitem(it, o, k):
    """slice or item whose position is determined by literal text only; of a text of which nothing is known, some other such text"""
    if isinstance(k, SliceV) and len(o.parts) == 1 and isinstance(o.parts[0][0], Opaque):
        return StrV([(Opaque("slice", o, k), "")])
    t, back = enc(o)
    hs = [i for i, ch in enumerate(t) if is_hole(ch)]
    first, last, n = hs[0], hs[-1], len(t)

    def cut(b):
        """position in the encoded text"""
        if b >= 0:
            return b if b <= first else None
        return n + b if n + b > last else None
    if isinstance(k, SliceV):
        sl = it.models.slice_py(k)
        if sl is None or sl.step not in (None, 1):
            return it.unk("slice of a composed string")
        lo = 0 if sl.start is None else cut(sl.start)
        hi = n if sl.stop is None else cut(sl.stop)
        if lo is None or hi is None:
            return it.unk("slice of a composed string")
        return dec(t[lo:hi], back)
    c = it.models.const_int(k) if isinstance(k, Form) else None
    if c is not None:
        q = cut(c)
        if q is not None and q < n and not is_hole(t[q]):
            return t[q]
    return it.unk("item of a composed string")
