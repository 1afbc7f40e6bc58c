"""Models of the built-ins and of the libraries the analysed code calls."""
import ast
import builtins as pyb
import collections.abc
import decimal
import math
import numbers
import re as pyre
import string as pystring
import sys as pysys
from fractions import Fraction

from .core import MAXSIZE, NativeError, SBytes, SDec, SFloat, SInt, SMono, SObj, SStr, Tok, Unknown, Val
from .lin import Imprecise, Lin
from .objects import *
from .objects import HEAP
from .ops import AUnion, NOVAL, PRIMT

Dec = decimal.Decimal


def install(I):
    T = I.T
    obj = AClass.__new__(AClass)
    obj.serial = 0
    obj.name = obj.qualname = "object"
    obj.bases, obj.ns, obj.py, obj.check, obj.module, obj.abstract = [], {}, object, None, "builtins", ()
    obj.make = lambda I, c, a, k: AObj(c) if c is obj else None
    obj.mro = [obj]
    T["object"] = obj
    obj.make = None
    I.pyT = {object: obj}

    def mk(name, py=None, base=None, make=None, check=None):
        c = AClass(name, [base or obj], {}, py=py, make=make, check=check)
        T[name] = c
        if py is not None:
            I.pyT[py] = c
        return c

    mk("type")
    T["type"].py = type
    mk("function")
    mk("method")
    mk("builtin_function_or_method")
    mk("generator")
    mk("module")
    mk("NoneType", type(None))
    mk("ellipsis", type(Ellipsis))
    mk("NotImplementedType", type(NotImplemented))
    mk("int", int, make=make_int)
    mk("bool", bool, T["int"], make=lambda I, c, a, k: I.truth(a[0]) if a else False)
    mk("float", float, make=make_float)
    mk("complex", complex, make=fold_type(complex))
    mk("str", str, make=make_str)
    mk("bytes", bytes, make=make_bytes)
    mk("bytearray", bytearray, make=lambda I, c, a, k: ABytearray(make_bytes(I, c, a, k)))
    mk("memoryview", memoryview, make=make_memoryview)
    mk("list", list, make=lambda I, c, a, k: AList(list(I.iterate(sized(I, a[0]))) if a else []))
    mk("tuple", tuple, make=lambda I, c, a, k: (a[0] if isinstance(a[0], tuple) and type(a[0]) is tuple else tuple(I.iterate(sized(I, a[0])))) if a else ())
    mk("dict", dict, make=make_dict)
    mk("set", set, make=lambda I, c, a, k: make_set(I, a, False))
    mk("frozenset", frozenset, make=lambda I, c, a, k: make_set(I, a, True))
    mk("range", range, make=make_range)
    mk("slice", slice, make=lambda I, c, a, k: ASlice(*([None] + list(a) + [None] if len(a) == 1 else list(a) + [None] * (3 - len(a)))))
    mk("Decimal", Dec, make=make_decimal)
    T["Decimal"].module = "decimal"
    mk("Fraction", Fraction, make=fold_type(Fraction))
    mk("property", make=lambda I, c, a, k: AProp(*a, **{"get": k.get("fget")} if "fget" in k else {}))
    mk("staticmethod", make=lambda I, c, a, k: AStatic(a[0]))
    mk("classmethod", make=lambda I, c, a, k: AClassM(a[0]))
    mk("super", make=lambda I, c, a, k: ASuper(a[0], a[1]))

    # exception hierarchy
    def exc(py):
        if py.__name__ in T:
            return T[py.__name__]
        base = obj if py is BaseException else exc(py.__bases__[0])
        c = AClass(py.__name__, [base], {})
        if py is BaseException:
            def init(I, a, k):
                a[0].touch("args")
                a[0].attrs["args"] = tuple(a[1:])
            c.ns["__init__"] = Native("BaseException.__init__", init)
        T[py.__name__] = c
        return c
    for n in dir(pyb):
        v = getattr(pyb, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            exc(v)

    def stopiter_value(I, a, k):
        x = a[0].attrs.get("args", ())
        return x[0] if x else None
    T["StopIteration"].ns["value"] = AProp(Native("value", stopiter_value))

    def uni(name, names):
        def get(i):
            return AProp(Native(name, lambda I, a, k: a[0].attrs["args"][i]))
        for i, n in enumerate(names):
            T[name].ns[n] = get(i)
    uni("UnicodeDecodeError", ["encoding", "object", "start", "end", "reason"])
    uni("UnicodeEncodeError", ["encoding", "object", "start", "end", "reason"])

    B = I.builtins = {}
    for n, c in T.items():
        if n not in ("function", "method", "builtin_function_or_method", "generator", "module", "Decimal", "Fraction",
                     "NoneType", "ellipsis", "NotImplementedType"):
            B[n] = c
    B["NotImplemented"] = NotImplemented
    B["Ellipsis"] = Ellipsis
    B["__debug__"] = True
    for n, f in NATIVES.items():
        B[n] = Native(n, f)
    B["EnvironmentError"] = B["IOError"] = T["OSError"]

    I.decT = {}
    I.ambient = None
    for n, f in MODULES.items():
        I.models[n] = f
    import os
    d = os.path.join(os.path.dirname(__file__), "pymodels")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            name = f[:-3]
            I.models[name] = (lambda name, path: lambda I: I.run_source(open(path).read(), name, f"<model {name}>",
                              inject=INJECT.get(name, lambda I: {})(I)))(name, os.path.join(d, f))
    I.import_module("decimal")


# ------------------------------------------------------------------------ helpers
def to_py(I, v):
    """Concrete host value, or Imprecise."""
    if isinstance(v, PRIMT):
        return v
    if isinstance(v, tuple):
        return tuple(to_py(I, x) for x in v)
    if isinstance(v, AList):
        return [to_py(I, x) for x in v.items]
    if isinstance(v, ASet):
        return (frozenset if v.frozen else set)(to_py(I, k) for k, _ in v.d.values())
    if isinstance(v, ADict):
        return {to_py(I, k): to_py(I, x) for k, x in v.d.values()}
    if isinstance(v, ABytearray):
        return (bytearray if v.kind == "bytearray" else memoryview)(to_py(I, v.val))
    if isinstance(v, ARange) and all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
        return range(v.start, v.stop, v.step)
    if isinstance(v, AObj) and v.native is not None:
        return to_py(I, v.native)
    if isinstance(v, AIter):
        return [to_py(I, x) for x in I.iterate(v)]
    raise Imprecise(f"needs a definite value: {v!r}")


def from_py(I, v):
    if isinstance(v, PRIMT):
        return v
    if isinstance(v, tuple):
        return tuple(from_py(I, x) for x in v)
    if isinstance(v, list):
        return AList([from_py(I, x) for x in v])
    if isinstance(v, (set, frozenset)):
        s = ASet(isinstance(v, frozenset))
        for x in v:
            I.dset(s, from_py(I, x), None)
        return s
    if isinstance(v, dict):
        d = ADict()
        for k, x in v.items():
            I.dset(d, from_py(I, k), from_py(I, x))
        return d
    if isinstance(v, (bytearray, memoryview)):
        return ABytearray(bytes(v), "bytearray" if isinstance(v, bytearray) else "memoryview")
    if isinstance(v, range):
        return ARange(v.start, v.stop, v.step)
    raise Imprecise(f"result {type(v)}")


def fold(I, fn, args, kwargs):
    a = [to_py(I, x) for x in args]
    k = {n: to_py(I, x) for n, x in kwargs.items()}
    try:
        r = fn(*a, **k)
    except decimal.DecimalException as e:
        I.throw(I.decT[type(e).__name__], str(e))
    except Exception as e:
        if type(e).__name__ in I.T:
            if isinstance(e, UnicodeError):
                raise AExc(I.make_exc(type(e).__name__, *[x for x in e.args]), I.loc())
            I.throw(type(e).__name__, *[str(x) for x in e.args])
        raise Imprecise(f"library exception {e!r}")
    return from_py(I, r)


def fold_type(t):
    return lambda I, c, a, k: fold(I, t, a, k)


def pyfn(name, fn):
    return Native(name, lambda I, a, k: fold(I, fn, a, k))


PURE_LIBS = ("struct", "unicodedata", "binascii", "base64", "zlib", "textwrap", "html", "codecs", "math", "string", "stringprep", "hashlib", "operator", "keyword", "urllib.parse", "ipaddress", "json")


def std(mod, n):
    """a name of a standard module that has no model of its own: constants, and pure functions for definite arguments"""
    import importlib
    if mod in PURE_LIBS:
        try:
            v = getattr(importlib.import_module(mod), n)
        except (ImportError, AttributeError):
            return Unknown(f"{mod}.{n}")
        if isinstance(v, (str, int, float, bytes, tuple)) and not n.startswith("__"):
            return v
        if callable(v) and not isinstance(v, type):
            return pyfn(n, v)
    return Unknown(f"{mod}.{n}")


# ------------------------------------------------------------------------ constructors
def make_int(I, c, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, AObj):
        f = v.cls.find("__int__") or v.cls.find("__index__") or v.cls.find("__trunc__")
        if f is not None:
            return I.call(I.bind(f, v), [], {})
        if v.native is not None:
            return make_int(I, c, [v.native] + list(a[1:]), k)
        I.throw("TypeError", "int() argument must be a string, a bytes-like object or a real number")
    if isinstance(v, (SInt, SMono)):
        return v
    if isinstance(v, SDec):
        return I.dec_to_int(v)
    if isinstance(v, Dec) and v.is_finite() and v.adjusted() < -20000:
        return 0
    if isinstance(v, Dec) and v.is_finite() and v.adjusted() > 20000:
        raise Imprecise("huge decimal")
    if isinstance(v, SFloat):
        n, _ = I.trunc_div(v.lin, 1)
        return I.mkint(n)
    if isinstance(v, (SStr,)):
        if len(v.pieces) == 1 and isinstance(v.pieces[0], tuple) and v.pieces[0][0] == "int":
            return I.mkint(v.pieces[0][1])
        raise Imprecise("int() of unknown text")
    if isinstance(v, SBytes):
        raise Imprecise("int() of unknown bytes")
    if v is None or isinstance(v, (AList, tuple, ADict, complex)) or isinstance(v, (AFunc, AClass)):
        I.throw("TypeError", "int() argument must be a string, a bytes-like object or a real number")
    if isinstance(v, SObj):
        if v.kind in ("dict", "list", "set", "object", "complex", "function"):
            I.throw("TypeError", "int() argument must be a string, a bytes-like object or a real number")
        raise Imprecise("int() of an unknown object")
    return fold(I, int, a, k)


def make_float(I, c, a, k):
    if a and isinstance(a[0], (SInt, SDec, SFloat)):
        if isinstance(a[0], SFloat) and a[0].kind == "float":
            return a[0]
        raise Imprecise("float()")
    return fold(I, float, a, k)


def make_str(I, c, a, k):
    if not a and not k:
        return ""
    if len(a) > 1 or k:
        v = a[0] if a else k.get("object", b"")
        return prim_bytes(I, I.as_bytes(v), "decode", list(a[1:]), {x: y for x, y in k.items() if x != "object"})
    return I.tostr(a[0])


def make_bytes(I, c, a, k):
    if not a:
        return b""
    v = a[0]
    if isinstance(v, (str, SStr)):
        if len(a) < 2 and "encoding" not in k:
            I.throw("TypeError", "string argument without an encoding")
        return prim_str(I, v, "encode", list(a[1:]), k)
    if isinstance(v, (bytes, SBytes)):
        return v
    if isinstance(v, ABytearray):
        return v.val
    if isinstance(v, AObj):
        f = v.cls.find("__bytes__")
        if f is not None:
            return I.call(I.bind(f, v), [], {})
        if isinstance(v.native, (bytes, SBytes)):
            return v.native
    if isinstance(v, (int, SInt)):
        if not I.is_ge0(I.lin(v)):
            I.throw("ValueError", "negative count")
        I.sizecheck(v, 50)
        return I.repeat(b"\0", v)
    if isinstance(v, (float, type(None), Dec, SDec, SFloat)):
        I.throw("TypeError", f"cannot convert '{I.typename(v)}' object to bytes")
    segs = []
    for x in I.iterate(v):
        x = I.index(x)
        if not isinstance(x, (int, SInt)):
            I.throw("TypeError", f"'{I.typename(x)}' object cannot be interpreted as an integer")
        e = I.lin(x)
        if not I.is_ge0(e) or not I.is_ge0(Lin({}, 255) - e):
            I.throw("ValueError", "bytes must be in range(0, 256)")
        segs.append(("be", e, 1))
    return I.mkbytes(tuple(segs))


def make_memoryview(I, c, a, k):
    v = a[0]
    if isinstance(v, (bytes, SBytes, ABytearray)):
        return ABytearray(I.as_bytes(v), "memoryview")
    I.throw("TypeError", f"memoryview: a bytes-like object is required, not '{I.typename(v)}'")


def make_dict(I, c, a, k):
    d = ADict()
    dict_update(I, d, a, k)
    return d


def dict_update(I, d, a, k):
    if a:
        v = a[0]
        if isinstance(v, ADict) and not isinstance(v, ASet):
            for kk, x in list(v.d.values()):
                I.dset(d, kk, x)
        elif isinstance(v, AObj) and v.cls.find("keys") is not None:
            for kk in I.iterate(I.call(I.getattr(v, "keys"), [], {})):
                I.dset(d, kk, I.getitem(v, kk))
        else:
            for p in I.iterate(v):
                xs = list(I.iterate(p))
                if len(xs) != 2:
                    I.throw("ValueError", "dictionary update sequence element has wrong length")
                I.dset(d, xs[0], xs[1])
    for kk, x in k.items():
        I.dset(d, kk, x)


def make_set(I, a, frozen):
    s = ASet(frozen)
    if a:
        for x in I.iterate(a[0]):
            I.dset(s, x, None)
    return s


def sized(I, v):
    """list() and tuple() ask for the length first"""
    if isinstance(v, ARange):
        I.sizecheck(I.range_len(v), 50)
    return v


def make_range(I, c, a, k):
    a = [I.index(x) for x in a]
    a = [I.resolve_mono(x) if isinstance(x, SMono) else x for x in a]
    for x in a:
        if not isinstance(x, (int, SInt)):
            I.throw("TypeError", f"'{I.typename(x)}' object cannot be interpreted as an integer")
    if len(a) == 1:
        return ARange(0, a[0], 1)
    if len(a) == 2:
        return ARange(a[0], a[1], 1)
    if a[2] == 0:
        I.throw("ValueError", "range() arg 3 must not be zero")
    return ARange(*a)


def make_decimal(I, c, a, k):
    v = a[0] if a else k.get("value", 0)
    if isinstance(v, SInt):
        return I.mkdec(v.lin, 0)
    if isinstance(v, SDec):
        return v
    if isinstance(v, AObj) and v.native is not None:
        v = v.native
    if isinstance(v, (SFloat, SStr, SMono)):
        if isinstance(v, SFloat) and v.kind != "float":
            I.throw("TypeError", "conversion from Fraction to Decimal is not supported")
        raise Imprecise("Decimal() of an unknown value")
    if isinstance(v, (complex, Fraction, type(None), bytes)) or isinstance(v, (SObj, SBytes)):
        I.throw("TypeError", f"conversion from {I.typename(v)} to Decimal is not supported")
    return fold(I, Dec, [v], {})


# ------------------------------------------------------------------------ built-in functions
def n_len(I, a, k):
    return I.len(a[0])


def n_sum(I, a, k):
    tot = a[1] if len(a) > 1 else k.get("start", 0)
    for x in I.iterate(a[0]):
        tot = I.binop("+", tot, x)
    return tot


def n_any(I, a, k):
    v = a[0]
    if isinstance(v, (SBytes, ABytearray)):
        b = I.as_bytes(v)
        return not I.eq_bytes(b, I.repeat(b"\0", I.mkint(I.blen(b)))) if isinstance(b, SBytes) else any(b)
    for x in I.iterate(v):
        if I.truth(x):
            return True
    return False


def n_all(I, a, k):
    for x in I.iterate(a[0]):
        if not I.truth(x):
            return False
    return True


def n_minmax(op):
    def f(I, a, k):
        key = k.get("key")
        xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            I.throw("ValueError", f"{'min' if op == '<' else 'max'}() arg is an empty sequence")
        best = xs[0]
        kb = I.call(key, [best], {}) if key else best
        for x in xs[1:]:
            kx = I.call(key, [x], {}) if key else x
            if I.truth(I.compare(op, kx, kb)):
                best, kb = x, kx
        return best
    return f


def n_zip(I, a, k):
    its = [I.iterate(x) for x in a]
    strict = k.get("strict", False)

    def go():
        while its:
            row = []
            for i, it in enumerate(its):
                try:
                    row.append(next(it))
                except StopIteration:
                    if strict:
                        if i:
                            I.throw("ValueError", "zip() argument is shorter")
                        for j in its[1:]:
                            try:
                                next(j)
                            except StopIteration:
                                continue
                            I.throw("ValueError", "zip() argument is longer")
                    return
            yield tuple(row)
    return AIter(go(), "zip")


def n_map(I, a, k):
    its = [I.iterate(x) for x in a[1:]]

    def go():
        while True:
            row = []
            for it in its:
                try:
                    row.append(next(it))
                except StopIteration:
                    return
            yield I.call(a[0], row, {})
    return AIter(go(), "map")


def n_filter(I, a, k):
    it = I.iterate(a[1])

    def go():
        for x in it:
            if I.truth(x if a[0] is None else I.call(a[0], [x], {})):
                yield x
    return AIter(go(), "filter")


def n_enumerate(I, a, k):
    it = I.iterate(a[0])
    s = a[1] if len(a) > 1 else k.get("start", 0)

    def go():
        i = s
        for x in it:
            yield (i, x)
            i = I.binop("+", i, 1)
    return AIter(go(), "enumerate")


def n_reversed(I, a, k):
    v = a[0]
    if isinstance(v, AObj) and v.cls.find("__reversed__") is not None:
        return I.call(I.bind(v.cls.find("__reversed__"), v), [], {})
    return AIter(iter(list(I.iterate(v))[::-1]), "reversed")


def n_sorted(I, a, k):
    xs = list(I.iterate(a[0]))
    sort(I, xs, k)
    return AList(xs)


def sort(I, xs, k):
    import functools
    key = k.get("key")
    ks = [(I.call(key, [x], {}) if key else x, x) for x in xs]

    def cmp(p, q):
        if I.truth(I.compare("<", p[0], q[0])):
            return -1
        if I.truth(I.compare("<", q[0], p[0])):
            return 1
        return 0
    ks.sort(key=functools.cmp_to_key(cmp), reverse=I.truth(k.get("reverse", False)))
    xs[:] = [x for _, x in ks]


def n_iter(I, a, k):
    if len(a) == 2:
        def go():
            while True:
                x = I.call(a[0], [], {})
                if I.eq(x, a[1]):
                    return
                yield x
        return AIter(go())
    v = a[0]
    if isinstance(v, AIter):
        return v
    if isinstance(v, AObj):
        f = v.cls.find("__iter__")
        if f is not None:
            return I.call(I.bind(f, v), [], {})
    return AIter(I.iterate(v))


def n_next(I, a, k):
    return I.next(a[0], *a[1:])


def n_getattr(I, a, k):
    if not isinstance(a[1], str):
        raise Imprecise("getattr name")
    if len(a) > 2:
        try:
            return I.getattr(a[0], a[1])
        except AExc as e:
            if I.T["AttributeError"] in e.obj.cls.mro:
                return a[2]
            raise
    return I.getattr(a[0], a[1])


def n_hasattr(I, a, k):
    try:
        I.getattr(a[0], a[1])
        return True
    except AExc as e:
        if I.T["AttributeError"] in e.obj.cls.mro:
            return False
        raise


def n_abs(I, a, k):
    v = a[0]
    if isinstance(v, SInt):
        return v if I.is_ge0(v.lin) else I.mkint(-v.lin)
    if isinstance(v, SDec):
        return I.dec_round(v if I.is_ge0(v.num) else SDec(-v.num, v.exp), I.prec(), "abs")
    if isinstance(v, AObj):
        f = v.cls.find("__abs__")
        if f is not None:
            return I.call(I.bind(f, v), [], {})
    if isinstance(v, Dec):
        return I.dec_round(v.copy_abs(), I.prec(), "abs")
    return fold(I, abs, a, k)


def n_divmod(I, a, k):
    return (I.binop("//", a[0], a[1]), I.binop("%", a[0], a[1]))


def n_pow(I, a, k):
    if len(a) == 3:
        return fold(I, pow, a, k)
    return I.binop("**", a[0], a[1])


def n_hash(I, a, k):
    i = I.key_id(a[0])
    if i[0] == "uh":
        return i[1]
    if i[0] in ("s", "us"):
        raise Imprecise("hash of an unknown value")
    return hash(i)


def n_type_isinstance(I, a, k):
    return I.isinstance(a[0], a[1])


def n_setattr(I, a, k):
    if not isinstance(a[1], str):
        raise Imprecise("setattr name")
    I.setattr(a[0], a[1], a[2])


def n_repr(I, a, k):
    return I.repr(a[0])


def n_round(I, a, k):
    if isinstance(a[0], (int, SInt)) and len(a) == 1:
        return a[0]
    return fold(I, round, a, k)


def n_id(I, a, k):
    return id(a[0])


def n_print(I, a, k):
    I.p.events.append(("print", "print", I.loc()))


def n_dir(I, a, k):
    raise Imprecise("dir")


def n_import(I, a, k):
    return I.import_module(a[0])


def n_vars(I, a, k):
    return I.getattr(a[0], "__dict__")


NATIVES = {
    "len": n_len, "sum": n_sum, "any": n_any, "all": n_all, "min": n_minmax("<"), "max": n_minmax(">"), "zip": n_zip,
    "map": n_map, "filter": n_filter, "enumerate": n_enumerate, "reversed": n_reversed, "sorted": n_sorted,
    "iter": n_iter, "next": n_next, "getattr": n_getattr, "hasattr": n_hasattr, "setattr": n_setattr,
    "delattr": lambda I, a, k: I.delattr(a[0], a[1]),
    "isinstance": n_type_isinstance, "issubclass": lambda I, a, k: I.issubclass(a[0], a[1]),
    "callable": lambda I, a, k: I.callable(a[0]), "repr": n_repr, "ascii": n_repr, "abs": n_abs, "divmod": n_divmod,
    "pow": n_pow, "hash": n_hash, "id": n_id, "print": n_print, "round": n_round, "dir": n_dir,
    "format": lambda I, a, k: I.format(a[0], a[1] if len(a) > 1 else ""),
    "chr": lambda I, a, k: fold(I, chr, a, k), "ord": lambda I, a, k: n_ord(I, a, k), "hex": lambda I, a, k: n_hex(I, a, k),
    "bin": lambda I, a, k: n_hex(I, a, k, bin), "oct": lambda I, a, k: n_hex(I, a, k, oct),
    "globals": None, "locals": None, "eval": None, "exec": None, "__import__": n_import, "vars": n_vars,
}
for _n in ("globals", "locals", "eval", "exec"):
    NATIVES[_n] = (lambda n: lambda I, a, k: (_ for _ in ()).throw(Imprecise(n)))(_n)


def n_ord(I, a, k):
    if isinstance(a[0], SBytes):
        return I.mkint(I.to_int(a[0]))
    return fold(I, ord, a, k)


def n_hex(I, a, k, f=hex):
    if isinstance(a[0], SInt):
        return I.tok(f"{f.__name__}({a[0]!r})")
    return fold(I, f, a, k)


# ------------------------------------------------------------------------ methods of built-in types
def prim_attr(I, o, name):
    pt = I.pytype(o)
    if isinstance(o, AView):
        pt = type({}.keys()) if o.kind == "keys" else type({}.values()) if o.kind == "values" else type({}.items())
    if isinstance(o, AIter):
        if name in ("__iter__", "__next__", "send", "throw", "close"):
            return PrimMethod(name, o)
        return NOVAL
    if pt is None:
        if isinstance(o, PrimMethod):
            return o.name if name == "__name__" else NOVAL
        if isinstance(o, SObj):
            return NOVAL
        return NOVAL
    if name == "__class__":
        return I.typeof(o)
    if name == "__doc__":
        return None
    if not hasattr(pt, name):
        return NOVAL
    if isinstance(o, (int, SInt)) and name in ("real", "numerator"):
        return o if not isinstance(o, bool) else int(o)
    if isinstance(o, (int, SInt)) and name in ("imag", "denominator"):
        return 0 if name == "imag" else 1
    if isinstance(o, ASlice) and name in ("start", "stop", "step"):
        return getattr(o, name)
    if isinstance(o, ARange) and name in ("start", "stop", "step"):
        return getattr(o, name)
    if isinstance(o, ABytearray) and name == "nbytes":
        return I.len(o.val)
    a = getattr(pt, name)
    if not callable(a):
        if isinstance(o, PRIMT):
            return from_py(I, getattr(o, name))
        raise Imprecise(f"attribute {name} of {o!r}")
    return PrimMethod(name, o)


def type_attr(I, c, name):
    """Attribute of a built-in class: an unbound method."""
    py = c.py
    if not hasattr(py, name):
        return NOVAL
    if py is int and name == "from_bytes":
        return Native(name, int_from_bytes)
    if py in (bytes, bytearray) and name == "fromhex":
        return Native(name, lambda I, a, k: fold(I, getattr(py, name), a, k))
    if py is dict and name == "fromkeys":
        def fk(I, a, k):
            d = ADict()
            for x in I.iterate(a[0]):
                I.dset(d, x, a[1] if len(a) > 1 else None)
            return d
        return Native(name, fk)
    if py is str and name == "maketrans":
        return Native(name, lambda I, a, k: fold(I, str.maketrans, a, k))
    if py is Dec and name in ("from_float",):
        return Native(name, lambda I, a, k: fold(I, Dec.from_float, a, k))
    if name == "__new__":
        return Native(name, lambda I, a, k: I.alloc(a[0], a[1:], k) if a[0] is not c else I.call(c, a[1:], k))
    if name == "__init__" and py is object:
        return Native(name, lambda I, a, k: None)
    if py is object and name in ("__setattr__",):
        def sa(I, a, k):
            a[0].touch(a[1])
            a[0].attrs[a[1]] = a[2]
        return Native(name, sa)
    if py is object and name in ("__eq__", "__hash__", "__repr__", "__str__", "__format__"):
        return Native(name, lambda I, a, k: I.call(I.object_method(a[0], name), a[1:], k) if isinstance(a[0], AObj) else f"<{I.typename(a[0])} object>")
    if callable(getattr(py, name)):
        return Native(f"{py.__name__}.{name}", lambda I, a, k: prim_call(I, a[0], name, list(a[1:]), k))
    raise Imprecise(f"{py.__name__}.{name}")


BINDUN = {"__add__": "+", "__sub__": "-", "__mul__": "*", "__mod__": "%", "__floordiv__": "//", "__truediv__": "/",
          "__pow__": "**", "__lshift__": "<<", "__rshift__": ">>", "__and__": "&", "__or__": "|", "__xor__": "^"}
CMPDUN = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}


def prim_call(I, o, name, a, k):
    if isinstance(o, AObj) and o.native is not None:
        o = o.native
    if isinstance(o, AIter):
        return iter_method(I, o, name, a, k)
    if name in BINDUN:
        return I.binop(BINDUN[name], o, a[0])
    if name in CMPDUN:
        return I.compare(CMPDUN[name], o, a[0])
    if name == "__len__":
        return I.len(o)
    if name == "__getitem__":
        return I.getitem(o, a[0])
    if name == "__setitem__":
        return I.setitem(o, a[0], a[1])
    if name == "__delitem__":
        return I.delitem(o, a[0])
    if name == "__contains__":
        return I.contains(o, a[0])
    if name == "__iter__":
        return n_iter(I, [o], {})
    if name == "__repr__":
        return I.repr(o)
    if name == "__str__":
        return I.tostr(o)
    if name == "__hash__":
        return n_hash(I, [o], {})
    if name == "__bool__":
        return I.truth(o)
    if name == "__int__" or name == "__index__":
        return make_int(I, None, [o], {})
    if name == "__abs__":
        return n_abs(I, [o], {})
    if name == "__neg__":
        return I.unop("-", o)
    if name == "__format__":
        return I.format(o, a[0])
    if isinstance(o, AList):
        return list_method(I, o, name, a, k)
    if isinstance(o, ASet):
        return set_method(I, o, name, a, k)
    if isinstance(o, ADict):
        return dict_method(I, o, name, a, k)
    if isinstance(o, tuple):
        if name == "count":
            return sum(1 for x in o if I.eq(x, a[0]))
        if name == "index":
            for i, x in enumerate(o):
                if I.eq(x, a[0]):
                    return i
            I.throw("ValueError", "tuple.index(x): x not in tuple")
    if isinstance(o, AView):
        if name == "isdisjoint":
            return not any(I.dget(o.d, x)[0] for x in I.iterate(a[0]))
        raise Imprecise(f"view method {name}")
    if isinstance(o, ABytearray):
        return bytearray_method(I, o, name, a, k)
    if isinstance(o, (bytes, SBytes)):
        return prim_bytes(I, o, name, a, k)
    if isinstance(o, (str, SStr)):
        return prim_str(I, o, name, a, k)
    if isinstance(o, (int, SInt, SMono)):
        return prim_int(I, o, name, a, k)
    if isinstance(o, (Dec, SDec)):
        return prim_dec(I, o, name, a, k)
    if isinstance(o, ARange):
        if name == "index" or name == "count":
            return fold(I, getattr(range, name), [o] + a, k)
    if isinstance(o, SFloat):
        raise Imprecise(f"float method {name}")
    if isinstance(o, SObj):
        raise Imprecise(f"method {name} of {o!r}")
    return fold(I, getattr(type(o), name), [o] + list(a), k)


def iter_method(I, o, name, a, k):
    if name == "__iter__":
        return o
    if name == "__next__":
        return I.next(o)
    try:
        if name == "send":
            return o.it.send(a[0])
        if name == "throw":
            e = a[0] if isinstance(a[0], AObj) else I.call(a[0], [], {})
            return o.it.throw(AExc(e, I.loc()))
        if name == "close":
            o.it.close()
            return None
    except StopIteration as s:
        I.throw("StopIteration", s.value)


def list_method(I, o, name, a, k):
    xs = o.items
    if name == "append":
        o.touch(name)
        xs.append(a[0])
        return None
    if name == "extend":
        new = list(I.iterate(a[0]))
        o.touch(name)
        xs.extend(new)
        return None
    if name == "insert":
        o.touch(name)
        xs.insert(I.concretize(a[0]), a[1])
        return None
    if name == "pop":
        if not xs:
            I.throw("IndexError", "pop from empty list")
        i = I.concretize(a[0]) if a else -1
        if not -len(xs) <= i < len(xs):
            I.throw("IndexError", "pop index out of range")
        o.touch(name)
        return xs.pop(i)
    if name == "remove":
        for i, x in enumerate(xs):
            if I.eq(x, a[0]):
                o.touch(name)
                del xs[i]
                return None
        I.throw("ValueError", "list.remove(x): x not in list")
    if name == "clear":
        o.touch(name)
        xs.clear()
        return None
    if name == "copy":
        return AList(list(xs))
    if name == "reverse":
        o.touch(name)
        xs.reverse()
        return None
    if name == "sort":
        new = list(xs)
        sort(I, new, k)
        o.touch(name)
        xs[:] = new
        return None
    if name == "index":
        for i, x in enumerate(xs):
            if I.eq(x, a[0]):
                return i
        I.throw("ValueError", "x not in list")
    if name == "count":
        return sum(1 for x in xs if I.eq(x, a[0]))
    raise Imprecise(f"list.{name}")


def dict_method(I, o, name, a, k):
    if name == "get":
        h, v = I.dget(o, a[0])
        return v if h else a[1] if len(a) > 1 else None
    if name in ("keys", "values", "items"):
        return AView(o, name)
    if name == "pop":
        h, v = I.dget(o, a[0])
        if h:
            I.ddel(o, a[0])
            return v
        if len(a) > 1:
            return a[1]
        I.throw("KeyError", a[0])
    if name == "setdefault":
        h, v = I.dget(o, a[0])
        if h:
            return v
        v = a[1] if len(a) > 1 else None
        I.dset(o, a[0], v)
        return v
    if name == "update":
        return dict_update(I, o, a, k)
    if name == "clear":
        o.touch(name)
        if o.owner is not None:
            o.owner[0].touch(name)
            o.owner[1].clear()
        o.d.clear()
        o.uh.clear()
        return None
    if name in ("copy", "__copy__"):
        d = ADict()
        d.d.update(o.d)
        d.uh.update({x: list(y) for x, y in o.uh.items()})
        d.default = o.default
        return d
    if name == "popitem":
        if not o.d:
            I.throw("KeyError", "popitem(): dictionary is empty")
        kk, v = list(o.d.values())[-1]
        I.ddel(o, kk)
        return (kk, v)
    raise Imprecise(f"dict.{name}")


def set_method(I, o, name, a, k):
    if name == "add":
        if not I.dget(o, a[0])[0]:
            I.dset(o, a[0], None)
        return None
    if name in ("discard", "remove"):
        if I.dget(o, a[0])[0]:
            I.ddel(o, a[0])
        elif name == "remove":
            I.throw("KeyError", a[0])
        return None
    if name == "copy":
        s = ASet(o.frozen)
        s.d.update(o.d)
        s.uh.update({x: list(y) for x, y in o.uh.items()})
        return s
    if name == "clear":
        o.touch(name)
        o.d.clear()
        o.uh.clear()
        return None
    if name == "update":
        for s in a:
            for x in I.iterate(s):
                I.dset(o, x, None)
        return None
    ops = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}
    if name in ops:
        r = o
        for s in a:
            r = I.binop(ops[name], r, s if isinstance(s, ASet) else make_set(I, [s], False))
        return r if r is not o else set_method(I, o, "copy", [], {})
    if name in ("issubset", "issuperset"):
        return I.compare("<=" if name == "issubset" else ">=", o, a[0] if isinstance(a[0], ASet) else make_set(I, [a[0]], False))
    if name == "isdisjoint":
        return not any(I.dget(o, x)[0] for x in I.iterate(a[0]))
    if name == "pop":
        if not o.d:
            I.throw("KeyError", "pop from an empty set")
        kk, _ = list(o.d.values())[0]
        I.ddel(o, kk)
        return kk
    raise Imprecise(f"set.{name}")


def bytearray_method(I, o, name, a, k):
    if o.kind == "memoryview":
        if name == "tobytes":
            return o.val
        if name in ("release", "__exit__"):
            return None
        if name == "__enter__":
            return o
        if name == "hex":
            return prim_bytes(I, o.val, name, a, k)
        if name == "toreadonly":
            return o
        raise Imprecise(f"memoryview.{name}")
    if name == "append":
        o.touch(name)
        o.val = I.concat(o.val, make_bytes(I, None, [AList([a[0]])], {}))
        return None
    if name == "extend":
        o.touch(name)
        o.val = I.concat(o.val, make_bytes(I, None, [a[0]], {}))
        return None
    if name == "clear":
        o.touch(name)
        o.val = b""
        return None
    if name == "copy":
        return ABytearray(o.val)
    r = prim_bytes(I, o.val, name, a, k)
    if name in ("rjust", "ljust", "join", "zfill", "strip", "rstrip", "lstrip", "replace", "center", "removeprefix", "removesuffix"):
        return ABytearray(r)
    return r


def int_from_bytes(I, a, k):
    b = a[0]
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    signed = I.truth(k.get("signed", False))
    if not isinstance(b, (bytes, SBytes, ABytearray)):
        b = make_bytes(I, None, [b], {})
    b = I.as_bytes(b)
    if order not in ("big", "little"):
        I.throw("ValueError", "byteorder must be either 'little' or 'big'")
    if order == "little":
        segs = I.resolved(I.segs(b))
        n = I.const_len(segs)
        if not n.is_const() or n.c > 64:
            raise Imprecise("little-endian integer")
        e = Lin({}, 0)
        for i in range(n.c):
            e = e + I.to_int(I.slice_bytes(b, i, i + 1)) * (1 << (8 * i))
    else:
        e = I.to_int(b)
    if signed:
        n = I.blen(b) if isinstance(b, SBytes) else Lin({}, len(b))
        if not n.is_const():
            raise Imprecise("signed integer of unknown width")
        if n.c and I.is_ge0(e - (1 << (8 * n.c - 1))):
            e = e - (1 << (8 * n.c))
    return I.mkint(e)


def prim_int(I, o, name, a, k):
    if name == "to_bytes":
        length = a[0] if a else k.get("length", 1)
        order = a[1] if len(a) > 1 else k.get("byteorder", "big")
        signed = I.truth(k.get("signed", False))
        if isinstance(o, SMono):
            o = I.resolve_mono(o)
        e = I.norm(I.lin(o))
        if type(length) is SMono:
            f = length.f
            pts = sorted({x for i in range(0, 700) for x in ((1 << i) - 1, 1 << i)})
            same = all(f(x) == ((x.bit_length() + 7) // 8) for x in pts)
            same1 = all(f(x) == ((x.bit_length() + 7) // 8 or 1) for x in pts)
            if I.norm(length.v) == e and (same or same1) and not signed and order == "big":
                if not I.is_ge0(e):
                    I.throw("OverflowError", "can't convert negative int to unsigned")
                if I.is_eq0(e):
                    return b"" if same else b"\0"
                return I.mkbytes((("min", e),))
        if isinstance(length, SMono):
            length = I.resolve_mono(length)
        if isinstance(length, SInt):
            length = I.concretize(length)
        if length < 0:
            I.throw("ValueError", "length argument must be non-negative")
        if signed:
            h = 1 << (8 * length - 1) if length else 0
            if not length or not I.is_ge0(e + h) or not I.is_ge0(Lin({}, h - 1) - e):
                if not length and I.is_eq0(e):
                    return b""
                I.throw("OverflowError", "int too big to convert")
            if not I.is_ge0(e):
                e = e + (1 << (8 * length))
        else:
            if not I.is_ge0(e):
                I.throw("OverflowError", "can't convert negative int to unsigned")
            if not I.is_ge0(Lin({}, (1 << (8 * length)) - 1) - e):
                I.throw("OverflowError", "int too big to convert")
        r = I.mkbytes((("be", e, length),)) if length else b""
        if order == "little":
            if isinstance(r, bytes):
                return r[::-1]
            out = b""
            for i in range(length):
                out = I.concat(I.slice_bytes(r, i, i + 1), out)
            return out
        if order != "big":
            I.throw("ValueError", "byteorder must be either 'little' or 'big'")
        return r
    if isinstance(o, int):
        if name == "from_bytes":
            return int_from_bytes(I, a, k)
        return fold(I, getattr(type(o), name), [o] + list(a), k)
    if name == "bit_length" and isinstance(o, SInt):
        return SMono(I.norm(o.lin), lambda x: x.bit_length(), "bits")
    if name == "from_bytes":
        return int_from_bytes(I, a, k)
    if name in ("conjugate", "__trunc__", "__ceil__", "__floor__", "__pos__"):
        return o
    if name == "is_integer":
        return True
    raise Imprecise(f"int.{name}")


def prim_bytes(I, o, name, a, k):
    if name in ("rjust", "ljust"):
        fill = a[1] if len(a) > 1 else b" "
        if isinstance(fill, ABytearray):
            fill = fill.val
        w = I.index(a[0])
        if not isinstance(w, (int, SInt)):
            if isinstance(w, SMono):
                w = I.resolve_mono(w)
            else:
                I.throw("TypeError", f"'{I.typename(w)}' object cannot be interpreted as an integer")
        if isinstance(o, bytes) and isinstance(w, int) and isinstance(fill, bytes) and w < 1 << 16:
            return fold(I, getattr(bytes, name), [o, w, fill], {})
        return I.just(o, w, fill, name == "rjust")
    if name == "join":
        out = []
        first = True
        for x in I.iterate(a[0]):
            if not isinstance(x, (bytes, SBytes, ABytearray)) and not (isinstance(x, AObj) and isinstance(x.native, (bytes, SBytes))):
                if isinstance(x, Unknown):
                    raise Imprecise("join")
                I.throw("TypeError", f"sequence item: expected a bytes-like object, {I.typename(x)} found")
            if not first:
                out.extend(I.segs(o))
            first = False
            out.extend(I.segs(I.as_bytes(x)))
        return I.mkbytes(tuple(out))
    if name == "decode":
        enc = a[0] if a else k.get("encoding", "utf-8")
        err = a[1] if len(a) > 1 else k.get("errors", "strict")
        return decode_text(I, o, enc, err)
    if name == "hex":
        if isinstance(o, bytes):
            return fold(I, bytes.hex, [o] + list(a), k)
        return SStr((Tok("hex", addr=None, src=("hex", o)),))
    if isinstance(o, bytes):
        try:
            return fold(I, getattr(bytes, name), [o] + list(a), k)
        except Imprecise:
            if name not in ("startswith", "endswith", "count", "strip", "lstrip", "rstrip"):
                raise
    if name in ("startswith", "endswith"):
        p = a[0]
        if isinstance(p, tuple):
            return any(prim_bytes(I, o, name, [x], {}) for x in p)
        p = I.as_bytes(p)
        n = I.blen(p) if isinstance(p, SBytes) else Lin({}, len(p))
        L = I.blen(o) if isinstance(o, SBytes) else Lin({}, len(o))
        if not I.is_ge0(L - n):
            return False
        part = I.slice_bytes(o, 0, I.mkint(n)) if name == "startswith" else I.slice_bytes(o, I.mkint(L - n), None)
        return I.eq_bytes(part, p)
    if name in ("strip", "lstrip", "rstrip"):
        ch = a[0] if a else b" \t\n\r\v\f"
        if isinstance(ch, ABytearray):
            ch = ch.val
        if ch is None:
            ch = b" \t\n\r\v\f"
        if isinstance(ch, bytes):
            return I.strip_bytes(o, bytes(dict.fromkeys(ch)), name != "rstrip", name != "lstrip")
        raise Imprecise(f"bytes.{name}")
    if name == "count":
        ch = a[0]
        if isinstance(ch, int):
            ch = bytes([ch])
        if isinstance(ch, bytes) and len(ch) == 1:
            L = I.blen(o)
            if I.eq_bytes(o, I.mkbytes((("fill", ch[0], L),))):
                return I.mkint(L)
            s = I.p.store.fresh("count", 0)
            I.p.store.assume_ge0(L - 1 - Lin.sym(s))
            return I.mkint(Lin.sym(s))
    if name in ("zfill", "removeprefix", "removesuffix"):
        if name == "removeprefix":
            if prim_bytes(I, o, "startswith", a, {}):
                return I.slice_bytes(o, I.len(a[0]), None)
            return o
    raise Imprecise(f"bytes.{name}")


def is_utf8(enc):
    return isinstance(enc, str) and enc.lower().replace("-", "").replace("_", "") in ("utf8", "u8")


def decode_text(I, b, enc, err):
    if isinstance(b, bytes):
        return fold(I, bytes.decode, [b, enc, err], {})
    if not is_utf8(enc):
        if isinstance(enc, str) and enc.lower() in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1"):
            tag = "ascii" if "ascii" in enc.lower() else "latin1"
        else:
            raise Imprecise(f"decoding as {enc!r}")
    else:
        tag = "utf8"
    if isinstance(err, (SStr,)):
        raise Imprecise("error mode")
    segs = I.resolved(I.segs(b))
    if not I.is_ge0(I.const_len(segs) - 1):
        return ""
    from .core import fmt_segs
    segs = tuple((s[0], s[1], I.norm(s[2]), I.norm(s[3])) if s[0] == "raw" else s for s in segs)
    # text that was made by encoding unknown text decodes to that text
    if len(segs) == 1 and segs[0][0] == "raw" and tag == "utf8" and ("utf8tok", segs[0][1]) in I.p.atoms:
        t, ln = I.p.atoms[("utf8tok", segs[0][1])]
        if segs[0][2] == Lin({}, 0) and I.is_eq0(segs[0][3] - ln):
            return SStr((t,))
    key = ("text", tag, fmt_segs(segs), err if err != "strict" else "strict")
    if err == "strict" and tag != "latin1":
        ok = I.atom(("validtext", tag, fmt_segs(segs)), f"{fmt_segs(segs)} is valid {tag}")
        if not ok:
            raise NativeError("UnicodeDecodeError", "utf-8", b, 0, 1, "invalid start byte")
    tok = I.p.atoms.get(key)
    if tok is None:
        tok = I.p.atoms[key] = Tok(f"{tag}({fmt_segs(segs)}){'' if err == 'strict' else '/' + str(err)}", src=(tag, segs, err))
    return SStr((tok,))


def encode_text(I, s, enc, err):
    if isinstance(s, str):
        return fold(I, str.encode, [s, enc, err], {})
    utf = is_utf8(enc)
    if not utf:
        if isinstance(enc, str) and enc.lower() in ("ascii", "latin-1", "latin1") and all(
                isinstance(p, str) or isinstance(p, Tok) and p.addr is not None for p in s.pieces):
            pass
        else:
            raise Imprecise(f"encoding as {enc!r}")
    out = []
    for p in s.pieces:
        if isinstance(p, str):
            b = p.encode(enc, err)
            out.extend(I.segs(b))
        elif isinstance(p, Tok):
            if p.utf8 is False:
                if err == "strict":
                    raise NativeError("UnicodeEncodeError", "utf-8", s, 0, 1, "surrogates not allowed")
                src = f"{p.name}@utf8/{err}"
            else:
                src = f"{p.name}@utf8"
            if p.src is not None and p.src[0] == "utf8":
                out.extend(p.src[1])
                continue
            ln = I.p.atoms.get(("utf8len", src))
            if ln is None:
                y = I.p.store.fresh(f"len({src})", 0, MAXSIZE)
                ln = I.p.atoms[("utf8len", src)] = Lin.sym(y)
                if p.utf8 is not False:
                    I.p.atoms[("utf8tok", src)] = (p, ln)
                if p.ln is not None:
                    I.p.store.assume_ge0(ln - p.ln)
                    I.p.store.assume_ge0(p.ln * 4 - ln)
            out.append(("raw", src, Lin({}, 0), ln))
        else:
            raise Imprecise("encoding of a rendered number")
    return I.mkbytes(tuple(out))


def prim_str(I, o, name, a, k):
    if name == "encode":
        enc = a[0] if a else k.get("encoding", "utf-8")
        err = a[1] if len(a) > 1 else k.get("errors", "strict")
        return encode_text(I, o, enc, err)
    if name == "join":
        parts = []
        for i, x in enumerate(I.iterate(a[0])):
            if isinstance(x, AObj) and isinstance(x.native, (str, SStr)):
                x = x.native
            if not isinstance(x, (str, SStr)):
                I.throw("TypeError", f"sequence item {i}: expected str instance, {I.typename(x)} found")
            if i:
                parts.append(o)
            parts.append(x)
        return I.strcat(parts)
    if name == "format" and isinstance(o, str):
        return str_format(I, o, a, k)
    if isinstance(o, str):
        try:
            return fold(I, getattr(str, name), [o] + list(a), k)
        except Imprecise:
            if name in ("replace", "center", "ljust", "rjust"):
                return I.tok("text")
            raise
    if name in ("startswith", "endswith"):
        p = a[0]
        if isinstance(p, tuple):
            return any([prim_str(I, o, name, [x], {}) for x in p])
        piece = o.pieces[0] if name == "startswith" else o.pieces[-1]
        if isinstance(piece, str) and isinstance(p, str):
            if len(piece) >= len(p):
                return getattr(piece, name)(p)
        if isinstance(piece, Tok) and piece.addr is not None and p in ("0x", "0X") and name == "startswith":
            return piece.addr[1] == p
    if name in ("lower", "casefold") and len(o.pieces) == 1 and isinstance(o.pieces[0], Tok) and o.pieces[0].addr is not None:
        return o
    if name in ("strip", "lower", "upper", "rstrip", "lstrip", "replace", "title", "casefold", "ljust", "rjust", "capitalize"):
        return I.tok(f"{name} of text")
    raise Imprecise(f"str.{name} of unknown text")


def str_format(I, o, a, k):
    out = []
    auto = 0
    try:
        parts = list(pystring.Formatter().parse(o))
    except ValueError as e:
        I.throw("ValueError", str(e))
    for lit, field, spec, conv in parts:
        out.append(lit)
        if field is None:
            continue
        m = pyre.match(r"[^.\[]*", field)
        head, rest = m.group(0), field[m.end():]
        if head == "":
            head = auto
            auto += 1
        if isinstance(head, str) and head.isdigit():
            head = int(head)
        if isinstance(head, int):
            if head >= len(a):
                I.throw("IndexError", "Replacement index out of range for positional args tuple")
            v = a[head]
        else:
            if head not in k:
                I.throw("KeyError", head)
            v = k[head]
        for t in pyre.findall(r"\.(\w+)|\[([^\]]*)\]", rest):
            v = I.getattr(v, t[0]) if t[0] else I.getitem(v, int(t[1]) if t[1].isdigit() else t[1])
        if conv == "r":
            v = I.repr(v)
        elif conv == "s":
            v = I.tostr(v)
        if spec and "{" in spec:
            raise Imprecise("nested format spec")
        out.append(I.format(v, spec or ""))
    return I.strcat(out)


def prim_dec(I, o, name, a, k):
    if isinstance(o, Dec) and all(isinstance(x, PRIMT) for x in a) and not k:
        if name in ("is_nan", "is_infinite", "is_finite", "is_signed", "is_zero", "is_snan", "is_qnan", "copy_abs", "copy_negate",
                    "adjusted", "conjugate", "copy_sign", "canonical", "is_canonical", "same_quantum", "as_integer_ratio", "is_normal",
                    "is_subnormal", "number_class", "radix", "__trunc__", "__floor__", "__ceil__", "to_integral_value", "to_integral",
                    "to_eng_string"):
            return fold(I, getattr(Dec, name), [o] + list(a), k)
        if name == "as_tuple":
            t = o.as_tuple()
            return mk_dectuple(I, t.sign, t.digits, t.exponent)
        if name in ("quantize", "scaleb", "normalize", "compare", "fma", "to_integral_exact", "max", "min", "sqrt", "ln", "log10",
                    "exp", "shift", "remainder_near", "next_plus", "next_minus"):
            p = I.prec()
            c = I.concrete_ctx() if p is not None else decimal.Context(prec=5000, Emin=decimal.MIN_EMIN, Emax=decimal.MAX_EMAX)
            try:
                r = getattr(o, name)(*a, context=c)
            except decimal.DecimalException as e:
                I.throw(I.decT[type(e).__name__], str(e))
            if p is None and r.is_finite():
                I.dec_round(r, None, name)
            return r
    if isinstance(o, SDec):
        if name in ("is_nan", "is_infinite", "is_snan", "is_qnan"):
            return False
        if name in ("is_finite", "is_canonical"):
            return True
        if name == "is_signed":
            return not I.is_ge0(o.num)
        if name == "is_zero":
            return I.is_eq0(o.num)
        if name == "copy_abs":
            return o if I.is_ge0(o.num) else SDec(-o.num, o.exp)
        if name == "copy_negate":
            return SDec(-o.num, o.exp)
        if name in ("conjugate", "canonical", "__copy__", "__pos__"):
            return o
        if name == "as_tuple":
            if I.is_frac(o.num):
                s = I.p.store.fresh("exponent", None, o.exp - 1)
                return mk_dectuple(I, 0 if I.is_ge0(o.num) else 1, Unknown("digits"), I.mkint(Lin.sym(s)))
            return mk_dectuple(I, 0 if I.is_ge0(o.num) else 1, Unknown("digits"), o.exp)
        if name == "scaleb":
            n = a[0]
            if isinstance(n, Dec) and n == int(n):
                n = int(n)
            if not isinstance(n, int):
                raise Imprecise("scaleb")
            return I.dec_round(SDec(o.num, o.exp + n), I.prec(), "scaleb")
        if name in ("to_integral_value", "to_integral", "to_integral_exact"):
            n, e = I.dec_parts(o)
            if e >= 0 and not I.is_frac(n):
                return o
            r = a[0] if a else k.get("rounding")
            if r == decimal.ROUND_DOWN:
                return I.mkdec(I.lin(I.dec_to_int(o)), 0)
            raise Imprecise("rounding of an unknown decimal")
        if name == "quantize":
            q = a[0]
            if isinstance(q, Dec):
                n, e = I.dec_parts(o)
                qe = q.as_tuple().exponent
                if qe <= e and not I.is_frac(n):
                    r = I.mkdec(n * 10 ** (e - qe), qe)
                    d = I.dec_digits(n * 10 ** (e - qe))
                    p = I.prec()
                    if p is None:
                        I.p.events.append(("ambient-decimal", "quantize", I.loc()))
                    elif d is None or d > p:
                        I.p.events.append(("inexact-decimal", "quantize", I.loc()))
                    return r
                rd = a[1] if len(a) > 1 else k.get("rounding")
                if rd == decimal.ROUND_DOWN:
                    if qe > e:
                        t, _ = I.trunc_div(n, 10 ** (qe - e))
                    else:
                        t, _ = I.trunc_div(n * 1, 1) if qe == e else (None, None)
                    if t is not None:
                        return I.mkdec(t, qe)
            raise Imprecise("quantize of an unknown decimal")
        if name in ("__trunc__",):
            return I.dec_to_int(o)
        if name == "normalize":
            raise Imprecise("normalize of an unknown decimal")
        if name == "compare":
            c = I.compare("<", o, a[0])
            return Dec(-1) if c else Dec(0) if I.eq(o, a[0]) else Dec(1)
        if name == "as_integer_ratio":
            raise Imprecise("as_integer_ratio")
    raise Imprecise(f"Decimal.{name}")


def mk_dectuple(I, sign, digits, exp):
    if "DecimalTuple" not in I.decT:
        I.decT["DecimalTuple"] = I.mkclass("DecimalTuple", [], {"__iter__": Native("iter", lambda I, a, k: AIter(iter(
            [a[0].attrs[x] for x in ("sign", "digits", "exponent")]))),
            "__getitem__": Native("getitem", lambda I, a, k: I.getitem(tuple(a[0].attrs[x] for x in ("sign", "digits", "exponent")), a[1]))})
    return AObj(I.decT["DecimalTuple"], {"sign": sign, "digits": digits, "exponent": exp})


# ------------------------------------------------------------------------ modules
def module(name, **ns):
    return AModule(name, dict(ns))


def ident(I, a, k):
    return a[0]


def m_typing(I):
    m = AModule("typing", missing=lambda n: Ext(f"typing.{n}"))
    m.ns["cast"] = Native("cast", lambda I, a, k: a[1] if len(a) > 1 else k["val"])
    m.ns["TypeVar"] = Native("TypeVar", lambda I, a, k: Ext("TypeVar"))
    m.ns["ParamSpec"] = Native("ParamSpec", lambda I, a, k: Ext("ParamSpec"))
    m.ns["NewType"] = Native("NewType", lambda I, a, k: Native("NewType", ident))
    for n in ("overload", "final", "no_type_check", "runtime_checkable", "override"):
        m.ns[n] = Native(n, ident)
    m.ns["TYPE_CHECKING"] = False
    m.ns["get_type_hints"] = Native("get_type_hints", lambda I, a, k: ADict())
    for n, c in (("Callable", "Callable"), ("Sequence", "Sequence"), ("Mapping", "Mapping"), ("Iterable", "Iterable"),
                 ("Hashable", "Hashable"), ("Sized", "Sized"), ("Iterator", "Iterator"), ("Generator", "Generator"),
                 ("MutableMapping", "MutableMapping"), ("Collection", "Collection")):
        m.ns[n] = I.import_module("collections.abc").ns[c]
    return m


ONE_TRICK = {"Callable": ("__call__",), "Iterable": ("__iter__",), "Sized": ("__len__",), "Container": ("__contains__",),
             "Iterator": ("__iter__", "__next__"), "Collection": ("__iter__", "__len__", "__contains__"),
             "Generator": ("__iter__", "__next__", "send"), "Reversible": ("__iter__", "__reversed__")}


def m_abc_collections(I):
    m = AModule("collections.abc")
    for n in ("Callable", "Iterable", "Sized", "Container", "Iterator", "Collection", "Generator", "Reversible", "Hashable",
              "Sequence", "MutableSequence", "Mapping", "MutableMapping", "Set", "MutableSet", "ByteString", "KeysView",
              "ValuesView", "ItemsView", "Awaitable", "Coroutine", "AsyncIterator", "AsyncIterable", "Buffer"):
        py = getattr(collections.abc, n, None)

        def check(I, v, n=n, py=py):
            c = m.ns[n]
            if isinstance(v, AObj):
                if c in v.cls.mro:
                    return True
                if n in ONE_TRICK and all(v.cls.find(d) is not None for d in ONE_TRICK[n]):
                    return True
                if n == "Hashable":
                    k, h = v.cls.find2("__hash__")
                    return not (k is not None and h is None)
                if v.cls.py is not None and py is not None:
                    return issubclass(v.cls.py, py)
                for b in v.cls.mro:
                    for q in m.ns.values():
                        if b is q and q is not c and isinstance(q, AClass) and q.py is not None and py is not None and issubclass(q.py, py):
                            return True
                if v.cls in I.abc_registered.get(n, ()):
                    return True
                return False
            if n == "Callable":
                return I.callable(v)
            if isinstance(v, AIter):
                return n in ("Iterator", "Iterable") or (n == "Generator" and v.kind == "generator")
            if isinstance(v, Unknown):
                raise Imprecise("isinstance of an unknown value")
            pt = I.pytype(v)
            if pt is None:
                if n == "Hashable":
                    return True
                if isinstance(v, SObj) and v.kind == "sequence":
                    return n in ("Sequence", "Iterable", "Sized", "Container", "Collection", "Reversible")
                return False
            return issubclass(pt, py)
        c = AClass(n, [I.T["object"]], {}, py=None, check=check)
        c.py = None
        m.ns[n] = c
        c.ns["register"] = AClassM(Native("register", lambda I, a, k: (I.abc_registered.setdefault(a[0].name, []).append(a[1]), a[1])[1]))
    # sequence mixin methods
    def seq_iter(I, a, k):
        return AIter(I._iter_getitem(a[0], a[0].cls.find("__getitem__")))
    m.ns["Sequence"].ns["__iter__"] = Native("__iter__", seq_iter)
    m.ns["Sequence"].ns["__contains__"] = Native("__contains__", lambda I, a, k: any(I.eq(x, a[1]) for x in I.iterate(a[0])))
    for n in ("Mapping", "MutableMapping"):
        m.ns[n].ns["get"] = Native("get", lambda I, a, k: map_get(I, a))
        m.ns[n].ns["items"] = Native("items", lambda I, a, k: AIter(iter([(x, I.getitem(a[0], x)) for x in I.iterate(a[0])])))
        m.ns[n].ns["keys"] = Native("keys", lambda I, a, k: AIter(I.iterate(a[0])))
        m.ns[n].ns["values"] = Native("values", lambda I, a, k: AIter(iter([I.getitem(a[0], x) for x in I.iterate(a[0])])))
    m.ns["MutableSequence"].bases = [m.ns["Sequence"]]
    m.ns["MutableSequence"].mro = [m.ns["MutableSequence"], m.ns["Sequence"], I.T["object"]]
    m.ns["MutableMapping"].mro = [m.ns["MutableMapping"], m.ns["Mapping"], I.T["object"]]
    m.ns["Generator"].mro = [m.ns["Generator"], m.ns["Iterator"], m.ns["Iterable"], I.T["object"]]
    return m


def map_get(I, a):
    try:
        return I.getitem(a[0], a[1])
    except AExc as e:
        if I.T["KeyError"] in e.obj.cls.mro:
            return a[2] if len(a) > 2 else None
        raise


def m_collections(I):
    m = AModule("collections", missing=lambda n: Unknown(f"collections.{n}"))

    def dd(I, a, k):
        d = ADict()
        d.default = a[0] if a else None
        dict_update(I, d, a[1:], k)
        return d
    m.ns["defaultdict"] = Native("defaultdict", dd)
    m.ns["OrderedDict"] = I.T["dict"]

    def deque(I, a, k):
        return AList(list(I.iterate(a[0])) if a else [])

    def nt(I, a, k):
        name, fields = a[0], a[1]
        fields = fields.replace(",", " ").split() if isinstance(fields, str) else [x for x in I.iterate(fields)]
        return make_namedtuple(I, name, fields, [x for x in I.iterate(k.get("defaults", ()))])
    m.ns["namedtuple"] = Native("namedtuple", nt)
    return m


def make_namedtuple(I, name, fields, defaults=()):
    ns = {"_fields": tuple(fields)}
    for i, f in enumerate(fields):
        ns[f] = AProp(Native(f, lambda I, a, k, i=i: a[0].native[i]))

    def new(I, a, k):
        vals = list(a[1:])
        for j in range(len(vals), len(fields)):
            if fields[j] in k:
                vals.append(k[fields[j]])
            elif j >= len(fields) - len(defaults):
                vals.append(defaults[j - len(fields)])
            else:
                I.throw("TypeError", f"{name}() missing argument {fields[j]}")
        if len(vals) > len(fields):
            I.throw("TypeError", f"{name}() takes {len(fields)} arguments")
        o = AObj(a[0])
        o.native = tuple(vals)
        return o
    ns["__new__"] = AStatic(Native("__new__", new))
    ns["__init__"] = Native("__init__", lambda I, a, k: None)
    ns["__iter__"] = Native("__iter__", lambda I, a, k: AIter(iter(a[0].native)))
    ns["_asdict"] = Native("_asdict", lambda I, a, k: make_dict(I, None, [AList(list(zip(fields, a[0].native)))], {}))

    def repl(I, a, k):
        o = AObj(a[0].cls)
        o.native = tuple(k.get(f, v) for f, v in zip(fields, a[0].native))
        return o
    ns["_replace"] = Native("_replace", repl)
    return I.mkclass(name, [I.T["tuple"]], ns)


def m_functools(I):
    m = AModule("functools", missing=lambda n: Unknown(f"functools.{n}"))
    m.ns["cache"] = Native("cache", lambda I, a, k: ACache(a[0]))

    def lru(I, a, k):
        ms = a[0] if a else k.get("maxsize", 128)
        ty = k.get("typed", a[1] if len(a) > 1 else False)
        if I.callable(ms) if not isinstance(ms, (int, type(None))) else False:
            return ACache(ms, 128)
        return Native("lru_cache", lambda I, b, q: ACache(b[0], ms, ty))
    m.ns["lru_cache"] = Native("lru_cache", lru)

    def update_wrapper(I, a, k):
        w, f = a[0], a[1]
        for n in ("__name__", "__qualname__", "__doc__", "__module__"):
            v = I.getattr0(f, n)
            if v is not NOVAL and isinstance(w, (AFunc, Native, ACache)):
                w.attrs[n] = v
        if isinstance(f, AFunc) and isinstance(w, AFunc):
            w.attrs.update({x: y for x, y in f.attrs.items()})
        if isinstance(w, (AFunc, Native, ACache)):
            w.attrs["__wrapped__"] = f
        return w
    m.ns["update_wrapper"] = Native("update_wrapper", update_wrapper)
    m.ns["wraps"] = Native("wraps", lambda I, a, k: Native("wraps", lambda I, b, q: update_wrapper(I, [b[0], a[0]], {})))
    m.ns["partial"] = Native("partial", lambda I, a, k: APartial(a[0], list(a[1:]), dict(k)))

    def pm(I, a, k):
        fn, args, kw = a[0], list(a[1:]), dict(k)
        return Native("partialmethod", lambda I, b, q: I.call(fn, [b[0]] + args + list(b[1:]), {**kw, **q}))
    m.ns["partialmethod"] = Native("partialmethod", pm)

    def reduce(I, a, k):
        it = I.iterate(a[1])
        if len(a) > 2:
            acc = a[2]
        else:
            try:
                acc = next(it)
            except StopIteration:
                I.throw("TypeError", "reduce() of empty iterable with no initial value")
        for x in it:
            acc = I.call(a[0], [acc, x], {})
        return acc
    m.ns["reduce"] = Native("reduce", reduce)
    m.ns["cached_property"] = Native("cached_property", lambda I, a, k: AProp(a[0], cached=True))
    m.ns["total_ordering"] = Native("total_ordering", ident)
    return m


def m_itertools(I):
    m = AModule("itertools", missing=lambda n: Unknown(f"itertools.{n}"))

    def accumulate(I, a, k):
        fn = a[1] if len(a) > 1 else k.get("func")
        it = I.iterate(a[0])
        init = k.get("initial")

        def go():
            if init is not None:
                acc = init
                yield acc
            else:
                try:
                    acc = next(it)
                except StopIteration:
                    return
                yield acc
            for x in it:
                acc = I.binop("+", acc, x) if fn is None else I.call(fn, [acc, x], {})
                yield acc
        return AIter(go())

    def chain(I, a, k):
        def go():
            for x in a:
                yield from I.iterate(x)
        return AIter(go())

    def chain_from(I, a, k):
        def go():
            for x in I.iterate(a[0]):
                yield from I.iterate(x)
        return AIter(go())
    m.ns["accumulate"] = Native("accumulate", accumulate)
    ch = Native("chain", chain)
    ch.attrs["from_iterable"] = Native("from_iterable", chain_from)
    m.ns["chain"] = ch

    def repeat(I, a, k):
        n = a[1] if len(a) > 1 else k.get("times")
        if n is not None:
            n = I.index(n)
            I.sizecheck(n)

        def go():
            if n is None:
                while True:
                    yield a[0]
            for _ in I.iterate(make_range(I, None, [n], {})):
                yield a[0]
        return AIter(go())
    m.ns["repeat"] = Native("repeat", repeat)

    def count(I, a, k):
        def go():
            i = a[0] if a else k.get("start", 0)
            st = a[1] if len(a) > 1 else k.get("step", 1)
            while True:
                yield i
                i = I.binop("+", i, st)
        return AIter(go())
    m.ns["count"] = Native("count", count)

    def islice(I, a, k):
        lo, hi, st = (0, a[1], 1) if len(a) == 2 else (a[1] or 0, a[2], (a[3] if len(a) > 3 else 1) or 1)
        it = I.iterate(a[0])
        for x in (lo, hi):
            if x is not None:
                I.sizecheck(I.index(x), exc="ValueError")
                if not I.is_ge0(I.lin(x)):
                    I.throw("ValueError", "Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize.")

        def go():
            i = 0
            while hi is None or I.truth(I.compare("<", i, hi)):
                try:
                    x = next(it)
                except StopIteration:
                    return
                if i >= lo and (i - lo) % st == 0:
                    yield x
                i += 1
        return AIter(go())
    m.ns["islice"] = Native("islice", islice)

    def starmap(I, a, k):
        it = I.iterate(a[1])

        def go():
            for x in it:
                yield I.call(a[0], list(I.iterate(x)), {})
        return AIter(go())
    m.ns["starmap"] = Native("starmap", starmap)

    def zip_longest(I, a, k):
        ls = [list(I.iterate(x)) for x in a]
        n = max(map(len, ls)) if ls else 0
        f = k.get("fillvalue")
        return AIter(iter([tuple(x[i] if i < len(x) else f for x in ls) for i in range(n)]))
    m.ns["zip_longest"] = Native("zip_longest", zip_longest)

    def takewhile(I, a, k):
        it = I.iterate(a[1])

        def go():
            for x in it:
                if not I.truth(I.call(a[0], [x], {})):
                    return
                yield x
        return AIter(go())
    m.ns["takewhile"] = Native("takewhile", takewhile)

    def dropwhile(I, a, k):
        it = I.iterate(a[1])

        def go():
            on = False
            for x in it:
                if not on and I.truth(I.call(a[0], [x], {})):
                    continue
                on = True
                yield x
        return AIter(go())
    m.ns["dropwhile"] = Native("dropwhile", dropwhile)

    def pairwise(I, a, k):
        xs = list(I.iterate(a[0]))
        return AIter(iter(list(zip(xs, xs[1:]))))
    m.ns["pairwise"] = Native("pairwise", pairwise)

    def tee(I, a, k):
        xs = list(I.iterate(a[0]))
        return tuple(AIter(iter(xs)) for _ in range(a[1] if len(a) > 1 else 2))
    m.ns["tee"] = Native("tee", tee)

    def product(I, a, k):
        import itertools
        ls = [list(I.iterate(x)) for x in a] * k.get("repeat", 1)
        return AIter(iter(list(itertools.product(*ls))))
    m.ns["product"] = Native("product", product)

    def compress(I, a, k):
        return AIter(iter([x for x, s in zip(list(I.iterate(a[0])), list(I.iterate(a[1]))) if I.truth(s)]))
    m.ns["compress"] = Native("compress", compress)
    m.ns["filterfalse"] = Native("filterfalse", lambda I, a, k: AIter(iter([x for x in I.iterate(a[1]) if not I.truth(I.call(a[0], [x], {}))])))
    return m


def m_operator(I):
    m = AModule("operator", missing=lambda n: Unknown(f"operator.{n}"))
    for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("mod", "%"), ("floordiv", "//"), ("truediv", "/"), ("pow", "**"),
                  ("lshift", "<<"), ("rshift", ">>"), ("and_", "&"), ("or_", "|"), ("xor", "^"), ("concat", "+")):
        m.ns[n] = Native(n, lambda I, a, k, op=op: I.binop(op, a[0], a[1]))
    for n, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("is_", "is"), ("is_not", "is not")):
        m.ns[n] = Native(n, lambda I, a, k, op=op: I.compare(op, a[0], a[1]))
    m.ns["contains"] = Native("contains", lambda I, a, k: I.contains(a[0], a[1]))
    m.ns["not_"] = Native("not_", lambda I, a, k: not I.truth(a[0]))
    m.ns["truth"] = Native("truth", lambda I, a, k: I.truth(a[0]))
    m.ns["neg"] = Native("neg", lambda I, a, k: I.unop("-", a[0]))
    m.ns["getitem"] = Native("getitem", lambda I, a, k: I.getitem(a[0], a[1]))
    m.ns["index"] = Native("index", lambda I, a, k: I.index(a[0]))
    m.ns["itemgetter"] = Native("itemgetter", lambda I, a, k: Native("itemgetter", lambda I, b, q: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], x) for x in a)))

    def ag(I, a, k):
        def get(o, path):
            for p in path.split("."):
                o = I.getattr(o, p)
            return o
        return Native("attrgetter", lambda I, b, q: get(b[0], a[0]) if len(a) == 1 else tuple(get(b[0], x) for x in a))
    m.ns["attrgetter"] = Native("attrgetter", ag)
    m.ns["methodcaller"] = Native("methodcaller", lambda I, a, k: Native("methodcaller", lambda I, b, q: I.call(I.getattr(b[0], a[0]), list(a[1:]), k)))
    return m


def m_abc(I):
    m = AModule("abc", missing=lambda n: Unknown(f"abc.{n}"))
    m.ns["ABC"] = AClass("ABC", [I.T["object"]], {}, module="abc")
    m.ns["ABCMeta"] = I.T["type"]

    def am(I, a, k):
        f = a[0]
        g = f.fn if isinstance(f, (AStatic, AClassM)) else f.get if isinstance(f, AProp) else f
        if isinstance(g, AFunc):
            g.attrs["__isabstractmethod__"] = True
        return f
    m.ns["abstractmethod"] = Native("abstractmethod", am)
    m.ns["abstractproperty"] = I.T["property"]
    return m


def m_copy(I):
    m = AModule("copy")

    def cp(I, a, k):
        v = a[0]
        if isinstance(v, AList):
            return AList(list(v.items))
        if isinstance(v, ASet):
            return set_method(I, v, "copy", [], {})
        if isinstance(v, ADict):
            return dict_method(I, v, "copy", [], {})
        if isinstance(v, ABytearray):
            return ABytearray(v.val, v.kind)
        if isinstance(v, AObj):
            f = v.cls.find("__copy__")
            if f is not None:
                return I.call(I.bind(f, v), [], {})
            o = AObj(v.cls, dict(v.attrs), v.native)
            return o
        if isinstance(v, (Unknown,)):
            raise Imprecise("copy of an unknown value")
        return v

    def dc(I, v, memo):
        if id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, AList):
            r = AList([])
            memo[id(v)] = (v, r)
            r.items.extend(dc(I, x, memo) for x in v.items)
            return r
        if isinstance(v, ASet):
            r = ASet(v.frozen)
            for x, _ in v.d.values():
                I.dset(r, dc(I, x, memo), None)
            return r
        if isinstance(v, ADict):
            r = ADict()
            memo[id(v)] = (v, r)
            for x, y in list(v.d.values()):
                I.dset(r, dc(I, x, memo), dc(I, y, memo))
            return r
        if isinstance(v, tuple):
            return tuple(dc(I, x, memo) for x in v)
        if isinstance(v, ABytearray):
            return ABytearray(v.val, v.kind)
        if isinstance(v, AObj):
            f = v.cls.find("__deepcopy__")
            if f is not None:
                r = I.call(I.bind(f, v), [ADict()], {})
                memo[id(v)] = (v, r)
                return r
            r = AObj(v.cls, {}, v.native)
            memo[id(v)] = (v, r)
            r.attrs.update({n: dc(I, x, memo) for n, x in v.attrs.items()})
            return r
        if isinstance(v, ABound):
            return ABound(v.fn, dc(I, v.self, memo))
        return v
    m.ns["copy"] = Native("copy", cp)
    m.ns["deepcopy"] = Native("deepcopy", lambda I, a, k: dc(I, a[0], {}))
    m.ns["replace"] = Native("replace", lambda I, a, k: (_ for _ in ()).throw(Imprecise("copy.replace")))
    m.ns["Error"] = I.T["Exception"]
    return m


def m_codecs(I):
    m = AModule("codecs", missing=lambda n: std("codecs", n))

    def enc(I, a, k):
        e = a[1] if len(a) > 1 else k.get("encoding", "utf-8")
        err = a[2] if len(a) > 2 else k.get("errors", "strict")
        if not isinstance(a[0], (str, SStr)):
            if isinstance(a[0], AObj) and isinstance(a[0].native, (str, SStr)):
                return encode_text(I, a[0].native, e, err)
            if e in ("hex", "base64", "hex_codec"):
                raise Imprecise("codec")
            I.throw("TypeError", "encoding error")
        return encode_text(I, a[0], e, err)

    def dec(I, a, k):
        e = a[1] if len(a) > 1 else k.get("encoding", "utf-8")
        err = a[2] if len(a) > 2 else k.get("errors", "strict")
        if not isinstance(a[0], (bytes, SBytes, ABytearray)):
            raise Imprecise("codecs.decode")
        return decode_text(I, I.as_bytes(a[0]), e, err)
    m.ns["encode"] = Native("encode", enc)
    m.ns["decode"] = Native("decode", dec)
    return m


def m_contextlib(I):
    m = AModule("contextlib", missing=lambda n: Unknown(f"contextlib.{n}"))

    def enter(I, a, k):
        it = a[0].attrs["$gen"].it
        try:
            return next(it)
        except StopIteration:
            I.throw("RuntimeError", "generator didn't yield")

    def exit_(I, a, k):
        it = a[0].attrs["$gen"].it
        if a[1] is None:
            try:
                next(it)
            except StopIteration:
                return False
            I.throw("RuntimeError", "generator didn't stop")
        e = AExc(a[2], I.loc())
        try:
            it.throw(e)
        except StopIteration:
            return True
        except AExc as x:
            if x.obj is a[2]:
                return False
            raise
        I.throw("RuntimeError", "generator didn't stop after throw()")
    cls = I.mkclass("_GeneratorContextManager", [], {"__enter__": Native("__enter__", enter), "__exit__": Native("__exit__", exit_)})

    def cm_call(I, a, k):
        fn = a[1]
        cmo = a[0]

        def inner(I, b, q):
            c2 = AObj(cls, {"$gen": I.call(cmo.attrs["$fn"], cmo.attrs["$args"], cmo.attrs["$kw"]), "$fn": cmo.attrs["$fn"], "$args": cmo.attrs["$args"], "$kw": cmo.attrs["$kw"]})
            enter(I, [c2], {})
            try:
                r = I.call(fn, b, q)
            except (AExc, NativeError) as e:
                e = I.as_exc(e)
                if I.truth(exit_(I, [c2, e.obj.cls, e.obj, None], {})):
                    return None
                raise e
            exit_(I, [c2, None, None, None], {})
            return r
        return Native("contextdecorator", inner)
    cls.ns["__call__"] = Native("__call__", cm_call)

    def cm(I, a, k):
        f = a[0]
        return FnNative("contextmanager", lambda I, b, q: AObj(cls, {"$gen": I.call(f, b, q), "$fn": f, "$args": b, "$kw": q}))
    m.ns["contextmanager"] = Native("contextmanager", cm)

    def sup_exit(I, a, k):
        if a[1] is None:
            return False
        return any(c in a[1].mro for c in a[0].attrs["$exc"])
    sup = I.mkclass("suppress", [], {"__enter__": Native("__enter__", lambda I, a, k: None), "__exit__": Native("__exit__", sup_exit)})

    def sinit(I, a, k):
        a[0].attrs["$exc"] = tuple(a[1:])
    sup.ns["__init__"] = Native("__init__", sinit)
    m.ns["suppress"] = sup
    nul = I.mkclass("nullcontext", [], {"__enter__": Native("__enter__", lambda I, a, k: a[0].attrs.get("r")),
                                        "__exit__": Native("__exit__", lambda I, a, k: False)})

    def ninit(I, a, k):
        a[0].attrs["r"] = a[1] if len(a) > 1 else None
    nul.ns["__init__"] = Native("__init__", ninit)
    m.ns["nullcontext"] = nul
    return m


FnNative = Native


def m_decimal(I):
    m = AModule("decimal", missing=lambda n: Unknown(f"decimal.{n}"))
    m.ns["Decimal"] = I.T["Decimal"]
    base = AClass("DecimalException", [I.T["ArithmeticError"]], {}, module="decimal")
    I.decT["DecimalException"] = base
    m.ns["DecimalException"] = base
    for n in ("InvalidOperation", "DivisionByZero", "Inexact", "Overflow", "Underflow", "Rounded", "Subnormal", "Clamped",
              "FloatOperation", "DivisionImpossible", "DivisionUndefined", "ConversionSyntax", "InvalidContext"):
        bs = [base]
        if n == "DivisionByZero":
            bs = [base, I.T["ZeroDivisionError"]]
        if n == "FloatOperation":
            bs = [base, I.T["TypeError"]]
        if n == "DivisionUndefined":
            bs = [I.decT["InvalidOperation"], I.T["ZeroDivisionError"]]
        if n in ("DivisionImpossible", "ConversionSyntax", "InvalidContext"):
            bs = [I.decT["InvalidOperation"]]
        I.decT[n] = m.ns[n] = AClass(n, bs, {}, module="decimal")
    for n in dir(decimal):
        if n.startswith("ROUND_") or n in ("MAX_PREC", "MAX_EMAX", "MIN_EMIN", "MIN_ETINY", "HAVE_THREADS"):
            m.ns[n] = getattr(decimal, n)
    DEF = {"prec": 28, "rounding": "ROUND_HALF_EVEN", "Emin": -999999, "Emax": 999999, "capitals": 1, "clamp": 0}
    ctx = AClass("Context", [I.T["object"]], {}, module="decimal")

    def init(I, a, k):
        names = ["prec", "rounding", "Emin", "Emax", "capitals", "clamp", "flags", "traps"]
        vals = dict(zip(names, a[1:]))
        vals.update(k)
        for n, d in DEF.items():
            v = vals.get(n)
            a[0].attrs[n] = d if v is None else v
        for n in ("flags", "traps"):
            a[0].attrs[n] = vals.get(n) if vals.get(n) is not None else ADict()
    ctx.ns["__init__"] = Native("__init__", init)

    def with_ctx(I, c, f):
        I.decctx.append(c)
        try:
            return f()
        finally:
            I.decctx.pop()

    def dec_arg(I, v):
        return make_decimal(I, None, [v], {}) if isinstance(v, (int, SInt)) else v
    for n, op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("remainder", "%"), ("power", "**"),
                  ("divide_int", "//")):
        ctx.ns[n] = Native(n, lambda I, a, k, op=op: with_ctx(I, a[0], lambda: I.dec_binop(op, dec_arg(I, a[1]), dec_arg(I, a[2]))))
    for n in ("scaleb", "quantize", "to_integral_value", "to_integral_exact", "normalize", "compare"):
        ctx.ns[n] = Native(n, lambda I, a, k, n=n: with_ctx(I, a[0], lambda: prim_dec(I, dec_arg(I, a[1]), n, list(a[2:]), k)))
    for n in ("plus", "create_decimal"):
        ctx.ns[n] = Native(n, lambda I, a, k: with_ctx(I, a[0], lambda: I.unop("+", make_decimal(I, None, [a[1]], {}) if len(a) > 1 else Dec(0))))
    ctx.ns["minus"] = Native("minus", lambda I, a, k: with_ctx(I, a[0], lambda: I.unop("-", dec_arg(I, a[1]))))
    ctx.ns["abs"] = Native("abs", lambda I, a, k: with_ctx(I, a[0], lambda: n_abs(I, [dec_arg(I, a[1])], {})))
    ctx.ns["copy"] = Native("copy", lambda I, a, k: AObj(ctx, dict(a[0].attrs)))
    ctx.ns["__copy__"] = ctx.ns["copy"]
    for n in ("clear_flags", "clear_traps"):
        ctx.ns[n] = Native(n, lambda I, a, k: None)
    m.ns["Context"] = ctx
    amb = AObj(ctx, {n: Unknown(f"ambient context {n}") for n in DEF})
    amb.attrs["flags"] = ADict()
    amb.attrs["traps"] = ADict()
    I.ambient = amb
    for n in ("DefaultContext", "BasicContext", "ExtendedContext"):
        m.ns[n] = AObj(ctx, dict(DEF, flags=ADict(), traps=ADict()))

    def getctx(I, a, k):
        return I.decctx[-1] if I.decctx else amb
    m.ns["getcontext"] = Native("getcontext", getctx)

    def setctx(I, a, k):
        # the innermost entry is the current context; leaving it is judged at the end of the call
        if not (isinstance(a[0], AObj) and a[0].cls is ctx):
            I.throw("TypeError", "optional argument must be a context")
        if I.decctx:
            if len(I.decctx) == 1 and a[0] is amb:
                I.decctx.pop()
            else:
                I.decctx[-1] = a[0]
        elif a[0] is not amb:
            I.decctx.append(a[0])
        I.ctx_written = I.loc()
    m.ns["setcontext"] = Native("setcontext", setctx)

    def lenter(I, a, k):
        c = AObj(ctx, dict(a[0].attrs["$ctx"].attrs))
        for n, v in a[0].attrs["$kw"].items():
            c.attrs[n] = v
        a[0].attrs["$saved"] = list(I.decctx)
        I.decctx.append(c)
        return c

    def lexit(I, a, k):
        I.decctx[:] = a[0].attrs.get("$saved", [])
        return False
    lc = I.mkclass("_ContextManager", [], {"__enter__": Native("__enter__", lenter), "__exit__": Native("__exit__", lexit)})

    def local(I, a, k):
        c = a[0] if a else k.pop("ctx", None) if "ctx" in k else None
        if c is None:
            c = getctx(I, [], {})
        return AObj(lc, {"$ctx": c, "$kw": dict(k)})
    m.ns["localcontext"] = Native("localcontext", local)
    return m


def m_io(I):
    m = AModule("io", missing=lambda n: Unknown(f"io.{n}"))
    m.ns.update({"SEEK_SET": 0, "SEEK_CUR": 1, "SEEK_END": 2})
    c = AClass("BytesIO", [I.T["object"]], {}, module="_io")

    def pos(o):
        return o.attrs["$pos"]

    def blen(I, o):
        b = o.attrs["$buf"]
        return I.blen(b) if isinstance(b, SBytes) else Lin({}, len(b))

    def closed(I, o):
        if o.attrs.get("$closed"):
            I.throw("ValueError", "I/O operation on closed file.")

    def init(I, a, k):
        v = a[1] if len(a) > 1 else k.get("initial_bytes", b"")
        if v is None:
            v = b""
        if not isinstance(v, (bytes, SBytes, ABytearray)) and not (isinstance(v, AObj) and isinstance(v.native, (bytes, SBytes))):
            I.throw("TypeError", f"a bytes-like object is required, not '{I.typename(v)}'")
        a[0].attrs["$buf"] = I.as_bytes(v)
        a[0].attrs["$pos"] = Lin({}, 0)
    c.ns["__init__"] = Native("__init__", init)

    def idx(I, v, what):
        v = I.index(v)
        if isinstance(v, SMono):
            raise Imprecise(what)
        if not isinstance(v, (int, SInt)):
            I.throw("TypeError", f"'{I.typename(v)}' object cannot be interpreted as an integer")
        e = I.lin(v)
        if not I.is_ge0(Lin({}, MAXSIZE) - e):
            raise NativeError("OverflowError", "cannot fit 'int' into an index-sized integer")
        if not I.is_ge0(e + MAXSIZE + 1):
            raise NativeError("OverflowError", "cannot fit 'int' into an index-sized integer")
        return e

    def read(I, a, k):
        o = a[0]
        closed(I, o)
        n = a[1] if len(a) > 1 else k.get("size", -1)
        L, p = blen(I, o), pos(o)
        o.touch("$pos")
        if n is None:
            e = Lin({}, -1)
        else:
            e = idx(I, n, "read size")
        avail = L - p
        I.p.reads.append((I.norm(p), I.norm(e)))
        if not I.is_ge0(avail, True):
            return b""
        if not I.is_ge0(e) or not I.is_ge0(avail - e):
            r = I.slice_bytes(o.attrs["$buf"], I.mkint(p), None)
            o.attrs["$pos"] = I.norm(L)
            return r
        r = I.slice_bytes(o.attrs["$buf"], I.mkint(p), I.mkint(p + e))
        o.attrs["$pos"] = I.norm(p + e)
        return r
    c.ns["read"] = c.ns["read1"] = Native("read", read)

    def seek(I, a, k):
        o = a[0]
        closed(I, o)
        wh = a[2] if len(a) > 2 else k.get("whence", 0)
        e = idx(I, a[1] if len(a) > 1 else k.get("offset"), "seek position")
        o.touch("$pos")
        if wh == 0:
            if not I.is_ge0(e):
                I.throw("ValueError", "negative seek value")
            o.attrs["$pos"] = I.norm(e)
        elif wh in (1, 2):
            t = (pos(o) if wh == 1 else blen(I, o)) + e
            if not I.is_ge0(Lin({}, MAXSIZE) - t):
                raise NativeError("OverflowError", "new position too large")
            o.attrs["$pos"] = I.norm(t) if I.is_ge0(t) else Lin({}, 0)
        else:
            I.throw("ValueError", "invalid whence")
        return I.mkint(o.attrs["$pos"])
    c.ns["seek"] = Native("seek", seek)

    def tell(I, a, k):
        closed(I, a[0])
        return I.mkint(pos(a[0]))
    c.ns["tell"] = Native("tell", tell)
    c.ns["getvalue"] = Native("getvalue", lambda I, a, k: a[0].attrs["$buf"])
    c.ns["getbuffer"] = Native("getbuffer", lambda I, a, k: ABytearray(a[0].attrs["$buf"], "memoryview"))
    for n in ("readable", "seekable", "writable"):
        c.ns[n] = Native(n, lambda I, a, k: True)
    c.ns["closed"] = AProp(Native("closed", lambda I, a, k: bool(a[0].attrs.get("$closed"))))

    def close(I, a, k):
        a[0].attrs["$closed"] = True
    c.ns["close"] = Native("close", close)
    c.ns["flush"] = Native("flush", lambda I, a, k: None)
    c.ns["__enter__"] = Native("__enter__", lambda I, a, k: a[0])
    c.ns["__exit__"] = Native("__exit__", lambda I, a, k: close(I, a, k))

    def write(I, a, k):
        o = a[0]
        o.touch("$buf")
        b = I.as_bytes(a[1])
        p = pos(o)
        if I.norm(p - blen(I, o)) != Lin({}, 0):
            raise Imprecise("write in the middle of a stream")
        o.attrs["$buf"] = I.concat(o.attrs["$buf"], b)
        o.attrs["$pos"] = blen(I, o)
        return I.len(b)
    c.ns["write"] = Native("write", write)

    def readinto(I, a, k):
        b = a[1]
        n = I.len(b.val)
        d = read(I, [a[0], n], {})
        m_ = I.len(d)
        b.touch("readinto")
        b.val = I.concat(d, I.slice_bytes(b.val, m_, None))
        return m_
    c.ns["readinto"] = Native("readinto", readinto)
    m.ns["BytesIO"] = c
    return m


def m_re(I):
    m = AModule("re", missing=lambda n: from_py(I, int(getattr(pyre, n))) if isinstance(getattr(pyre, n, None), pyre.RegexFlag) else Unknown(f"re.{n}"))
    P = AClass("Pattern", [I.T["object"]], {}, module="re")
    M = AClass("Match", [I.T["object"]], {}, module="re")

    def mm(r):
        return None if r is None else AObj(M, {"$m": r})
    M.ns["group"] = Native("group", lambda I, a, k: from_py(I, a[0].attrs["$m"].group(*[to_py(I, x) for x in a[1:]])))
    M.ns["groups"] = Native("groups", lambda I, a, k: from_py(I, a[0].attrs["$m"].groups(*a[1:])))
    M.ns["groupdict"] = Native("groupdict", lambda I, a, k: from_py(I, a[0].attrs["$m"].groupdict()))
    M.ns["__getitem__"] = Native("__getitem__", lambda I, a, k: from_py(I, a[0].attrs["$m"][a[1]]))
    for n in ("start", "end", "span"):
        M.ns[n] = Native(n, lambda I, a, k, n=n: from_py(I, getattr(a[0].attrs["$m"], n)(*a[1:])))
    M.ns["string"] = AProp(Native("string", lambda I, a, k: a[0].attrs["$m"].string))
    M.ns["lastgroup"] = AProp(Native("lastgroup", lambda I, a, k: a[0].attrs["$m"].lastgroup))
    M.ns["re"] = AProp(Native("re", lambda I, a, k: AObj(P, {"$p": a[0].attrs["$m"].re})))

    def text(I, v):
        if isinstance(v, AObj) and v.native is not None:
            v = v.native
        if isinstance(v, (str, bytes)):
            return v
        if isinstance(v, (SStr, SBytes, Unknown)):
            raise Imprecise("regular expression on unknown text")
        I.throw("TypeError", f"expected string or bytes-like object, got '{I.typename(v)}'")

    def meth(n):
        def f(I, a, k):
            p = a[0].attrs["$p"]
            t = text(I, a[1])
            rest = [to_py(I, x) for x in a[2:]]
            return mm(getattr(p, n)(t, *rest))
        return Native(n, f)
    for n in ("match", "fullmatch", "search"):
        P.ns[n] = meth(n)

    def sub(I, a, k, n=False):
        p = a[0].attrs["$p"]
        rep, t = a[1], text(I, a[2])
        count = a[3] if len(a) > 3 else k.get("count", 0)
        if isinstance(rep, (str, bytes)):
            r = p.subn(rep, t, count)
        else:
            out, last, c = [], 0, 0
            for x in p.finditer(t):
                if count and c >= count:
                    break
                out.append(t[last:x.start()])
                y = I.call(rep, [mm(x)], {})
                if not isinstance(y, str):
                    if isinstance(y, SStr):
                        raise Imprecise("replacement text")
                    I.throw("TypeError", f"expected str instance, {I.typename(y)} found")
                out.append(y)
                last = x.end()
                c += 1
            out.append(t[last:])
            r = ("".join(out), c)
        return r if n else r[0]
    P.ns["sub"] = Native("sub", sub)
    P.ns["subn"] = Native("subn", lambda I, a, k: sub(I, a, k, True))
    P.ns["findall"] = Native("findall", lambda I, a, k: from_py(I, a[0].attrs["$p"].findall(text(I, a[1]))))
    P.ns["split"] = Native("split", lambda I, a, k: from_py(I, a[0].attrs["$p"].split(text(I, a[1]), *a[2:])))
    P.ns["finditer"] = Native("finditer", lambda I, a, k: AIter(iter([mm(x) for x in a[0].attrs["$p"].finditer(text(I, a[1]))])))
    P.ns["pattern"] = AProp(Native("pattern", lambda I, a, k: a[0].attrs["$p"].pattern))
    P.ns["groups"] = AProp(Native("groups", lambda I, a, k: a[0].attrs["$p"].groups))

    def comp(I, a, k):
        if isinstance(a[0], AObj):
            return a[0]
        fl = a[1] if len(a) > 1 else k.get("flags", 0)
        try:
            return AObj(P, {"$p": pyre.compile(to_py(I, a[0]), fl)})
        except pyre.error as e:
            I.throw("ValueError", str(e))
    m.ns["compile"] = Native("compile", comp)
    m.ns["escape"] = pyfn("escape", pyre.escape)
    for n in ("match", "fullmatch", "search", "sub", "subn", "findall", "split", "finditer"):
        m.ns[n] = Native(n, lambda I, a, k, n=n: I.call(P.ns[n], [comp(I, [a[0], k.pop("flags", 0)], {})] + list(a[1:]), k))
    m.ns["Pattern"], m.ns["Match"] = P, M
    m.ns["error"] = I.T["ValueError"]
    return m


def m_numbers(I):
    m = AModule("numbers")
    for n in ("Number", "Complex", "Real", "Rational", "Integral"):
        py = getattr(numbers, n)

        def check(I, v, py=py):
            pt = I.pytype(v)
            if isinstance(v, AObj):
                if v.cls.py is not None:
                    return issubclass(v.cls.py, py)
                return any(b in m.ns.values() for b in v.cls.mro)
            if isinstance(v, Unknown):
                raise Imprecise("isinstance of an unknown value")
            return pt is not None and issubclass(pt, py)
        m.ns[n] = AClass(n, [I.T["object"]], {}, check=check)
        m.ns[n].py = None
    return m


def m_math(I):
    m = AModule("math")
    for n in dir(math):
        v = getattr(math, n)
        if callable(v):
            m.ns[n] = pyfn(n, v)
        elif not n.startswith("_"):
            m.ns[n] = v

    def cf(n):
        def f(I, a, k):
            v = a[0]
            if isinstance(v, SInt):
                return v
            if isinstance(v, AObj):
                x = v.cls.find(f"__{n}__")
                if x is not None:
                    return I.call(I.bind(x, v), [], {})
            if isinstance(v, SDec) and n == "trunc":
                return I.dec_to_int(v)
            return fold(I, getattr(math, n), a, k)
        return f
    for n in ("ceil", "floor", "trunc"):
        m.ns[n] = Native(n, cf(n))
    return m


def m_plain(name, py):
    def f(I):
        m = AModule(name, missing=lambda n: Unknown(f"{name}.{n}"))
        for n in dir(py):
            v = getattr(py, n)
            if isinstance(v, (str, int, float, bytes)) and not n.startswith("__"):
                m.ns[n] = v
        return m
    return f


def m_sys(I):
    m = AModule("sys", missing=lambda n: Unknown(f"sys.{n}"))
    m.ns["maxsize"] = MAXSIZE
    m.ns["version_info"] = (3, 12, 0, "final", 0)
    m.ns["byteorder"] = "little"
    m.ns["intern"] = Native("intern", ident)
    m.ns["modules"] = Unknown("sys.modules")
    return m


def m_noop(name, *fns):
    def f(I):
        m = AModule(name, missing=lambda n: Unknown(f"{name}.{n}"))
        for n in fns:
            m.ns[n] = Native(n, lambda I, a, k: None)
        return m
    return f


def m_logging(I):
    m = AModule("logging", missing=lambda n: Unknown(f"logging.{n}"))
    L = I.mkclass("Logger", [], {n: Native(n, lambda I, a, k: None) for n in ("debug", "info", "warning", "error", "exception", "critical", "log", "setLevel")})
    L.ns["isEnabledFor"] = Native("isEnabledFor", lambda I, a, k: False)
    m.ns["getLogger"] = Native("getLogger", lambda I, a, k: AObj(L))
    for n in ("debug", "info", "warning", "error", "exception", "critical", "basicConfig"):
        m.ns[n] = Native(n, lambda I, a, k: None)
    m.ns["Logger"] = L
    return m


def m_threading(I):
    m = AModule("threading", missing=lambda n: Unknown(f"threading.{n}"))
    L = I.mkclass("Lock", [], {"__enter__": Native("__enter__", lambda I, a, k: True), "__exit__": Native("__exit__", lambda I, a, k: False),
                               "acquire": Native("acquire", lambda I, a, k: True), "release": Native("release", lambda I, a, k: None)})
    m.ns["Lock"] = m.ns["RLock"] = L
    m.ns["local"] = I.mkclass("local", [], {})
    return m


def m_dataclasses(I):
    m = AModule("dataclasses", missing=lambda n: Unknown(f"dataclasses.{n}"))
    F = I.mkclass("Field", [], {})

    def field(I, a, k):
        return AObj(F, dict(k))
    m.ns["field"] = Native("field", field)

    def dc(I, a, k):
        if not a:
            return Native("dataclass", lambda I, b, q: dc(I, b, k))
        cls = a[0]
        fields = []
        for c in reversed(cls.mro):
            ann = c.ns.get("__annotations__")
            if isinstance(ann, ADict):
                for n, t in ann.d.values():
                    if "ClassVar" in t:
                        continue
                    fields = [f for f in fields if f[0] != n]
                    fields.append((n, c.ns.get(n, NOVAL)))
        names = [f[0] for f in fields]
        for n, d in fields:
            if isinstance(d, AObj) and d.cls is F and n in cls.ns:
                if "default" in d.attrs:
                    cls.ns[n] = d.attrs["default"]
                else:
                    cls.ns.pop(n)
        frozen = I.truth(k.get("frozen", False))

        def init(I, a, k):
            o = a[0]
            if len(a) - 1 > len(fields):
                I.throw("TypeError", f"{cls.name}.__init__() takes {len(fields) + 1} positional arguments")
            vals = dict(zip(names, a[1:]))
            for x, y in k.items():
                if x not in names or x in vals:
                    I.throw("TypeError", f"{cls.name}.__init__() got an unexpected keyword argument '{x}'")
                vals[x] = y
            for n, d in fields:
                if n not in vals:
                    if isinstance(d, AObj) and d.cls is F:
                        if "default_factory" in d.attrs:
                            vals[n] = I.call(d.attrs["default_factory"], [], {})
                            continue
                        d = d.attrs.get("default", NOVAL)
                    if d is NOVAL:
                        I.throw("TypeError", f"{cls.name}.__init__() missing required argument: '{n}'")
                    vals[n] = d
            for n in names:
                o.attrs[n] = vals[n]
            p = cls.find("__post_init__")
            if p is not None:
                I.call(I.bind(p, o), [], {})
        if "__init__" not in cls.ns and I.truth(k.get("init", True)):
            cls.ns["__init__"] = Native("__init__", init)

        def eq(I, a, k):
            if not isinstance(a[1], AObj) or a[1].cls is not a[0].cls:
                return NotImplemented
            return all(I.eq(a[0].attrs[n], a[1].attrs[n]) for n in names)
        if "__eq__" not in cls.ns and I.truth(k.get("eq", True)):
            cls.ns["__eq__"] = Native("__eq__", eq)
            if frozen or I.truth(k.get("unsafe_hash", False)):
                cls.ns["__hash__"] = Native("__hash__", lambda I, a, k: n_hash(I, [tuple(a[0].attrs[n] for n in names)], {}))
            elif "__hash__" not in cls.ns:
                cls.ns["__hash__"] = None
        if "__repr__" not in cls.ns:
            cls.ns["__repr__"] = Native("__repr__", lambda I, a, k: f"{cls.name}(...)")
        if frozen:
            fe = I.T["AttributeError"]

            def sa(I, a, k):
                I.throw("AttributeError", f"cannot assign to field '{a[1]}'")
            cls.ns["__setattr__"] = Native("__setattr__", sa)
        return cls
    m.ns["dataclass"] = Native("dataclass", dc)
    return m


def m_hyp_st(I):
    S = AClass("SearchStrategy", [I.T["object"]], {}, module="hypothesis.strategies")

    def mk(kind, a, k):
        return AObj(S, {"$kind": kind, "$a": tuple(a), "$k": dict(k)})
    for n in ("map", "filter", "flatmap"):
        S.ns[n] = Native(n, lambda I, a, k, n=n: mk(n, a, k))
    S.ns["__or__"] = Native("__or__", lambda I, a, k: mk("one_of", a, k))
    m = AModule("hypothesis.strategies", missing=lambda n: Native(n, lambda I, a, k: mk(n, a, k)))
    m.ns["SearchStrategy"] = S
    return m


def m_hyp(I):
    m = AModule("hypothesis", missing=lambda n: Unknown(f"hypothesis.{n}"))
    m.ns["strategies"] = I.modules["hypothesis.strategies"] = m_hyp_st(I)
    return m


def m_metadata(I):
    m = AModule("importlib.metadata", missing=lambda n: Unknown(f"importlib.metadata.{n}"))
    m.ns["version"] = Native("version", lambda I, a, k: "0")
    return m


def m_importlib(I):
    m = AModule("importlib", missing=lambda n: Unknown(f"importlib.{n}"))
    m.ns["import_module"] = Native("import_module", n_import)
    return m


def m_ext(name):
    return lambda I: AModule(name, missing=lambda n: Ext(f"{name}.{n}"))


def m_future(I):
    return AModule("__future__", missing=lambda n: Ext(n))


def m_pars(I):
    from . import peg
    return peg.module(I)


def m_pars_sub(attr):
    def f(I):
        p = I.import_module("parsimonious")
        return p.ns[attr]
    return f


def m_toolz(name):
    def f(I):
        m = AModule(name, missing=lambda n: Unknown(f"{name}.{n}"))

        def curry(I, a, k):
            if isinstance(a[0], APartial) and a[0].curry:
                return APartial(a[0].fn, list(a[0].args) + list(a[1:]), {**a[0].kwargs, **k}, True)
            c = APartial(a[0], list(a[1:]), dict(k), True)
            return c
        m.ns["curry"] = Native("curry", curry)
        m.ns["identity"] = Native("identity", ident)

        def compose(I, a, k):
            fs = list(a)

            def go(I, b, q):
                r = I.call(fs[-1], b, q)
                for f in reversed(fs[:-1]):
                    r = I.call(f, [r], {})
                return r
            return Native("compose", go)
        m.ns["compose"] = Native("compose", compose)

        def pipe(I, a, k):
            r = a[0]
            for f in a[1:]:
                r = I.call(f, [r], {})
            return r
        m.ns["pipe"] = Native("pipe", pipe)
        return m
    return f


# eth_utils pieces that need the byte/text domain
def is_hex_address(I, a, k):
    v = a[0]
    if isinstance(v, AObj) and v.native is not None:
        v = v.native
    if isinstance(v, str):
        return pyre.compile("(0x)?[0-9a-f]{40}", pyre.I | pyre.A).fullmatch(v) is not None
    if isinstance(v, SStr):
        if len(v.pieces) == 1 and isinstance(v.pieces[0], Tok):
            return v.pieces[0].addr is not None
        raise Imprecise("address test on unknown text")
    return False


def hex_address(I, v):
    """normalised '0x' + 40 lower-case hex digits of a 20-byte value"""
    t = Tok("0xaddr", addr=(v, "0x", True))
    return SStr((t,))


def to_normalized_address(I, a, k):
    v = a[0]
    if isinstance(v, AObj) and v.native is not None:
        v = v.native
    if isinstance(v, (bytes, SBytes, ABytearray)):
        b = I.as_bytes(v)
        n = I.blen(b) if isinstance(b, SBytes) else Lin({}, len(b))
        if not I.is_eq0(n - 20):
            raise NativeError("ValueError", "Unknown format")
        if isinstance(b, bytes):
            return "0x" + b.hex()
        return hex_address(I, b)
    if isinstance(v, str):
        t = v.lower()
        if not pyre.fullmatch("(0x)?[0-9a-f]*", t):
            I.throw("ValueError", "when sending a str, it must be a hex string")
        if not t.startswith("0x"):
            t = "0x" + t
        if pyre.fullmatch("0x[0-9a-f]{40}", t):
            return t
        I.throw("ValueError", "Unknown format")
    if isinstance(v, SStr):
        p = v.pieces[0]
        if len(v.pieces) == 1 and isinstance(p, Tok) and p.addr is not None:
            return hex_address(I, p.addr[0])
        raise Imprecise("normalisation of unknown text")
    raise Imprecise("normalisation of an unknown value")


def to_canonical_address(I, a, k):
    r = to_normalized_address(I, a, k)
    if isinstance(r, str):
        return bytes.fromhex(r[2:])
    return r.pieces[0].addr[0]


def decode_hex(I, a, k):
    v = a[0]
    if isinstance(v, str):
        t = v[2:] if v[:2] in ("0x", "0X") else v
        try:
            return bytes.fromhex(t)
        except ValueError as e:
            I.throw("ValueError", str(e))
    if isinstance(v, SStr) and len(v.pieces) == 1 and isinstance(v.pieces[0], Tok):
        p = v.pieces[0]
        if p.addr is not None:
            return p.addr[0]
        if p.src and p.src[0] == "hex":
            return p.src[1]
    if isinstance(v, SStr) and len(v.pieces) == 2 and v.pieces[0] == "0x" and isinstance(v.pieces[1], Tok) and v.pieces[1].src and v.pieces[1].src[0] == "hex":
        return v.pieces[1].src[1]
    if not isinstance(v, (str, SStr)):
        I.throw("TypeError", "Value must be an instance of str")
    raise Imprecise("decode_hex of unknown text")


def encode_hex(I, a, k):
    v = a[0]
    if isinstance(v, (bytes, SBytes, ABytearray)):
        b = I.as_bytes(v)
        if isinstance(b, bytes):
            return "0x" + b.hex()
        n = I.norm(I.blen(b))
        if n.is_const() and n.c == 20:
            return hex_address(I, b)
        return SStr(("0x", Tok("hex", src=("hex", b))))
    raise Imprecise("encode_hex")


def to_checksum_address(I, a, k):
    r = to_normalized_address(I, a, k)
    if isinstance(r, str):
        r = SStr((Tok("checksum", addr=(bytes.fromhex(r[2:]), "0x", False)),))
        return r
    p = r.pieces[0]
    return SStr((Tok("checksum", addr=(p.addr[0], "0x", False)),))


def inj_eth_utils(I):
    N = lambda n, f: Native(n, f)
    return {"is_hex_address": N("is_hex_address", is_hex_address), "to_normalized_address": N("to_normalized_address", to_normalized_address),
            "to_canonical_address": N("to_canonical_address", to_canonical_address), "decode_hex": N("decode_hex", decode_hex),
            "encode_hex": N("encode_hex", encode_hex), "to_checksum_address": N("to_checksum_address", to_checksum_address)}


INJECT = {"eth_utils": inj_eth_utils}

MODULES = {
    "typing": m_typing, "typing_extensions": m_typing, "collections.abc": m_abc_collections, "collections": m_collections,
    "functools": m_functools, "itertools": m_itertools, "operator": m_operator, "abc": m_abc, "copy": m_copy,
    "codecs": m_codecs, "contextlib": m_contextlib, "decimal": m_decimal, "io": m_io, "re": m_re, "numbers": m_numbers,
    "math": m_math, "string": m_plain("string", pystring), "sys": m_sys, "warnings": m_noop("warnings", "warn", "simplefilter"),
    "logging": m_logging, "threading": m_threading, "dataclasses": m_dataclasses, "hypothesis.strategies": m_hyp_st,
    "hypothesis": m_hyp, "importlib.metadata": m_metadata, "importlib": m_importlib, "eth_typing": m_ext("eth_typing"),
    "eth_typing.abi": m_ext("eth_typing.abi"), "eth_typing.evm": m_ext("eth_typing.evm"), "__future__": m_future,
    "parsimonious": m_pars, "parsimonious.nodes": m_pars_sub("nodes"), "parsimonious.expressions": m_pars_sub("expressions"),
    "parsimonious.exceptions": m_pars_sub("exceptions"), "parsimonious.grammar": m_pars_sub("grammar_mod"),
    "eth_utils.toolz": m_toolz("eth_utils.toolz"), "toolz": m_toolz("toolz"), "cytoolz": m_toolz("cytoolz"),
    "fractions": lambda I: module("fractions", Fraction=I.T["Fraction"]),
    "builtins": lambda I: AModule("builtins", dict(I.builtins)),
    "binascii": lambda I: module("binascii", hexlify=Native("hexlify", lambda I, a, k: (_ for _ in ()).throw(Imprecise("hexlify"))),
                                 unhexlify=pyfn("unhexlify", __import__("binascii").unhexlify), crc32=pyfn("crc32", __import__("binascii").crc32)),
    "types": lambda I: AModule("types", {"FunctionType": I.T["function"], "MethodType": Native("MethodType", lambda I, a, k: ABound(a[0], a[1])),
                                         "GeneratorType": I.T["generator"], "NoneType": I.T["NoneType"], "MappingProxyType": Native("MappingProxyType", ident),
                                         "SimpleNamespace": I.mkclass("SimpleNamespace", [], {"__init__": Native("__init__", lambda I, a, k: a[0].attrs.update(k))})},
                               missing=lambda n: Ext(f"types.{n}")),
}
