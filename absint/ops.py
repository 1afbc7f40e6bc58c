"""Operations of the abstract interpreter on values: truth, equality, containers, text, types."""
import decimal
import operator
from fractions import Fraction

from .core import (MAXSIZE, Dom, Fork, NativeError, SBytes, SDec, SFloat, SInt, SMono, SObj, SStr, Tok, Unknown, Val)
from .lin import Imprecise, Infeasible, Lin
from .objects import *
from .objects import HEAP, AExc

NOVAL = object()
Dec = decimal.Decimal
NUM = (int, float, Dec, complex, Fraction)
PYOPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
         "%": operator.mod, "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "|": operator.or_,
         "&": operator.and_, "^": operator.xor}
PYCMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "<<": "lshift",
          ">>": "rshift", "|": "or", "&": "and", "^": "xor", "@": "matmul",
          "==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
PRIMT = (int, str, bytes, float, type(None), Dec, complex, Fraction, type(Ellipsis), type(NotImplemented))
BIG = 10 ** 4300


class AUnion(tuple):
    pass


class Ops(Dom):
    # ------------------------------------------------------------------ types
    def pytype(self, v):
        if isinstance(v, (SInt, SMono)):
            return int
        if isinstance(v, SBytes):
            return bytes
        if isinstance(v, SStr):
            return str
        if isinstance(v, SDec):
            return Dec
        if isinstance(v, SFloat):
            return float if v.kind == "float" else Fraction
        if isinstance(v, AList):
            return list
        if isinstance(v, ASet):
            return frozenset if v.frozen else set
        if isinstance(v, ADict):
            return dict
        if isinstance(v, ABytearray):
            return bytearray if v.kind == "bytearray" else memoryview
        if isinstance(v, ARange):
            return range
        if isinstance(v, ASlice):
            return slice
        if isinstance(v, AObj):
            return None
        if isinstance(v, SObj):
            return {"dict": dict, "list": list, "set": set, "complex": complex, "float": float, "object": object,
                    "nonfinite": Dec, "function": type(lambda: 0), "memoryview": memoryview, "bytearray": bytearray,
                    "range": range}.get(v.kind)
        if isinstance(v, (tuple,) + PRIMT):
            return type(v)
        return None

    def typeof(self, v):
        if isinstance(v, AObj):
            return v.cls
        if isinstance(v, AClass):
            return self.T["type"]
        pt = self.pytype(v)
        if pt is not None:
            c = self.pyT.get(pt)
            if c is None:
                c = self.pyT[pt] = AClass(pt.__name__, [self.T["object"]], {}, py=pt)
            return c
        if isinstance(v, (AFunc,)):
            return self.T["function"]
        if isinstance(v, ABound):
            return self.T["method"]
        if isinstance(v, (Native, PrimMethod)):
            return self.T["builtin_function_or_method"]
        if isinstance(v, AIter):
            return self.T["generator"]
        if isinstance(v, AModule):
            return self.T["module"]
        if isinstance(v, (AProp, AStatic, AClassM, ACache, APartial, AView)):
            n = type(v).__name__
            if n not in self.T:
                self.T[n] = AClass({"AProp": "property", "AStatic": "staticmethod", "AClassM": "classmethod", "ACache":
                                    "_lru_cache_wrapper", "APartial": "partial", "AView": "dict_view"}[n], [self.T["object"]], {})
            return self.T[n]
        if isinstance(v, Unknown):
            raise Imprecise(f"type of {v!r}")
        if isinstance(v, Ext):
            return self.T["object"]
        return self.T["object"]

    def typename(self, v):
        try:
            return self.typeof(v).name
        except Imprecise:
            return "?"

    def isinstance(self, v, c):
        if isinstance(c, tuple):
            return any([self.isinstance(v, x) for x in c])
        if isinstance(c, AClass):
            if c.check is not None:
                r = c.check(self, v)
                if r is not None:
                    return r
            return c in self.typeof(v).mro
        if c is None:
            return v is None
        if isinstance(c, (Ext, Unknown)):
            raise Imprecise(f"isinstance against {c!r}")
        self.throw("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")

    def issubclass(self, a, c):
        if isinstance(c, tuple):
            return any([self.issubclass(a, x) for x in c])
        if not isinstance(a, AClass):
            self.throw("TypeError", "issubclass() arg 1 must be a class")
        if isinstance(c, AClass):
            if c.check is not None and c not in a.mro:
                if a.py is not None and c.py is not None:
                    return issubclass(a.py, c.py)
                return self.abc_has(a, c)
            return c in a.mro
        raise Imprecise("issubclass")

    def abc_has(self, a, c):
        import collections.abc
        py = getattr(collections.abc, c.name, None)
        if py is None:
            return False
        if a.py is not None:
            return issubclass(a.py, py)
        return bool(c.check(self, AObj(a)))

    def callable(self, v):
        if isinstance(v, (AFunc, ABound, Native, PrimMethod, AClass, ACache, APartial)):
            return True
        if isinstance(v, AObj):
            return v.cls.find("__call__") is not None
        if isinstance(v, SObj):
            return v.kind == "function"
        if isinstance(v, (Unknown, Ext)):
            raise Imprecise(f"callable({v!r})")
        return False

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        if v is True or v is False:
            return v
        if isinstance(v, SInt):
            return not self.is_eq0(v.lin)
        if isinstance(v, SMono):
            return self.compare_int("!=", v, 0)
        if isinstance(v, SBytes):
            n = self.bytes_len(v)
            return self.truth(n)
        if isinstance(v, SStr):
            for p in v.pieces:
                if isinstance(p, str) or p[0:1] == ("int",) if not isinstance(p, Tok) else False:
                    return True
            return self.truth(self.len(v))
        if isinstance(v, SDec):
            return not self.is_eq0(v.num)
        if isinstance(v, SFloat):
            return not self.is_eq0(v.lin)
        if isinstance(v, AList):
            return bool(v.items)
        if isinstance(v, ADict):
            return bool(v.d)
        if isinstance(v, AView):
            return bool(v.d.d)
        if isinstance(v, ABytearray):
            return self.truth(v.val)
        if isinstance(v, ARange):
            return self.truth(self.range_len(v))
        if isinstance(v, AObj):
            f = v.cls.find("__bool__")
            if f is not None:
                return self.truth(self.call(self.bind(f, v), [], {}))
            f = v.cls.find("__len__")
            if f is not None:
                return self.truth(self.call(self.bind(f, v), [], {}))
            if v.native is not None:
                return self.truth(v.native)
            return True
        if isinstance(v, SObj):
            if v.kind in ("object", "function", "nonfinite"):
                return True
            raise Imprecise(f"truth of {v!r}")
        if isinstance(v, Unknown):
            raise Imprecise(f"truth of {v!r}")
        if isinstance(v, PRIMT + (tuple,)):
            if v is NotImplemented:
                return True
            return bool(v)
        return True

    # ------------------------------------------------------------------ equality and order
    def eq(self, a, b):
        r = self.compare("==", a, b)
        return self.truth(r)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (SInt, SMono, SDec, SStr, SBytes, SFloat, SObj)) or isinstance(b, (SInt, SMono, SDec, SStr, SBytes, SFloat, SObj)):
            for x, y in ((a, b), (b, a)):
                if x is None or x is True or x is False or isinstance(x, (AObj, AClass, tuple, AList, ADict)):
                    return False
            if type(a) is not type(b) and self.pytype(a) is not self.pytype(b):
                return False
            raise Imprecise("identity of computed values")
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if isinstance(a, PRIMT) and isinstance(b, PRIMT):
            if type(a) is not type(b) or a != b:
                return False
            if isinstance(a, int) and -5 <= a <= 256:
                return True
            if isinstance(a, (str, bytes)) and len(a) <= 1:
                return True
            return False if not isinstance(a, str) else a == b
        if isinstance(a, ABound) and isinstance(b, ABound):
            return False
        return False

    def compare(self, op, a, b):
        if op == "is":
            return self.is_(a, b)
        if op == "is not":
            return not self.is_(a, b)
        if op == "in":
            return self.contains(b, a)
        if op == "not in":
            return not self.truth(self.contains(b, a))
        if isinstance(a, PRIMT) and isinstance(b, PRIMT):
            try:
                if isinstance(a, Dec) and a.is_snan() or isinstance(b, Dec) and b.is_snan():
                    if op in ("==", "!="):
                        return op == "!="
                return PYCMP[op](a, b)
            except TypeError as e:
                self.throw("TypeError", str(e))
            except decimal.InvalidOperation:
                self.throw(self.decT["InvalidOperation"], "comparison involving NaN")
        if isinstance(a, AObj) or isinstance(b, AObj):
            return self.obj_compare(op, a, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            raise Imprecise("comparison with an unknown value")
        ta, tb = self.pytype(a), self.pytype(b)
        numa = ta is not None and issubclass(ta, NUM)
        numb = tb is not None and issubclass(tb, NUM)
        if numa and numb:
            return self.num_compare(op, a, b)
        if op in ("==", "!="):
            r = self.eq0(a, b, ta, tb)
            return r if op == "==" else not r
        if ta in (bytes, bytearray) and tb in (bytes, bytearray):
            return self.order_bytes(op, self.as_bytes(a), self.as_bytes(b))
        if ta in (list, tuple) and ta is tb:
            xs, ys = self.seq(a), self.seq(b)
            for x, y in zip(xs, ys):
                if not self.eq(x, y):
                    return self.compare(op, x, y)
            return PYCMP[op](len(xs), len(ys))
        if ta is str and tb is str:
            raise Imprecise("ordering of text")
        if isinstance(a, ASet) and isinstance(b, ASet):
            sub = all(self.dget(b, k)[0] for k, _ in a.d.values())
            sup = all(self.dget(a, k)[0] for k, _ in b.d.values())
            return {"<=": sub, ">=": sup, "<": sub and not sup, ">": sup and not sub}[op]
        if isinstance(a, SObj) and a.kind == "nonfinite" or isinstance(b, SObj) and b.kind == "nonfinite":
            raise Imprecise("comparison with a non-finite decimal")
        self.throw("TypeError", f"'{op}' not supported between instances of '{self.typename(a)}' and '{self.typename(b)}'")

    def seq(self, v):
        return list(v) if isinstance(v, tuple) else v.items

    def obj_compare(self, op, a, b):
        name, rname = f"__{DUNDER[op]}__", f"__{DUNDER[SWAP[op]]}__"
        order = [(a, name, b), (b, rname, a)]
        if isinstance(a, AObj) and isinstance(b, AObj) and b.cls is not a.cls and a.cls in b.cls.mro and b.cls.find(rname) is not None:
            order.reverse()
        for x, nm, y in order:
            if isinstance(x, AObj):
                f = x.cls.find(nm)
                if f is not None:
                    r = self.call(self.bind(f, x), [y], {})
                    if r is not NotImplemented:
                        return r
                elif op == "!=":
                    f = x.cls.find("__eq__")
                    if f is not None:
                        r = self.call(self.bind(f, x), [y], {})
                        if r is not NotImplemented:
                            return not self.truth(r)
        na = a.native if isinstance(a, AObj) else a
        nb = b.native if isinstance(b, AObj) else b
        if na is not None and nb is not None:
            return self.compare(op, na, nb)
        if op == "==":
            return a is b
        if op == "!=":
            return a is not b
        self.throw("TypeError", f"'{op}' not supported between instances of '{self.typename(a)}' and '{self.typename(b)}'")

    def eq0(self, a, b, ta, tb):
        if a is b:
            return True
        if isinstance(a, (AFunc, AClass, Native, AModule, Ext, ACache)) or isinstance(b, (AFunc, AClass, Native, AModule, Ext, ACache)):
            return a is b
        if isinstance(a, ABound) and isinstance(b, ABound):
            return a.fn is b.fn and (a.self is b.self)
        by = (bytes, bytearray, memoryview)
        if ta in by and tb in by and not isinstance(a, SObj) and not isinstance(b, SObj):
            return self.eq_bytes(self.as_bytes(a), self.as_bytes(b))
        if ta is str and tb is str:
            return self.eq_str(a, b)
        if ta in (list, tuple) and ta is tb and not isinstance(a, SObj) and not isinstance(b, SObj):
            xs, ys = self.seq(a), self.seq(b)
            return len(xs) == len(ys) and all([self.eq(x, y) for x, y in zip(xs, ys)] if len(xs) < 2 else
                                              (self.eq(x, y) for x, y in zip(xs, ys)))
        if isinstance(a, ASet) and isinstance(b, ASet):
            return len(a.d) == len(b.d) and all(self.dget(b, k)[0] for k, _ in a.d.values())
        if isinstance(a, ADict) and isinstance(b, ADict):
            if len(a.d) != len(b.d):
                return False
            for k, v in a.d.values():
                h, w = self.dget(b, k)
                if not h or not self.eq(v, w):
                    return False
            return True
        if isinstance(a, ARange) and isinstance(b, ARange):
            return all(self.eq(getattr(a, x), getattr(b, x)) for x in ("start", "stop", "step"))
        if isinstance(a, SObj) or isinstance(b, SObj):
            if ta is not None and ta is tb:
                raise Imprecise("equality of unknown objects")
            return False
        return False

    def num_compare(self, op, a, b):
        if isinstance(a, SObj) or isinstance(b, SObj):
            raise Imprecise("comparison of an unknown number")
        if isinstance(a, (int, SInt, SMono)) and isinstance(b, (int, SInt, SMono)):
            return self.compare_int(op, a, b)
        if isinstance(a, complex) or isinstance(b, complex):
            if op in ("==", "!="):
                return op == "!="
            self.throw("TypeError", "unordered complex")
        for x in (a, b):
            if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))) or isinstance(x, Dec) and not x.is_finite():
                if op in ("==", "!="):
                    return op == "!="
                if isinstance(x, Dec) and x.is_nan():
                    self.throw(self.decT["InvalidOperation"], "comparison involving NaN")
                if x != x:
                    return False
                pos = x > 0
                return (op in ("<", "<=")) == (pos == (x is b))
        # Fraction and Decimal do not compare for order
        if op not in ("==", "!="):
            ta, tb = self.pytype(a), self.pytype(b)
            if {ta, tb} == {Fraction, Dec}:
                self.throw("TypeError", f"'{op}' not supported between instances")
        return self.compare_lin(op, self.real_lin(a), self.real_lin(b))

    def real_lin(self, v):
        if isinstance(v, SFloat):
            return v.lin
        if isinstance(v, float):
            return Lin({}, Fraction(v))
        if isinstance(v, Fraction):
            return Lin({}, v)
        if isinstance(v, (Dec, SDec)):
            n, e = self.dec_parts(v)
            return n * 10 ** e if e >= 0 else Lin({s: Fraction(k, 10 ** -e) for s, k in n.t.items()}, Fraction(n.c, 1) / 10 ** -e)
        if isinstance(v, SMono):
            raise Imprecise("bit length")
        return self.lin(v)

    # ------------------------------------------------------------------ text
    def strcat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, AObj) and p.native is not None:
                p = p.native
            ps = p.pieces if isinstance(p, SStr) else (p,)
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return SStr(tuple(out))

    def eq_str(self, a, b):
        pa = a.pieces if isinstance(a, SStr) else (a,) if a else ()
        pb = b.pieces if isinstance(b, SStr) else (b,) if b else ()
        if len(pa) == len(pb):
            same = True
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        same = False
                elif isinstance(x, Tok) or isinstance(y, Tok):
                    if x is not y:
                        same = False
                elif isinstance(x, tuple) and isinstance(y, tuple):
                    if self.norm(x[1]) != self.norm(y[1]):
                        same = False
                else:
                    same = False
            if same:
                return True
        # quick refutations
        if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return False
        if len(pa) == 1 and isinstance(pa[0], Tok) and pa[0].ln is not None and not pb:
            return self.is_eq0(pa[0].ln)
        if len(pb) == 1 and isinstance(pb[0], Tok) and pb[0].ln is not None and not pa:
            return self.is_eq0(pb[0].ln)
        if self.entail:
            raise Fork("text equality")
        key = ("streq",) + tuple(sorted([repr(pa), repr(pb)]))
        if key not in self.p.atoms:
            self.vague("equality of unknown text")
        return self.atom(key, f"{a!r} == {b!r}")

    def tok(self, name):
        return SStr((Tok(name),))

    def len_limit(self, lin):
        """Conversion of an int with more than 4300 digits to text raises ValueError."""
        if not self.is_ge0(Lin({}, BIG - 1) - lin) or not self.is_ge0(lin + (BIG - 1)):
            raise NativeError("ValueError", "Exceeds the limit (4300 digits) for integer string conversion")

    def repr(self, v, depth=0):
        if isinstance(v, (str, bytes, float, type(None), Dec, complex, Fraction)) or isinstance(v, int):
            try:
                return repr(v)
            except ValueError as e:
                self.throw("ValueError", str(e))
        if isinstance(v, SInt):
            self.len_limit(self.norm(v.lin))
            return SStr((("int", v.lin),))
        if isinstance(v, (tuple, AList)):
            xs = self.seq(v)
            parts = []
            for i, x in enumerate(xs):
                if i:
                    parts.append(", ")
                parts.append(self.repr(x))
            if isinstance(v, tuple):
                return self.strcat(["("] + parts + [",)" if len(xs) == 1 else ")"])
            return self.strcat(["["] + parts + ["]"])
        if isinstance(v, ADict):
            for k, x in list(v.d.values()):
                self.repr(k)
                if not isinstance(v, ASet):
                    self.repr(x)
            return self.tok("repr")
        if isinstance(v, AObj):
            f = v.cls.find("__repr__")
            if f is not None:
                return self.call(self.bind(f, v), [], {})
            if self.T["BaseException"] in v.cls.mro:
                return self.strcat([v.cls.name, self.repr(v.attrs.get("args", ()))])
            if v.native is not None:
                return self.repr(v.native)
            return f"<{v.cls.qualname} object>"
        if isinstance(v, AClass):
            return f"<class '{v.module + '.' if v.module != 'builtins' else ''}{v.qualname}'>"
        if isinstance(v, AFunc):
            return f"<function {v.qualname}>"
        if isinstance(v, SStr):
            return self.strcat(["'", v, "'"]) if any(isinstance(p, str) for p in v.pieces) else self.tok(f"repr {v!r}")
        return self.tok(f"repr {v!r}"[:60])

    def tostr(self, v):
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, AObj):
            f = v.cls.find("__str__")
            if f is not None:
                return self.call(self.bind(f, v), [], {})
            if self.T["BaseException"] in v.cls.mro and v.cls.find("__repr__") is None:
                a = v.attrs.get("args", ())
                return "" if not a else self.tostr(a[0]) if len(a) == 1 else self.repr(a)
            if v.native is not None and isinstance(v.native, (str, SStr)):
                return v.native
            return self.repr(v)
        if isinstance(v, PRIMT) and not isinstance(v, (bytes,)):
            try:
                return str(v)
            except ValueError as e:
                self.throw("ValueError", str(e))
        return self.repr(v)

    def format(self, v, spec=""):
        if isinstance(v, AObj):
            f = v.cls.find("__format__")
            if f is not None:
                return self.call(self.bind(f, v), [spec], {})
        if spec == "":
            return self.tostr(v)
        if isinstance(v, PRIMT) and isinstance(spec, str):
            try:
                return format(v, spec)
            except (ValueError, TypeError) as e:
                self.throw(type(e).__name__, str(e))
        if isinstance(v, SInt) and spec in ("x", "d", "X", "b", "o"):
            return self.tok(f"format({v!r},{spec})")
        return self.tok(f"format({v!r})")

    # ------------------------------------------------------------------ arithmetic
    def unop(self, op, v):
        if isinstance(v, PRIMT):
            try:
                if isinstance(v, Dec):
                    if op == "-":
                        return self.dec_neg(v)
                    if op == "+":
                        return self.dec_round(v, self.prec(), "unary plus")
                return {"-": operator.neg, "+": operator.pos, "~": operator.invert}[op](v)
            except TypeError as e:
                self.throw("TypeError", str(e))
        if isinstance(v, SInt):
            if op == "-":
                return self.mkint(-v.lin)
            if op == "+":
                return v
            return self.mkint(-v.lin - 1)
        if isinstance(v, SDec):
            if op == "-":
                return self.dec_round(SDec(-v.num, v.exp), self.prec(), "negation")
            return self.dec_round(v, self.prec(), "unary plus")
        if isinstance(v, AObj):
            f = v.cls.find({"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op])
            if f is not None:
                return self.call(self.bind(f, v), [], {})
        if isinstance(v, SFloat) and op == "-":
            return SFloat(-v.lin, v.kind)
        if isinstance(v, (Unknown, SObj, SMono)):
            raise Imprecise("unary operator")
        self.throw("TypeError", f"bad operand type for unary {op}: '{self.typename(v)}'")

    def dec_neg(self, v):
        return v.copy_negate() if v != 0 else v

    def prec(self):
        if not self.decctx:
            return None
        p = self.decctx[-1].attrs.get("prec")
        return p if isinstance(p, int) else None

    def concrete_ctx(self):
        c = self.decctx[-1] if self.decctx else None
        kw = {}
        for k in ("prec", "Emin", "Emax", "rounding"):
            v = c.attrs.get(k) if c else None
            if isinstance(v, (int, str)):
                kw[k] = v
        return decimal.Context(**kw)

    def range_len(self, v):
        if v.step == 1:
            d = self.lin(v.stop) - self.lin(v.start)
            return self.mkint(d) if self.is_ge0(d) else 0
        if all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
            n = max(0, -((v.stop - v.start) // -v.step)) if v.step > 0 else max(0, -((v.start - v.stop) // v.step))
            return n
        raise Imprecise("range length")

    def sizecheck(self, n, bits=None, exc="OverflowError"):
        """a count handed to the C level: beyond the index range it is refused; beyond 2**bits there is no memory"""
        if isinstance(n, SMono):
            return
        e = self.lin(n)
        if not self.is_ge0(Lin({}, MAXSIZE) - e):
            self.throw(exc, "cannot fit 'int' into an index-sized integer")
        if bits and not self.is_ge0(Lin({}, 2**bits) - e):
            self.throw("MemoryError")

    def binop(self, op, a, b):
        if isinstance(a, PRIMT) and isinstance(b, PRIMT):
            if isinstance(a, Dec) or isinstance(b, Dec):
                return self.dec_binop(op, a, b)
            try:
                if op == "**" and isinstance(a, int) and isinstance(b, int) and b > 20000 and abs(a) > 1:
                    raise Imprecise("huge power")
                if op in ("*", "<<") and isinstance(b, int) and b > 1 << 20 and not isinstance(a, int):
                    self.sizecheck(b, 50)
                    return self.repeat(a, b) if isinstance(a, bytes) else self.tok("long text")
                return PYOPS[op](a, b)
            except TypeError as e:
                self.throw("TypeError", str(e))
            except ZeroDivisionError as e:
                self.throw("ZeroDivisionError", str(e))
            except (ValueError, OverflowError, MemoryError) as e:
                self.throw(type(e).__name__, str(e))
        if isinstance(a, AObj) or isinstance(b, AObj):
            return self.obj_binop(op, a, b)
        if isinstance(a, AClass) or isinstance(b, AClass) or isinstance(a, AUnion):
            if op == "|":
                fl = lambda x: tuple(x) if isinstance(x, AUnion) else (x,)
                if isinstance(a, (Ext,)) or isinstance(b, Ext):
                    return Ext("union")
                return AUnion(fl(a) + fl(b))
        if isinstance(a, Ext) or isinstance(b, Ext):
            return Ext("expr")
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            raise Imprecise("operation on an unknown value")
        ta, tb = self.pytype(a), self.pytype(b)
        numa = ta is not None and issubclass(ta, NUM)
        numb = tb is not None and issubclass(tb, NUM)
        if numa and numb:
            return self.num_binop(op, a, b, ta, tb)
        bad = lambda: self.throw("TypeError", f"unsupported operand type(s) for {op}: '{self.typename(a)}' and '{self.typename(b)}'")
        by = (bytes, bytearray)
        if isinstance(a, SObj) or isinstance(b, SObj):
            raise Imprecise("operation on an unknown object")
        if op == "+":
            if ta in by and (tb in by or tb is memoryview):
                r = self.concat(self.as_bytes(a), self.as_bytes(b))
                return ABytearray(r) if ta is bytearray else r
            if ta is str and tb is str:
                return self.strcat([a, b])
            if ta is tuple and tb is tuple:
                return a + b
            if ta is list and tb is list:
                return AList(a.items + b.items)
            bad()
        if op == "*":
            if numa and tb in by + (str, list, tuple) and ta in (int, bool):
                a, b, ta, tb = b, a, tb, ta
            if tb in (int, bool):
                self.sizecheck(b, 50)
            if ta in by and tb in (int, bool):
                r = self.repeat(self.as_bytes(a), b)
                return ABytearray(r) if ta is bytearray else r
            if ta in (list, tuple) and tb in (int, bool):
                n = b
                if not isinstance(n, int):
                    if not self.is_ge0(n.lin - 1):
                        n = 0
                    else:
                        from .models import make_range
                        n = sum(1 for _ in self.iterate(make_range(self, None, [n], {})))
                xs = self.seq(a)
                if len(xs) * n > 20000:
                    raise Imprecise("long list")
                return AList(xs * n) if ta is list else tuple(xs) * n
            if ta is str and tb in (int, bool):
                if isinstance(b, int) and b < 4096:
                    return self.strcat([a] * b)
                return self.tok("repeated text")
            bad()
        if op == "%":
            if ta is str:
                return self.percent(a, b)
            if ta in by:
                raise Imprecise("bytes formatting")
        if isinstance(a, ASet) and isinstance(b, ASet):
            r = ASet(a.frozen)
            if op == "|":
                for s in (a, b):
                    for k, _ in s.d.values():
                        self.dset(r, k, None)
            elif op == "&":
                for k, _ in a.d.values():
                    if self.dget(b, k)[0]:
                        self.dset(r, k, None)
            elif op == "-":
                for k, _ in a.d.values():
                    if not self.dget(b, k)[0]:
                        self.dset(r, k, None)
            elif op == "^":
                for s, t in ((a, b), (b, a)):
                    for k, _ in s.d.values():
                        if not self.dget(t, k)[0]:
                            self.dset(r, k, None)
            else:
                bad()
            return r
        if isinstance(a, ADict) and isinstance(b, ADict) and op == "|":
            r = ADict()
            for s in (a, b):
                for k, v in s.d.values():
                    self.dset(r, k, v)
            return r
        bad()

    def percent(self, a, b):
        if isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, (str, int, float)) for x in args):
                try:
                    return a % tuple(args)
                except (TypeError, ValueError) as e:
                    self.throw(type(e).__name__, str(e))
            for x in args:
                self.tostr(x)
        return self.tok("formatted text")

    def obj_binop(self, op, a, b):
        n = DUNDER[op]
        for x, nm, y in ((a, f"__{n}__", b), (b, f"__r{n}__", a)):
            if isinstance(x, AObj):
                f = x.cls.find(nm)
                if f is not None:
                    r = self.call(self.bind(f, x), [y], {})
                    if r is not NotImplemented:
                        return r
        na = a.native if isinstance(a, AObj) else a
        nb = b.native if isinstance(b, AObj) else b
        if na is not None and nb is not None:
            return self.binop(op, na, nb)
        self.throw("TypeError", f"unsupported operand type(s) for {op}: '{self.typename(a)}' and '{self.typename(b)}'")

    def num_binop(self, op, a, b, ta, tb):
        if isinstance(a, SObj) or isinstance(b, SObj):
            if {ta, tb} == {complex, Dec} or ta is complex and op in ("%", "//"):
                self.throw("TypeError", "unsupported operand type(s)")
            raise Imprecise("arithmetic on an unknown number")
        if ta is Dec or tb is Dec:
            o = tb if ta is Dec else ta
            if o in (float, complex, Fraction):
                self.throw("TypeError", f"unsupported operand type(s) for {op}: '{ta.__name__}' and '{tb.__name__}'")
            return self.dec_binop(op, a, b)
        if ta in (float, Fraction) or tb in (float, Fraction):
            raise Imprecise("arithmetic on floats")
        if op == "/":
            raise Imprecise("true division of integers")
        return self.int_binop(op, a, b)

    # decimals --------------------------------------------------------------------
    def dec_binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, (float, complex, Fraction, SFloat, str, bytes, type(None))):
                self.throw("TypeError", f"unsupported operand type(s) for {op}")
            if isinstance(x, SObj):
                raise Imprecise("arithmetic on a non-finite decimal")
            if isinstance(x, Dec) and not x.is_finite():
                return self.dec_special(op, a, b)
        p = self.prec()
        if isinstance(a, (int, Dec)) and isinstance(b, (int, Dec)):
            # constants: fold, noting whether the result depends on the ambient context
            exact = decimal.Context(prec=5000, Emin=decimal.MIN_EMIN, Emax=decimal.MAX_EMAX,
                                    traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])
            fn = {"+": "add", "-": "subtract", "*": "multiply", "/": "divide", "//": "divide_int", "%": "remainder", "**": "power"}.get(op)
            if fn is None:
                self.throw("TypeError", f"unsupported operand type(s) for {op}")
            A, B = Dec(a), Dec(b)
            try:
                if p is None:
                    ev = len(self.p.events)
                    r = getattr(exact, fn)(A, B)
                    if exact.flags[decimal.Inexact]:
                        self.p.events.append(("ambient-decimal", f"inexact {op}", self.loc()))
                    else:
                        self.dec_round(r, None, op)
                    return r
                c = self.concrete_ctx()
                r = getattr(c, fn)(A, B)
                if c.flags[decimal.Inexact] or c.flags[decimal.Underflow]:
                    self.p.events.append(("inexact-decimal", f"{op} rounds at {p} digits", self.loc()))
                return r
            except decimal.DecimalException as e:
                self.throw(self.decT[type(e).__name__], str(e))
        if op in ("+", "-"):
            x, y, e = self.dec_align(a, b)
            return self.dec_round(self.mkdec(x + y if op == "+" else x - y, e), p, op)
        if op == "*":
            (x, e), (y, f) = self.dec_parts(a), self.dec_parts(b)
            if x.t and y.t:
                raise Imprecise("product of unknown decimals")
            return self.dec_round(self.mkdec(x * y, e + f), p, op)
        if op == "/":
            (x, e), (y, f) = self.dec_parts(a), self.dec_parts(b)
            if y.t:
                raise Imprecise("division by an unknown decimal")
            if y.c == 0:
                self.throw(self.decT["DivisionByZero"], "division by zero")
            d = int(y.c)
            k = 0
            while d % 10 == 0:
                d //= 10
                f += 1
            # d = 2^i 5^j  ->  multiply up to a power of ten
            m = 1
            i = 0
            while d % 2 == 0 and i < 400:
                d //= 2
                m *= 5
                f += 1
                i += 1
            while d % 5 == 0 and i < 400:
                d //= 5
                m *= 2
                f += 1
                i += 1
            if abs(d) != 1:
                raise Imprecise("inexact decimal division")
            return self.dec_round(self.mkdec(x * (m * d), e - f), p, op)
        if op in ("%", "//"):
            x, y, e = self.dec_align(a, b)
            if y.t:
                raise Imprecise("remainder by an unknown decimal")
            if y.c == 0:
                self.throw(self.decT["InvalidOperation"], "remainder by zero")
            m = abs(int(y.c))
            q, r = self.trunc_div(x, m)
            if op == "%":
                return self.mkdec(r, e)
            return self.mkdec(q if y.c > 0 else -q, 0)
        if op == "**":
            (y, f) = self.dec_parts(b)
            raise Imprecise("power of an unknown decimal")
        self.throw("TypeError", f"unsupported operand type(s) for {op}")

    def dec_special(self, op, a, b):
        try:
            if isinstance(a, (int, Dec)) and isinstance(b, (int, Dec)):
                c = self.concrete_ctx()
                c.traps[decimal.InvalidOperation] = True
                fn = {"+": "add", "-": "subtract", "*": "multiply", "/": "divide", "//": "divide_int", "%": "remainder", "**": "power"}[op]
                return getattr(c, fn)(Dec(a), Dec(b))
        except decimal.DecimalException as e:
            self.throw(self.decT[type(e).__name__], str(e))
        raise Imprecise("non-finite arithmetic")

    def trunc_div(self, x, m):
        """Quotient and remainder of real form x by m, truncated toward zero."""
        x = self.norm(x)
        fr = [s for s in x.t if not s.integer]
        if not fr:
            if self.is_ge0(x):
                return self.divmod_lin(x, m)
            q, r = self.divmod_lin(-x, m)
            return -q, -r
        if len(fr) > 1 or x.t[fr[0]] not in (1, -1):
            raise Imprecise("fractional remainder")
        s = fr[0]
        k = x.t[s]
        F = Lin({s: 1}, 0)
        I = x - F * k
        if k == -1:           # x = I - F = (I-1) + (1-F)
            I, F = I - 1, Lin({s: -1}, 1)
        # x = I + F, 0 < F < 1
        if self.is_ge0(I):
            q, r = self.divmod_lin(I, m)
            return q, r + F
        # x < 0: -x = (-I-1) + (1-F)
        q, r = self.divmod_lin(-I - 1, m)
        return -q, -(r + (1 - F))

    def dec_to_int(self, v):
        n, e = self.dec_parts(v)
        if e >= 0:
            n = n * 10 ** e
            if not any(not s.integer for s in n.t):
                return self.mkint(n)
            return self.mkint(self.trunc_div(n, 1)[0])
        return self.mkint(self.trunc_div(n, 10 ** -e)[0])

    # ------------------------------------------------------------------ containers
    def concretize(self, v, cap=None):
        """A definite value for a small symbolic integer (splits the state)."""
        if isinstance(v, int):
            return v
        if isinstance(v, SMono):
            raise Imprecise("bit length as a count")
        e = self.norm(v.lin)
        if e.is_const():
            return e.c
        lo, hi = self.p.store.rng(e)
        cap = self.loop_cap if cap is None else cap
        if lo is None:
            raise Imprecise("unbounded count")
        for k in range(int(lo), int(lo) + cap + 1):
            if self.is_eq0(e - k):
                return k
        from .interp import LoopCap
        raise LoopCap()

    def as_bytes(self, v):
        if isinstance(v, (bytes, SBytes)):
            return v
        if isinstance(v, ABytearray):
            return v.val
        if isinstance(v, AObj) and isinstance(v.native, (bytes, SBytes)):
            return v.native
        raise Imprecise(f"not bytes: {v!r}")

    def len(self, v):
        if isinstance(v, (tuple, str, bytes)):
            return len(v)
        if isinstance(v, AList):
            return len(v.items)
        if isinstance(v, ADict):
            return len(v.d)
        if isinstance(v, AView):
            return len(v.d.d)
        if isinstance(v, SBytes):
            return self.bytes_len(v)
        if isinstance(v, ABytearray):
            return self.len(v.val)
        if isinstance(v, SStr):
            n = Lin({}, 0)
            for p in v.pieces:
                if isinstance(p, str):
                    n = n + len(p)
                elif isinstance(p, Tok) and p.ln is not None:
                    n = n + p.ln
                else:
                    key = ("len", p if isinstance(p, Tok) else repr(p))
                    s = self.p.atoms.get(key)
                    if s is None:
                        s = self.p.atoms[key] = Lin.sym(self.p.store.fresh(f"len({p!r})"[:40], 0, 1 << 40))
                    n = n + s
            return self.mkint(n)
        if isinstance(v, ARange):
            n = self.range_len(v)
            self.sizecheck(n)
            return n
        if isinstance(v, AObj):
            f = v.cls.find("__len__")
            if f is not None:
                return self.call(self.bind(f, v), [], {})
            if v.native is not None:
                return self.len(v.native)
        if isinstance(v, SObj) and v.kind in ("dict", "list", "set"):
            return self.mkint(Lin.sym(self.p.store.fresh(f"len({v.name})", 0, 1 << 40)))
        if isinstance(v, Unknown):
            raise Imprecise(f"len of {v!r}")
        self.throw("TypeError", f"object of type '{self.typename(v)}' has no len()")

    def iterable(self, v):
        if isinstance(v, (tuple, str, bytes, AList, ADict, AView, SBytes, SStr, ABytearray, ARange, AIter)):
            return True
        if isinstance(v, AObj):
            return v.cls.find("__iter__") is not None or v.cls.find("__getitem__") is not None or (v.native is not None and self.iterable(v.native))
        if isinstance(v, SObj):
            return v.kind in ("dict", "list", "set", "memoryview", "bytearray")
        if isinstance(v, Unknown):
            raise Imprecise(f"iteration over {v!r}")
        return False

    def iterate(self, v):
        if isinstance(v, (tuple, str, bytes)):
            return iter(v)
        if isinstance(v, AList):
            return self._iter_list(v)
        if isinstance(v, AIter):
            return self._iter_iter(v)
        if isinstance(v, ARange):
            return self._iter_range(v)
        if isinstance(v, ADict):
            return iter([k for k, _ in v.d.values()])
        if isinstance(v, AView):
            if v.kind == "keys":
                return iter([k for k, _ in v.d.d.values()])
            if v.kind == "values":
                return iter([x for _, x in v.d.d.values()])
            return iter([(k, x) for k, x in v.d.d.values()])
        if isinstance(v, SBytes):
            return self._iter_bytes(v)
        if isinstance(v, ABytearray):
            return self.iterate(v.val)
        if isinstance(v, AObj):
            f = v.cls.find("__iter__")
            if f is not None:
                return self.iterate(self.call(self.bind(f, v), [], {}))
            f = v.cls.find("__next__")
            if f is not None:
                return self._iter_next(v, f)
            f = v.cls.find("__getitem__")
            if f is not None:
                return self._iter_getitem(v, f)
            if v.native is not None:
                return self.iterate(v.native)
        if isinstance(v, SStr):
            raise Imprecise("iteration over unknown text")
        if isinstance(v, (Unknown, SObj, Ext)):
            if isinstance(v, SObj) and not self.iterable(v):
                self.throw("TypeError", f"'{self.typename(v)}' object is not iterable")
            raise Imprecise(f"iteration over {v!r}")
        self.throw("TypeError", f"'{self.typename(v)}' object is not iterable")

    def _iter_next(self, v, f):
        while True:
            try:
                x = self.call(self.bind(f, v), [], {})
            except AExc as e:
                if self.T["StopIteration"] in e.obj.cls.mro:
                    return
                raise
            yield x

    def _iter_getitem(self, v, f):
        i = 0
        while True:
            try:
                x = self.call(self.bind(f, v), [i], {})
            except (AExc, NativeError) as e:
                e = self.as_exc(e)
                if self.T["IndexError"] in e.obj.cls.mro:
                    return
                raise e
            yield x
            i += 1

    def _iter_list(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1

    def _iter_iter(self, v):
        while True:
            try:
                x = next(v.it)
            except StopIteration:
                return
            except ValueError as e:
                if "already executing" in str(e):
                    self.throw("ValueError", str(e))
                raise
            yield x

    def _iter_range(self, v):
        if all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
            r = range(v.start, v.stop, v.step)
            if len(r) > 5000:
                def long():
                    from .interp import LoopCap
                    for i, x in enumerate(r):
                        if i > 5000:
                            raise LoopCap()
                        yield x
                return long()
            return iter(r)
        return self._iter_symrange(v)

    def _iter_symrange(self, v):
        from .interp import LoopCap
        if not isinstance(v.step, int) or v.step == 0:
            raise Imprecise("range step")
        cur = self.lin(v.start)
        stop = self.lin(v.stop)
        n = 0
        cap = self.loop_cap
        while True:
            more = self.is_ge0(stop - cur, True) if v.step > 0 else self.is_ge0(cur - stop, True)
            if not more:
                return
            n += 1
            if n > cap:
                raise LoopCap()
            yield self.mkint(cur)
            cur = cur + v.step

    def _iter_bytes(self, v):
        segs = self.resolved(v.segs)
        n = self.const_len(segs)
        if not n.is_const():
            v = self.definite(v)
            if isinstance(v, bytes):
                yield from v
                return
            n = self.const_len(v.segs)
        if n.c > 4096:
            raise Imprecise("long byte iteration")
        for i in range(n.c):
            yield self.mkint(self.to_int(self.slice_bytes(v, i, i + 1)))

    def next(self, it, default=NOVAL):
        if isinstance(it, AIter):
            try:
                return next(it.it)
            except StopIteration as s:
                if default is not NOVAL:
                    return default
                self.throw("StopIteration", *([s.value] if s.value is not None else []))
        if isinstance(it, AObj):
            f = it.cls.find("__next__")
            if f is not None:
                try:
                    return self.call(self.bind(f, it), [], {})
                except AExc as e:
                    if default is not NOVAL and self.T["StopIteration"] in e.obj.cls.mro:
                        return default
                    raise
        self.throw("TypeError", f"'{self.typename(it)}' object is not an iterator")

    def contains(self, c, v):
        if isinstance(c, ASet) or (isinstance(c, ADict) and c.kind in ("dict",)):
            return self.dget(c, v)[0]
        if isinstance(c, AView):
            if c.kind == "keys":
                return self.dget(c.d, v)[0]
            return any(self.eq(x, v) for x in self.iterate(c))
        if isinstance(c, (tuple, AList, AIter)):
            for x in self.iterate(c):
                if x is v or self.eq(x, v):
                    return True
            return False
        if isinstance(c, str) and isinstance(v, str):
            return v in c
        if isinstance(c, bytes) and isinstance(v, (bytes, int)):
            try:
                return v in c
            except ValueError as e:
                self.throw("ValueError", str(e))
        if isinstance(c, (str, SStr)):
            if not isinstance(v, (str, SStr)):
                self.throw("TypeError", "'in <string>' requires string as left operand")
            if isinstance(v, str) and isinstance(c, SStr):
                if any(isinstance(p, str) and v in p for p in c.pieces):
                    return True
                self.vague("substring of unknown text")
                return self.choose(2, f"{v!r} in {c!r}") == 0
            self.vague("substring of unknown text")
            return self.choose(2, f"{v!r} in {c!r}") == 0
        if isinstance(c, ARange):
            if c.step != 1 and not all(isinstance(x, int) for x in (c.start, c.stop, c.step)):
                raise Imprecise("range membership")
            if not isinstance(v, (int, SInt)):
                if isinstance(v, SMono):
                    raise Imprecise("range membership")
                return False
            lv = self.lin(v)
            if c.step == 1:
                return self.is_ge0(lv - self.lin(c.start)) and self.is_ge0(self.lin(c.stop) - lv, True)
            if isinstance(v, int):
                return v in range(c.start, c.stop, c.step)
            r = range(c.start, c.stop, c.step)
            if not len(r):
                return False
            lo, hi = min(r[0], r[-1]), max(r[0], r[-1])
            if not (self.is_ge0(lv - lo) and self.is_ge0(Lin({}, hi) - lv)):
                return False
            return self.is_eq0(self.divmod_lin(lv - lo, abs(c.step))[1])
        if isinstance(c, AObj):
            f = c.cls.find("__contains__")
            if f is not None:
                return self.truth(self.call(self.bind(f, c), [v], {}))
            if c.native is not None:
                return self.contains(c.native, v)
            for x in self.iterate(c):
                if x is v or self.eq(x, v):
                    return True
            return False
        if isinstance(c, SBytes) and isinstance(v, (int, SInt)):
            c = self.definite(c)
            return any(self.eq(x, v) for x in (c if isinstance(c, bytes) else self._iter_bytes(c)))
        if isinstance(c, (Unknown, SObj, SBytes)):
            raise Imprecise("membership test")
        if isinstance(c, ABytearray):
            return self.contains(c.val, v)
        self.throw("TypeError", f"argument of type '{self.typename(c)}' is not iterable")

    def index(self, i):
        if isinstance(i, AObj):
            f = i.cls.find("__index__")
            if f is not None:
                return self.call(self.bind(f, i), [], {})
            if isinstance(i.native, int):
                return i.native
        return i

    def getitem(self, o, k):
        if isinstance(o, AObj):
            f = o.cls.find("__getitem__")
            if f is not None:
                return self.call(self.bind(f, o), [k], {})
            if o.native is not None:
                return self.getitem(o.native, k)
            self.throw("TypeError", f"'{o.cls.name}' object is not subscriptable")
        if isinstance(o, ADict) and not isinstance(o, ASet):
            h, v = self.dget(o, k)
            if h:
                return v
            if o.default is not None:
                v = self.call(o.default, [], {})
                self.dset(o, k, v)
                return v
            self.throw("KeyError", k)
        k = self.index(k)
        if isinstance(o, (tuple, AList)):
            xs = self.seq(o)
            if isinstance(k, ASlice):
                s = slice(*[None if x is None else self.concretize(x) for x in (k.start, k.stop, k.step)])
                try:
                    r = xs[s]
                except ValueError as e:
                    self.throw("ValueError", str(e))
                return tuple(r) if isinstance(o, tuple) else AList(list(r))
            if isinstance(k, SInt):
                n = len(xs)
                for i in range(-n, n):
                    if self.is_eq0(self.lin(k) - i):
                        return xs[i]
                self.throw("IndexError", "index out of range")
            if not isinstance(k, int):
                self.throw("TypeError", f"indices must be integers or slices, not {self.typename(k)}")
            try:
                return xs[k]
            except IndexError:
                self.throw("IndexError", f"{self.typename(o)} index out of range")
        if isinstance(o, (bytes, SBytes, ABytearray)):
            b = self.as_bytes(o)
            wrap = (lambda x: ABytearray(x, o.kind)) if isinstance(o, ABytearray) else (lambda x: x)
            if isinstance(k, ASlice):
                if k.step is not None and k.step != 1:
                    if isinstance(b, bytes) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                        return wrap(b[k.start:k.stop:k.step])
                    raise Imprecise("strided slice")
                if isinstance(b, bytes) and all(x is None or isinstance(x, int) for x in (k.start, k.stop)):
                    return wrap(b[k.start:k.stop])
                return wrap(self.slice_bytes(b, k.start, k.stop))
            if not isinstance(k, (int, SInt)):
                self.throw("TypeError", "byte indices must be integers or slices")
            n = self.blen(b) if not isinstance(b, bytes) else Lin({}, len(b))
            e = self.lin(k)
            if not self.is_ge0(e):
                e = e + n
                if not self.is_ge0(e):
                    self.throw("IndexError", "index out of range")
            if not self.is_ge0(n - e - 1):
                self.throw("IndexError", "index out of range")
            i = self.mkint(e)
            return self.mkint(self.to_int(self.slice_bytes(b, i, self.mkint(e + 1))))
        if isinstance(o, (str, SStr)):
            if isinstance(o, str):
                try:
                    if isinstance(k, ASlice):
                        if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                            return o[k.start:k.stop:k.step]
                    elif isinstance(k, int):
                        return o[k]
                except IndexError as e:
                    self.throw("IndexError", str(e))
            return self.tok("part of text")
        if isinstance(o, ARange):
            if isinstance(k, int) and all(isinstance(x, int) for x in (o.start, o.stop, o.step)):
                try:
                    return range(o.start, o.stop, o.step)[k]
                except IndexError as e:
                    self.throw("IndexError", str(e))
            raise Imprecise("range index")
        if isinstance(o, (Ext, AClass)):
            return Ext("subscripted type")
        if isinstance(o, (Unknown, SObj)):
            raise Imprecise(f"subscript of {o!r}")
        if isinstance(o, (Native,)) and o.name in ("Union", "Optional", "cast", "NewType"):
            return Ext("type")
        self.throw("TypeError", f"'{self.typename(o)}' object is not subscriptable")

    def setitem(self, o, k, v):
        if isinstance(o, AObj):
            f = o.cls.find("__setitem__")
            if f is None:
                self.throw("TypeError", f"'{o.cls.name}' object does not support item assignment")
            self.call(self.bind(f, o), [k, v], {})
            return
        if isinstance(o, ADict) and not isinstance(o, ASet):
            self.dset(o, k, v)
            return
        k = self.index(k)
        if isinstance(o, AList):
            o.touch("[]")
            if isinstance(k, ASlice):
                s = slice(*[None if x is None else self.concretize(x) for x in (k.start, k.stop, k.step)])
                try:
                    o.items[s] = list(self.iterate(v))
                except ValueError as e:
                    self.throw("ValueError", str(e))
                return
            k = self.concretize(k) if isinstance(k, SInt) else k
            if not isinstance(k, int):
                self.throw("TypeError", "list indices must be integers or slices")
            try:
                o.items[k] = v
            except IndexError:
                self.throw("IndexError", "list assignment index out of range")
            return
        if isinstance(o, ABytearray):
            o.touch("[]")
            n = self.len(o.val)
            if isinstance(k, ASlice):
                if k.step not in (None, 1):
                    raise Imprecise("strided store")
                N = self.blen(o.val) if not isinstance(o.val, bytes) else Lin({}, len(o.val))
                a = self.clamp_index(k.start, N, Lin({}, 0))
                z = self.clamp_index(k.stop, N, N)
                if not self.is_ge0(z - a):
                    z = a
                left = self.slice_bytes(o.val, 0, self.mkint(a))
                right = self.slice_bytes(o.val, self.mkint(z), None)
                o.val = self.concat(self.concat(left, self.as_bytes(v)), right)
                return
            k = self.concretize(k)
            b = self.call(self.T["bytes"], [AList([v])], {})
            if isinstance(n, int) and not -n <= k < n:
                self.throw("IndexError", "bytearray index out of range")
            if k < 0:
                k = k + n if isinstance(n, int) else k
            o.val = self.concat(self.concat(self.slice_bytes(o.val, 0, k), b), self.slice_bytes(o.val, k + 1, None))
            return
        if isinstance(o, (Unknown, SObj, Ext)):
            raise Imprecise("item assignment on an unknown object")
        self.throw("TypeError", f"'{self.typename(o)}' object does not support item assignment")

    def delitem(self, o, k):
        if isinstance(o, AObj):
            f = o.cls.find("__delitem__")
            if f is None:
                self.throw("TypeError", f"'{o.cls.name}' object doesn't support item deletion")
            self.call(self.bind(f, o), [k], {})
            return
        if isinstance(o, ADict) and not isinstance(o, ASet):
            if not self.ddel(o, k):
                self.throw("KeyError", k)
            return
        if isinstance(o, AList):
            o.touch("del")
            if isinstance(k, ASlice):
                s = slice(*[None if x is None else self.concretize(x) for x in (k.start, k.stop, k.step)])
                del o.items[s]
                return
            try:
                del o.items[self.concretize(k)]
            except IndexError:
                self.throw("IndexError", "list assignment index out of range")
            return
        if isinstance(o, (Unknown, SObj, SBytes, ABytearray)):
            raise Imprecise("item deletion")
        self.throw("TypeError", f"'{self.typename(o)}' object doesn't support item deletion")

    # ------------------------------------------------------------------ dictionaries
    def key_id(self, v):
        """('p'|'t'|'i'|'b', ...) for a definite key; ('uh', h) for user-defined hashing; ('s',) for symbolic."""
        if isinstance(v, PRIMT):
            try:
                hash(v)
            except TypeError:
                self.throw("TypeError", "Cannot hash a signaling NaN value.")
            return ("p", v)
        if isinstance(v, tuple):
            ids = tuple([self.key_id(x) for x in v])
            for i in ids:
                if i[0] == "s" or i[0] == "uh" or i[0] == "us":
                    return ("us",)
            return ("t", ids)
        if isinstance(v, AObj):
            c, h = v.cls.find2("__hash__")
            if c is not None and h is None:
                self.throw("TypeError", f"unhashable type: '{v.cls.name}'")
            if h is not None:
                hv = self.call(self.bind(h, v), [], {})
                if not isinstance(hv, int):
                    return ("us",)
                return ("uh", hv)
            if v.native is not None:
                return self.key_id(v.native)
            return ("i", id(v))
        if isinstance(v, ABound):
            return ("b", id(v.fn), id(v.self))
        if isinstance(v, (AList, ABytearray)) or (isinstance(v, ADict) and not (isinstance(v, ASet) and v.frozen)):
            self.throw("TypeError", f"unhashable type: '{self.typename(v)}'")
        if isinstance(v, ASet):
            return ("fs", frozenset(v.d))
        if isinstance(v, SObj) and v.kind in ("dict", "list", "set", "bytearray"):
            self.throw("TypeError", f"unhashable type: '{v.kind}'")
        if isinstance(v, Val):
            return ("s",)
        return ("i", id(v))

    def _find(self, d, k):
        i = self.key_id(k)
        if i[0] in ("p", "t", "i", "b", "fs"):
            if i in d.d:
                return i
            if "sym" in d.uh:
                for j in d.uh["sym"]:
                    if self.eq(d.d[j][0], k):
                        return j
            return None
        if i[0] == "uh":
            for j in d.uh.get(i, ()):
                if d.d[j][0] is k or self.eq(d.d[j][0], k):
                    return j
            return None
        for j, (kk, _) in list(d.d.items()):
            if kk is k or self.eq(kk, k):
                return j
        return None

    def dget(self, d, k):
        j = self._find(d, k)
        if j is None:
            return False, None
        return True, d.d[j][1]

    def dset(self, d, k, v, cache=False):
        j = self._find(d, k)
        if not cache:
            d.touch(k if isinstance(k, str) else "item")
        if d.owner is not None:
            d.owner[0].touch(k if isinstance(k, str) else "item")
            d.owner[1][k] = v
        if j is not None:
            d.d[j] = (d.d[j][0], v)
            return
        i = self.key_id(k)
        if i[0] == "uh":
            lst = d.uh.setdefault(i, [])
            j = ("uh", i[1], id(k))
            lst.append(j)
        elif i[0] in ("s", "us"):
            j = ("s", id(k))
            d.uh.setdefault("sym", []).append(j)
        else:
            j = i
        d.d[j] = (k, v)

    def ddel(self, d, k):
        j = self._find(d, k)
        d.touch(k if isinstance(k, str) else "item")
        if j is None:
            return False
        if d.owner is not None:
            d.owner[0].touch(k if isinstance(k, str) else "item")
            d.owner[1].pop(k, None)
        del d.d[j]
        for key, lst in list(d.uh.items()):
            if j in lst:
                lst.remove(j)
                if not lst:
                    del d.uh[key]
        return True
