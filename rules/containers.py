"""Families of compound types and of values for them."""
from absint.core import SDec, SObj
from absint.objects import ABytearray, ADict, AList, ASet

from . import values
from .spec import *

OD, OS, OW = OP("opd"), OP("ops", 32), OP("opw", 96)


def shapes(s, d):
    """compound types over a static leaf s and a dynamic leaf d"""
    return [
        ARR(d), ARR(d, 1), ARR(d, 2), ARR(d, 3), ARR(s), ARR(s, 1), ARR(s, 2), TUP(s), TUP(d), TUP(s, d), TUP(d, s), TUP(d, d), TUP(s, s),
        TUP(s, d, s, d), TUP(d, d, d), ARR(ARR(s, 2)), ARR(ARR(d)), ARR(ARR(d, 2), 2), ARR(ARR(d), 2), ARR(ARR(d, 2)), ARR(ARR(s)),
        ARR(ARR(s), 2), ARR(ARR(s, 2), 2), TUP(s, TUP(s, d)), TUP(TUP(s, s), d), TUP(ARR(s, 2), d), TUP(d, ARR(s, 2), d),
        TUP(TUP(s, s), ARR(s, 2), d, TUP(d, s)), ARR(TUP(TUP(d), s)), ARR(TUP(s, d)), ARR(TUP(s, s)), ARR(TUP(s, d), 2), ARR(TUP(s, s), 2),
        TUP(ARR(TUP(s, d)), d), TUP(ARR(TUP(s, s), 2), d), TUP(ARR(d), TUP(d, ARR(s))), TUP(ARR(s, 3), TUP(d, TUP(s, d)), ARR(d, 2)),
        TUP(TUP(TUP(TUP(d)))), TUP(TUP(TUP(TUP(s)))), ARR(ARR(ARR(d))), ARR(ARR(ARR(s, 2), 2), 2), ARR(ARR(ARR(ARR(s)))),
        ARR(TUP(ARR(TUP(d, s)), s)), ARR(ARR(TUP(s, d), 2), 1), TUP(ARR(ARR(s, 2)), s), TUP(s, ARR(ARR(s), 2), d),
    ]


def arg_lists(s, d, some):
    """top-level argument lists around compound types"""
    out = []
    for T in some:
        out += [[T, s], [s, T], [d, T, d]]
    return out + [[], [s], [d], [s, s], [d, d], [s, d, s, d], [d, s, d]]


def depth(T, k):
    for i in range(k):
        T = ARR(T) if i % 2 else TUP(T)
    return T


def wide(n, s, d):
    """argument lists with n components in one place (label, types, number of elements of dynamic arrays)"""
    out = [(f"({n} static,dyn)", [TUP(*[s] * n, d)], 1), (f"(dyn,{n} static)", [TUP(d, *[s] * n)], 1), (f"{n} static,dyn", [s] * n + [d], 1), (f"dyn,{n} static", [d] + [s] * n, 1),
           (f"({n} dyn)", [TUP(*[d] * n)], 1), (f"static[{n}],dyn", [ARR(s, n), d], 1), (f"(static[{n}],dyn)", [TUP(ARR(s, n), d)], 1), (f"((({n} static)),dyn)", [TUP(TUP(*[s] * n), d), d], 1),
           (f"({n} static)[2]", [ARR(TUP(*[s] * n), 2), d], 1), (f"dyn[{n}],static", [ARR(d, n), s], 1)]
    if n <= 300:
        out += [(f"static[{n}][]", [ARR(ARR(s, n)), d], 2), (f"(static,dyn)[{n}]", [ARR(TUP(s, d), n)], 1), (f"{n} dyn", [d] * n, 1), (f"(dyn,({n} static),dyn)[]", [ARR(TUP(d, TUP(*[s] * n), d))], 2),
                (f"dyn[] of {n} in tuple", [TUP(s, ARR(d))], n)]
    return out


# ------------------------------------------------------------------------ values with one flaw
def paths(T, count=2):
    """all positions inside a value of T"""
    yield ()
    if T[0] == "tuple":
        for i, t in enumerate(T[1]):
            for p in paths(t, count):
                yield (i,) + p
    elif T[0] == "arr":
        n = T[2] if T[2] is not None else count
        for i in range(n):
            for p in paths(T[1], count):
                yield (i,) + p


def at(T, path):
    for i in path:
        T = T[1][i] if T[0] == "tuple" else T[1]
    return T


def put(v, path, x):
    if not path:
        return x
    items = list(v.items if isinstance(v, AList) else v)
    items[path[0]] = put(items[path[0]], path[1:], x)
    return AList(items) if isinstance(v, AList) else tuple(items)


def get(v, path):
    for i in path:
        v = v.items[i] if isinstance(v, AList) else v[i]
    return v


def shape_flaws(T):
    """label, build(S, legal value) -> ill-shaped value for container type T"""
    out = [("None", lambda S, v: None), ("int", lambda S, v: 5), ("text", lambda S, v: values.text(S, "t")), ("text-empty", lambda S, v: ""),
           ("text-ab", lambda S, v: "ab"), ("bytes", lambda S, v: values.raw_bytes(S, "b")), ("bytes-empty", lambda S, v: b""), ("bytes-2", lambda S, v: b"\x01\x02"),
           ("bytearray", lambda S, v: ABytearray(b"\x01\x02")), ("dict", lambda S, v: ADict()), ("set", lambda S, v: ASet()),
           ("object", lambda S, v: SObj("object")), ("True", lambda S, v: True),
           ("iterable", lambda S, v: S.I.call(S.h("Iter"), [v], {})),
           ("dict of values", lambda S, v: full(S, v, 0)), ("dict by name", lambda S, v: full(S, v, 1)), ("dict keyed by values", lambda S, v: full(S, v, 2)),
           ("set of values", lambda S, v: full(S, v, 3)), ("frozenset of values", lambda S, v: full(S, v, 4)), ("iterator", lambda S, v: S.I.call(S.I.builtins["iter"], [v], {})),
           ("dict values view", lambda S, v: S.I.call(S.I.getattr(full(S, v, 0), "values"), [], {})), ("generator", lambda S, v: S.I.call(S.h("gen"), [v], {}))]
    n = len(T[1]) if T[0] == "tuple" else T[2]
    if n is not None:
        def cut(k):
            def f(S, v):
                items = list(v.items if isinstance(v, AList) else v)
                items = items[:k] if k <= len(items) else items + [items[-1]] * (k - len(items))
                return AList(items) if isinstance(v, AList) else tuple(items)
            return f
        out += [(f"{k} of {n} elements", cut(k)) for k in sorted({0, n - 1, n + 1, n + 2}) if k != n]
    return out


def full(S, v, kind):
    """a container of the right number of legal entries that is not list-like"""
    items = list(v.items if isinstance(v, AList) else v)
    keys = items if kind in (2, 3, 4) and all(isinstance(x, (int, str, bytes)) for x in items) and len(set(items)) == len(items) else list(range(len(items)))
    if kind == 1:
        keys = [chr(97 + i) for i in range(len(items))]
    d = S.I.call(S.I.builtins["dict"], [AList([(k, x) for k, x in zip(keys, items)])], {})
    if kind < 3:
        return d
    return S.I.call(S.I.builtins["set" if kind == 3 else "frozenset"], [AList(keys)], {})


def leaf_flaws(T):
    """label, build(S, v) -> illegal value for the leaf"""
    out = [("None", lambda S, v: None)]
    k = T[0]
    if k in ("uint", "int"):
        lo, hi = bounds(T)
        out += [("too-big", lambda S, v: S.int("big", hi + 1, None)), ("too-small", lambda S, v: S.int("small", None, lo - 1)), ("text", lambda S, v: "1"), ("True", lambda S, v: True),
                ("list", lambda S, v: AList([1]))]
    elif k == "bytes":
        out += [("text", lambda S, v: values.text(S, "t")), ("int", lambda S, v: 1), ("list", lambda S, v: AList([]))]
    elif k == "string":
        out += [("bytes", lambda S, v: b"a"), ("surrogate", lambda S, v: values.text(S, "t", utf8=False)), ("int", lambda S, v: 1)]
    elif k == "bytesM":
        out += [("too-long", lambda S, v: values.raw_bytes(S, "long", T[1] + 1, VALLEN)), ("text", lambda S, v: "a")]
    elif k == "bool":
        out += [("int", lambda S, v: 1)]
    elif k == "address":
        out += [("short", lambda S, v: b"\x00" * 19), ("text", lambda S, v: "0x12")]
    elif k in ("ufixed", "fixed"):
        lo, hi = bounds(T)
        out += [("too-big", lambda S, v: SDec(S.sym("n", hi + 1, 10 ** 200), -T[2])), ("excess", lambda S, v: SDec(S.sym("n", 0, hi - 1) * 10 + 1, -T[2] - 1)), ("float", lambda S, v: 0.0)]
    return out
