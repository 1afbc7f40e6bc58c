"""History independence (C15) and absence of side effects (C25)."""
from absint.core import SBytes, SDec
from absint.lin import Imprecise
from absint.objects import *
from absint.objects import HEAP

from . import values
from .encode import short
from .registry import H, must
from .spec import *


# ------------------------------------------------------------------------------------ C15
def w(n):
    return n.to_bytes(32, "big")


BADPAD = w(1) + b"a" + b"\xff" * 31         # length 1, content, padding that is not zero
GOOD = w(1) + b"a" + bytes(31)


def wires(elem):
    """type -> data, for an element type with the layout of bytes"""
    E = lambda body: {
        elem: w(32) + body, f"{elem}[]": w(32) + w(1) + w(32) + body, f"({elem})": w(32) + w(32) + body, f"{elem}[1]": w(32) + w(32) + body,
        f"(uint8,{elem})[]": w(32) + w(1) + w(32) + w(7) + w(64) + body, f"({elem}[],{elem})": w(32) + w(64) + w(64 + 64 + len(body)) + w(1) + w(32) + body + body}
    return E(BADPAD), E(GOOD)


def args_of(elem, t):
    """(argument types, data with bad padding, data with good padding)"""
    if "*" not in t:
        bad, good = wires(elem)
        return [t], bad[t], good[t]
    what, n = t.split("*")
    n = int(n)
    ts = [elem] * n if what == "same" else ["uint8"] * (n - 1) + [elem]
    head = b"".join(w(32 * n) if x == elem else w(7) for x in ts)
    return ts, head + BADPAD, head + GOOD


def strict_calls(elem, shapes, regs=1):
    """calls of a history: (registry index, kind, type, strict, well padded)"""
    out = []
    if "*" in shapes[0]:
        for r in range(regs):
            for sh in shapes:
                out += [(r, "decode", sh, s, False) for s in (True, False, None)] + [(r, "decode", sh, s, True) for s in (True, False)]
        return out
    for r in range(regs):
        for sh in shapes:
            t = sh.replace("T", elem)
            for s in (True, False, None):
                out.append((r, "decode", t, s, False))
            out.append((r, "get", t, None, False))
            out.append((r, "get", t, False, False))
        out.append((r, "decode", shapes[0].replace("T", elem), True, True))
    return out


def show(c):
    r, k, t, s, g = c
    return f"{'copy.' if r else ''}{k}({t}, strict={'default' if s is None else s}{', well padded' if g else ''})"


def do_call(S, regs, cods, elem, c):
    r, k, t, s, g = c
    kw = {} if s is None else {"strict": s}
    if k == "get":
        return S.method(regs[r], "get_decoder", t, **kw)
    ts, bad, good = args_of(elem, t)
    return S.method(cods[r], "decode", AList(ts), good if g else bad, **kw)


def describe(out):
    if not out.ok:
        return ("raises", out.cls)
    v = out.val
    if isinstance(v, AObj):
        return ("coder", v.cls.name, v.attrs.get("strict", lookup_attr(v, "strict")))
    return ("returns", repr(v))


def lookup_attr(o, n):
    return o.cls.find(n)


def setup(S, regs):
    reg = S.h("strictreg")
    rs = [reg] + [must(S, S.method(reg, "copy")) for _ in range(regs - 1)]
    return rs, [H(S, "codec_of", r) for r in rs]


def strict_history(elem, shapes, depth, regs=1, first=None):
    calls = strict_calls(elem, shapes, regs)

    def direct(A):
        fresh = {}

        def one(c):
            def fn(S):
                rs, cs = setup(S, regs)
                fresh[c] = describe(do_call(S, rs, cs, elem, c))
            return fn
        res = {"paths": 0, "infeasible": 0, "cut": 0, "undecided": [], "violations": [], "notes": {}, "complete": True}
        for c in calls:
            r = A.explore(one(c), 50, 5)
            merge(res, r)
        if res["undecided"]:
            return res

        def hist(S):
            rs, cs = setup(S, regs)
            h = []
            S.inp("history", h)
            for d in range(depth):
                c = calls[S.I.choose(len(calls), "call")] if d or first is None else calls[first]
                got = describe(do_call(S, rs, cs, elem, c))
                h.append(show(c))
                S.count("calls")
                if got != fresh[c]:
                    S.violate("history", f"{', then '.join(h)}: the last call {got}, as a first call it {fresh[c]}")
                if c[1] == "decode" and (c[2] == elem or "*" in c[2]) and not c[4]:
                    if c[3] is False and got[0] != "returns":
                        S.violate("not-relaxed", f"{', then '.join(h)}: the last call {got}")
                    if c[3] is not False and got != ("raises", "NonEmptyPaddingBytes"):
                        S.violate("not-strict", f"{', then '.join(h)}: the last call {got}")
        merge(res, A.explore(hist, 20000, 60))
        return res
    return direct


def merge(res, r):
    for k in ("paths", "infeasible", "cut"):
        res[k] += r[k]
    res["undecided"] += r["undecided"]
    res["violations"] += r["violations"]
    res["complete"] = res["complete"] and r["complete"]
    for k, n in r["notes"].items():
        res["notes"][k] = res["notes"].get(k, 0) + n


# ------------------------------------------------------------------------------------ C25
def api(S, kind, ts, v, strict=True):
    """one call of the public interface"""
    tl = AList([t if isinstance(t, str) else tstr(t) for t in ts])
    if kind == "encode":
        return S.call(S.api("eth_abi.abi", "encode"), tl, v)
    if kind == "packed":
        return S.call(S.api("eth_abi.packed", "encode_packed"), tl, v)
    if kind == "is_encodable":
        return S.call(S.api("eth_abi.abi", "is_encodable"), tl.items[0], v.items[0])
    if kind == "is_encodable_packed":
        return S.call(S.api("eth_abi.packed", "is_encodable_packed"), tl.items[0], v.items[0])
    return S.call(S.api("eth_abi.abi", "decode"), tl, v, strict=strict)


def reach(roots):
    """heap objects reachable from the caller's arguments"""
    seen, todo = {}, list(roots)
    while todo:
        o = todo.pop()
        if isinstance(o, tuple):
            todo += o
        elif isinstance(o, Obj) and id(o) not in seen:
            seen[id(o)] = o
            if isinstance(o, AList):
                todo += o.items
            elif isinstance(o, ADict):
                todo += [x for kv in o.d.values() for x in kv]
            elif isinstance(o, AObj):
                todo += list(o.attrs.values())
    return seen


def freeze_args(o):
    if isinstance(o, AList):
        return ("list", [freeze_args(x) for x in o.items])
    if isinstance(o, tuple):
        return ("tuple", [freeze_args(x) for x in o])
    if isinstance(o, ABytearray):
        return ("bytearray", repr(o.val))
    if isinstance(o, AObj):
        return ("obj", {k: freeze_args(v) for k, v in o.attrs.items()})
    if isinstance(o, (int, str, bytes)):
        return o
    return repr(o)


def is_coder(S, o):
    return isinstance(o, AObj) and any(c.name in ("BaseCoder", "ABIRegistry", "PredicateMapping", "BaseABICoder", "BaseRegistry", "ABIType") for c in o.cls.mro)


def watch(S, what, roots, call):
    """run `call` and report writes to what existed before it"""
    mark = next_serial()
    args = reach(roots)
    before = [freeze_args(r) for r in roots]
    HEAP.log = []
    ev = len(S.I.p.events)
    try:
        out = call()
        log = HEAP.log
    finally:
        HEAP.log = None
    S.count("calls")
    if [freeze_args(r) for r in roots] != before:
        loc = next((l for o, x, l in log if id(o) in args), None)
        S.violate("argument-changed", f"{what} changes the caller's arguments", _L(loc))
    for e in S.I.p.events[ev:]:
        if e[0] == "ambient-write":
            S.violate("ambient-write", f"{what}: {e[1]}", _L(e[2]))
    for o, x, loc in log:
        if o.serial > mark or isinstance(o, ACache) or loc and str(loc[0]).startswith("<"):
            continue
        if id(o) in args and isinstance(o, (AList, ADict, ABytearray, AObj)):
            S.violate("argument-written", f"{what} writes ({x}) to an object of the caller", _L(loc))
        if is_coder(S, o):
            S.violate("coder-written", f"{what} writes attribute {x} of the shared {o!r}", _L(loc))
        if isinstance(o, (AModule, AClass, AFunc)):
            S.violate("global-written", f"{what} writes {x} of {o!r}", _L(loc))
        if isinstance(o, Env) and o.kind == "module":
            S.violate("global-written", f"{what} rebinds the global {x}", _L(loc))
        if isinstance(o, Env):
            S.violate("global-written", f"{what} rebinds {x} of an enclosing function that outlives the call", _L(loc))
        if isinstance(o, (AList, ABytearray)):
            S.violate("global-written", f"{what} writes ({x}) to a shared {type(o).__name__[1:].lower()}", _L(loc))
        if isinstance(o, AObj):
            S.violate("global-written", f"{what} writes attribute {x} of the shared {o!r}", _L(loc))
    return out


class _L:
    def __init__(self, loc):
        self.loc = loc


def next_serial():
    return AList([]).serial


def effects(kind, ts, count=2, case=None, warm=True, mut="list", strict=True):
    """a call with abstract values writes to nothing that existed before it, once the lookups are memoised"""
    def fn(S):
        S.symmax = 2
        if warm:
            S.symmax = 0
            v0 = AList([values.compound(t, S, f"w{i}", 1, as_list=True)[0] for i, t in enumerate(ts)])
            out = api(S, "encode" if kind == "decode" else kind, ts, v0, strict)
            if kind == "decode" and out.ok:
                api(S, kind, ts, out.val, strict)
            S.symmax = 2
        if kind == "decode":
            L = S.sym("len", 0, MAXLEN)
            d = S.raw("data", L)
            S.inp("data", d)
            arg = ABytearray(d) if mut == "bytearray" else d
            out = watch(S, f"decode({tlist(ts)})", [arg], lambda: api(S, kind, ts, arg, strict))
            return
        if case is not None:
            v, m = case.build(S)
            vs = [v]
        else:
            vs = [values.compound(t, S, f"v{i}", count, as_list=True)[0] for i, t in enumerate(ts)]
        if mut == "contents":
            vs = [mutable(x) for x in vs]
        for i, x in enumerate(vs):
            S.inp(f"v{i}", x)
        arg = AList(vs)
        watch(S, f"{kind}({tlist(ts)})", [arg], lambda: api(S, kind, ts, arg))
    return fn


def mutable(v):
    """the same value with lists and bytearrays wherever it may have them"""
    if isinstance(v, AList):
        return AList([mutable(x) for x in v.items])
    if isinstance(v, tuple):
        return AList([mutable(x) for x in v])
    if isinstance(v, (bytes, SBytes)):
        return ABytearray(v)
    return v


def build(x):
    return AList([build(y) for y in x]) if isinstance(x, list) else ABytearray(x) if isinstance(x, bytes) else x


def changed_between(kind, T, a, b):
    """the caller changes a mutable value in place: the next call sees the new contents"""
    def fn(S):
        ref = describe(api(S, kind, [T], AList([build(b)])))
        v = build(a)
        api(S, kind, [T], AList([v]))
        if isinstance(v, AList):
            v.touch("caller")
            if S.I.choose(2, "in place") and len(a) == len(b):
                for i, (x, y) in enumerate(zip(v.items, b)):
                    if isinstance(x, AList):
                        x.touch("caller")
                        x.items[:] = build(y).items
                    else:
                        v.items[i] = build(y)
            else:
                v.items[:] = build(b).items
        else:
            v.touch("caller")
            v.val = b
        got = describe(api(S, kind, [T], AList([v])))
        S.count("calls")
        if got != ref:
            S.violate("history", f"{kind}({T}) with a value changed from {a!r} to {b!r} between two calls {got}, a fresh value {ref}")
    return fn


def changed_data(S):
    """decoding a bytearray again after it was changed"""
    cases = [("uint8", w(1), w(2)), ("bytes", w(32) + GOOD, w(32) + w(1) + b"b" + bytes(31)), ("uint8[]", w(32) + w(1) + w(5), w(32) + w(1) + w(6)), ("uint8", w(1), w(256)), ("string", w(32) + GOOD, w(32) + w(0))]
    T, a, b = cases[S.I.choose(len(cases), "data")]
    d = ABytearray(a)
    api(S, "decode", [T], d)
    d.touch("caller")
    d.val = b
    got, ref = describe(api(S, "decode", [T], d)), describe(api(S, "decode", [T], ABytearray(b)))
    S.count("calls")
    if got != ref:
        S.violate("history", f"decode([{T!r}]) of a bytearray changed between two calls {got}, of a fresh one {ref}")


def types_arg(kind):
    """the caller's list of types is not changed"""
    def fn(S):
        tl = AList(["uint8", "bytes", "int", "(uint8,byte)[]"])
        vals = AList([1, b"a", -1, AList([AList([1, b"b"])])])
        if kind == "decode":
            data = w(1) + w(128) + w(1) + w(192) + w(1) + b"a" + bytes(31) + w(1) + w(1) + b"b" + bytes(31)
            f = S.api("eth_abi.abi", "decode")
            out = watch(S, "decode", [tl], lambda: S.call(f, tl, data))
        else:
            f = S.api("eth_abi.abi", "encode") if kind == "encode" else S.api("eth_abi.packed", "encode_packed")
            if kind == "packed":
                tl.items.pop()
                vals.items.pop()
            out = watch(S, kind, [tl, vals], lambda: S.call(f, tl, vals))
        if not out.ok:
            S.violate("raises", f"{kind} raises {out.cls}", out)
    return fn


def independent(calls, what):
    """the outcome of each call is the same as when it is the first one (calls: list of (kind, types, builder of a concrete argument))"""
    def direct(A):
        fresh = {}
        res = {"paths": 0, "infeasible": 0, "cut": 0, "undecided": [], "violations": [], "notes": {}, "complete": True}
        for i, (k, ts, mk) in enumerate(calls):
            def one(S, i=i, k=k, ts=ts, mk=mk):
                fresh[i] = describe(api(S, k, ts, mk(S)))
            merge(res, A.explore(one, 50, 5))
        if res["undecided"]:
            return res

        def hist(S):
            h = []
            S.inp("history", h)
            for d in range(2):
                i = S.I.choose(len(calls), "call")
                k, ts, mk = calls[i]
                arg = mk(S)
                got = describe(api(S, k, ts, arg))
                h.append(f"{k}({', '.join(t if isinstance(t, str) else tstr(t) for t in ts)}, {short(arg)})")
                S.count("calls")
                if got != fresh[i]:
                    S.violate("history", f"{', then '.join(h)}: the last call {got}, as a first call it {fresh[i]}")
        merge(res, A.explore(hist, 20000, 60))
        return res
    return direct


def reentrant(kind):
    """a custom coder that itself encodes or decodes the enclosing type in the middle of a call"""
    def fn(S):
        cod = S.h("reentcodec")
        inner_t = "(uint8,bytes,uint8)"
        if kind == "encode":
            v = (1, b"abc", 2)
            out = S.method(cod, "encode", AList(["reent", "(uint8,reent,bytes,uint8[])"]), AList([5, AList([3, 6, b"xyz", AList([9, 8])])]))
            ref = S.method(cod, "encode", AList(["opsz", "(uint8,opsz,bytes,uint8[])"]), AList([w(5), AList([3, w(6), b"xyz", AList([9, 8])])]))
        elif kind == "packed":
            out = S.method(cod, "encode", AList(["(uint8[2],reent)[]"]), AList([AList([AList([AList([1, 2]), 4]), AList([AList([3, 4]), 6])])]))
            ref = S.method(cod, "encode", AList(["(uint8[2],opsz)[]"]), AList([AList([AList([AList([1, 2]), w(4)]), AList([AList([3, 4]), w(6)])])]))
        else:
            data = w(32) + w(2) + w(64) + w(64 + 160) + 2 * (w(1) + w(7) + w(96) + w(1) + b"z" + bytes(31))
            out = S.method(cod, "decode", AList(["(uint8,reent,bytes)[]"]), data)
            ref = S.method(cod, "decode", AList(["(uint8,uint256,bytes)[]"]), data)
        S.count("calls")
        if describe(out) != describe(ref):
            S.violate("re-entrancy", f"{kind} with a coder that calls the library itself {short(out)}, without {short(ref)}", None if out.ok else out)
    return fn


def registered_objects(strict, t, elem):
    """ready-made coder objects keep their settings whatever is called"""
    def fn(S):
        reg = S.h("strictreg")
        cod = H(S, "codec_of", reg)
        objs = [o for o in reach([reg]).values() if isinstance(o, AObj) and any(c.name == "BaseCoder" for c in o.cls.mro)]
        if not objs:
            raise Imprecise("the registered coder objects are not found in the registry")
        before = [dict(o.attrs) for o in objs]
        bad, good = wires(elem)
        for data in (bad[t], good[t]):
            S.method(cod, "decode", AList([t]), data, strict=strict)
            S.method(reg, "get_decoder", t, strict=strict)
            S.count("calls", 2)
        for o, b in zip(objs, before):
            for k, v in b.items():
                if o.attrs.get(k) is not v and o.attrs.get(k) != v:
                    S.violate("coder-written", f"decode([{t!r}], strict={strict}) changes {k} of the registered {o!r} from {v!r} to {o.attrs.get(k)!r}")
            for k in ("strict", "is_dynamic"):
                if k not in b and k in o.attrs and o.attrs[k] is not o.cls.find(k):
                    S.violate("coder-written", f"decode([{t!r}], strict={strict}) sets {k} of the registered {o!r} to {o.attrs[k]!r}")
    return fn


# calls that fail, or that have unusual arguments: types and values as the caller's own lists
FAILING = [(["uint8", "bool"], [1]), (["uint8"], [1, True]), ([], [1]), (["uint8", "bool"], []), (["uint8", "bool"], [1, True, 2]), (["uint8", "foo"], [1, 2]), (["uint7"], [1]), (["uint8["], [1]), (["uint8", "bool"], [256, True]),
           (["uint8", "bool"], [1, 1]), (["uint8[2]", "bytes"], [[1], b"a"]), (["uint8[2]", "bytes"], [[1, 2, 3], b"a"]), (["uint8[]", "bytes"], [[1, 300, 2], b"a"]), (["(uint8,bool)"], [[1]]), (["(uint8,bool)[]"], [[[1, True], [2]]]),
           (["bytes[]"], [[b"a", None, b"b"]]), (["string[]", "uint8"], [["a", 5], 1]), (["uint8", "uint8"], [1, 2]), (["bytes", "bytes"], [b"a", b"a"]), (["uint8[][]"], [[[], [1], []]]), (["fixed8x1[]"], [[1, 2]]), ([], [])]


def failing(kind, i):
    """the caller's own lists are not changed by calls that fail either"""
    ts, vs = FAILING[i]

    def fn(S):
        mod, name = ("eth_abi.abi", "encode") if kind == "encode" else ("eth_abi.packed", "encode_packed")
        f = S.api(mod, name)
        tl, vl = AList(list(ts)), build([x for x in vs])
        S.call(f, AList(list(ts)), build([x for x in vs]))
        watch(S, f"{name}({ts!r}, {vs!r})", [tl, vl], lambda: S.call(f, tl, vl))
        if len(ts) == 1 and len(vs) == 1:
            f = S.api(mod, "is_encodable" if kind == "encode" else "is_encodable_packed")
            v = build(vs[0])
            S.call(f, ts[0], v)
            watch(S, f"is_encodable({ts[0]!r}, {vs[0]!r})", [v], lambda: S.call(f, ts[0], v))
    return fn


FAILING_DATA = [(["uint8", "bool"], w(1)), (["uint8"], w(256)), (["bytes"], w(32) + w(5) + b"abc"), (["bytes"], w(32) + w(1) + b"ab" + bytes(30)), (["uint8[]"], w(32) + w(3) + w(1)), (["uint8[]", "bytes"], w(64) + w(500) + w(0)),
                (["foo"], w(1)), (["uint7", "bool"], w(1)), (["string"], w(32) + w(1) + b"\xff" + bytes(31)), (["(uint8,bytes)[]"], w(32) + w(2) + w(64) + w(7)), ([], b""), ([], w(1)), (["uint8", "uint8"], w(1) + w(2) + w(3))]


def failing_decode(i, strict):
    ts, data = FAILING_DATA[i]

    def fn(S):
        f = S.api("eth_abi.abi", "decode")
        tl, d = AList(list(ts)), ABytearray(data)
        S.call(f, AList(list(ts)), ABytearray(data), strict=strict)
        watch(S, f"decode({ts!r}, {data!r}, strict={strict})", [tl, d], lambda: S.call(f, tl, d, strict=strict))
    return fn
