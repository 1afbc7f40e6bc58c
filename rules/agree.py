"""Agreement between parts of the library: encode/decode, encode/is_encodable, argument checks, decimal contexts."""
from absint.core import SBytes, SObj
from absint.lin import Imprecise, Lin
from absint.objects import ABytearray, ADict, AIter, AList, ARange, ASet

from . import containers, decode, encode, values
from .encode import api_encodable, api_encode, short
from .spec import *


def api_decode(S, ts, data, strict=True):
    return S.call(S.api("eth_abi.abi", "decode"), AList([tstr(t) for t in ts]), data)


# ------------------------------------------------------------------------------------ C12
def check_roundtrip(S, ts, vs, ms):
    out = api_encode(S, ts, vs)
    S.count("judged")
    if not out.ok:
        S.count("not encodable")
        return
    back = api_decode(S, ts, out.val)
    where = f"decode(encode({tlist(ts)}, [{', '.join(map(short, vs))}]))"
    if not back.ok:
        S.violate("roundtrip-raises", f"{where} raises {back.cls}", back)
    if any(m is None for m in ms):
        S.violate("roundtrip-differs", f"{where} returns {short(back.val)} for a value that has no representation in the type")
    r = same_seq(S, ts, ms, back.val)
    if r:
        S.violate("roundtrip-differs", f"{where}: {r}")


def roundtrip(T, c):
    def fn(S):
        v, m = c.build(S)
        S.inp("value", v)
        check_roundtrip(S, [T], [v], [m])
    return fn


def roundtrip_list(ts, count, sym=4):
    def fn(S):
        S.symmax = sym
        vs, ms = [], []
        for i, t in enumerate(ts):
            v, m = values.compound(t, S, f"v{i}", count, as_list=bool(i % 2))
            vs.append(v)
            ms.append(m)
            S.inp(f"v{i}", v)
        check_roundtrip(S, ts, vs, ms)
    return fn


# ------------------------------------------------------------------------------------ C13
def compare(S, tname, v, chk, enc, pk):
    fn = "is_encodable_packed" if pk else "is_encodable"
    where = f"{fn}({tname!r}, {short(v)})"
    S.count("judged")
    if not chk.ok:
        S.violate("raises", f"{where} raises {chk.cls} (encoding: {short(enc)})", chk)
    if not isinstance(chk.val, bool):
        S.violate("not-bool", f"{where} returns {short(chk.val)}")
    if chk.val and not enc.ok:
        S.violate("says-yes", f"{where} is True but encoding raises {enc.cls}", enc)
    if not chk.val and enc.ok:
        S.violate("says-no", f"{where} is False but encoding succeeds", None)
    if not enc.ok and not chk.val and not (enc.isa("EncodingError")):
        S.violate("wrong-exception", f"encoding {short(v)} as {tname} raises {enc.cls}, not an encoding error", enc)


def run_both(S, T, v, pk, codec=None):
    S.inp("value", v)
    chk = api_encodable(S, T, v, pk, codec)
    enc_ = api_encode(S, [T], [v], pk, codec)
    compare(S, tstr(T), v, chk, enc_, pk)


def encodable(T, c, pk):
    return lambda S: run_both(S, T, c.build(S)[0], pk)


def encodable_flaw(T, path, build, pk, count=2, sym=1):
    def fn(S):
        S.symmax = sym
        v, m = values.compound(T, S, "v", count)
        run_both(S, T, containers.put(v, path, build(S, containers.get(v, path))), pk)
    return fn


def encodable_legal(T, count, pk, wrap=None, sym=2):
    def fn(S):
        S.symmax = sym
        v, m = values.compound(T, S, "v", count)
        run_both(S, T, wrap(S, T, v) if wrap else v, pk)
    return fn


BAD_TYPES = ["foo", "", "uint7", "uint0", "uint264", "uint8[", "(uint8", "()", "bytes33", "bytes0", "ufixed8x81", "fixed256x0", "foo[]", "(foo,uint8)", "uint7[2]",
             "bool8", "address20", "string1", "uint8 ", " uint8", "uint8,uint8", "uint8[0]", "uint08", "Uint8", "((uint7))", "fixed128", "uint8x8"]


def encodable_bad_type(t, pk):
    def fn(S):
        f = S.api("eth_abi.packed", "is_encodable_packed") if pk else S.api("eth_abi.abi", "is_encodable")
        e = S.api("eth_abi.packed", "encode_packed") if pk else S.api("eth_abi.abi", "encode")
        for v in (1, b"a", AList([1]), (1, 2)):
            chk = S.call(f, t, v)
            enc_ = S.call(e, AList([t]), AList([v]))
            S.count("judged")
            if not chk.ok:
                S.violate("raises", f"is_encodable({t!r}, {short(v)}) raises {chk.cls}", chk)
            if chk.val is not False:
                S.violate("says-yes", f"is_encodable({t!r}, {short(v)}) is {chk.val!r} for a type without encoder")
            if enc_.ok:
                S.violate("says-no", f"encode([{t!r}], ..) succeeds for a type without encoder")
    return fn


CUSTOM = [(OP("opd"), "op"), (ARR(OP("opd")), "op"), (TUP(OP("ops", 32), U(8)), "op")]
for _k in ("cfun", "cobj", "ccls", "cduck"):
    CUSTOM += [(OP(_k, 32), "leaf"), (ARR(OP(_k, 32)), "arr"), (ARR(OP(_k, 32), 2), "arr"), (TUP(OP(_k, 32)), "tup"), (TUP(U(8), OP(_k, 32)), "tup2"), (ARR(TUP(OP(_k, 32))), "arrtup"), (ARR(ARR(OP(_k, 32))), "arrarr")]


def encodable_custom(T, how):
    def fn(S):
        good = S.I.choose(2, "value accepted by the custom coder") == 0
        bad_ix = S.I.choose(2, "which element") if not good else None
        cnt = [0]

        def mk(t):
            if t[0] == "tuple":
                return tuple(mk(x) for x in t[1])
            if t[0] == "arr":
                return AList([mk(t[1]) for _ in range(t[2] or 2)])
            if t[0] == "uint":
                return 7
            cnt[0] += 1
            return b"\x00" * 32 if good or cnt[0] - 1 != bad_ix else "bad"
        v = mk(T)
        if how == "op" and not good:
            return
        run_both(S, T, v, False, S.h("opcodec"))
    return fn


# ------------------------------------------------------------------------------------ C26
def decimal_events(S, what, ok=True):
    for e in S.I.p.events:
        if e[0] == "ambient-decimal":
            S.violate("ambient", f"{what}: {e[1]} is computed in the caller's decimal context", _L(e[2]))
        if e[0] == "ambient-write":
            S.violate("ambient-write", f"{what}: {e[1]}", _L(e[2]))
        if e[0] == "inexact-decimal" and ok:
            S.violate("inexact", f"{what}: {e[1]}", _L(e[2]))


class _L:
    def __init__(self, loc):
        self.loc = loc


def decimal_encode(T, c, pk=False):
    def fn(S):
        v, m = c.build(S)
        S.inp("value", v)
        out = api_encode(S, [T], [v], pk)
        chk = api_encodable(S, T, v, pk)
        S.count("judged", 2)
        decimal_events(S, f"encoding {short(v)} as {tstr(T)}", out.ok)
    return fn


def decimal_decode(T):
    def fn(S):
        d, L = decode.sym_data(S)
        out = decode.call_decode(S, [T], d, True)
        S.count("judged")
        decimal_events(S, f"decoding {tstr(T)}", out.ok)
    return fn


def decimal_import(S):
    ev = getattr(S.A, "import_events", [])
    S.count("judged")
    for e in ev:
        if e[0] == "ambient-write":
            S.violate("ambient-write", f"importing the package: {e[1]}", _L(e[2]))


# ------------------------------------------------------------------------------------ C27
ARG_KINDS = [("list", lambda S, xs: AList(list(xs))), ("tuple", lambda S, xs: tuple(xs)), ("None", lambda S, xs: None), ("text", lambda S, xs: "uint8"),
             ("text-empty", lambda S, xs: ""), ("bytes", lambda S, xs: b"\x01\x02"[:len(xs)]), ("int", lambda S, xs: len(xs)), ("dict", lambda S, xs: mkdict(S, xs)),
             ("set", lambda S, xs: mkset(S, xs)), ("iterator", lambda S, xs: AIter(iter(list(xs)))), ("Sequence", lambda S, xs: S.I.call(S.h("Seq"), [AList(list(xs))], {})),
             ("iterable", lambda S, xs: S.I.call(S.h("Iter"), [AList(list(xs))], {})), ("object", lambda S, xs: SObj("object")), ("range", lambda S, xs: ARange(0, len(xs), 1))]
DATA_KINDS = [("bytes", True, lambda S, b: b), ("bytearray", True, lambda S, b: ABytearray(b)), ("None", False, lambda S, b: None), ("text", False, lambda S, b: "00" * 32),
              ("text-empty", False, lambda S, b: ""), ("memoryview", False, lambda S, b: ABytearray(b, "memoryview")), ("list", False, lambda S, b: AList([0] * 64)),
              ("list-empty", False, lambda S, b: AList([])), ("tuple", False, lambda S, b: ()), ("int", False, lambda S, b: 64), ("object", False, lambda S, b: SObj("object")),
              ("iterator", False, lambda S, b: AIter(iter([0] * 64)))]
DATA_KINDS = [(l, (ok, f)) for l, ok, f in DATA_KINDS]


def mkdict(S, xs):
    d = ADict()
    for x in xs:
        S.I.dset(d, x, x)
    return d


def mkset(S, xs):
    d = ASet()
    for x in xs:
        S.I.dset(d, x, None)
    return d


def args(fname, bt, lt, ba, la, n):
    def fn(S):
        f = S.api("eth_abi.packed" if fname == "encode_packed" else "eth_abi.abi", fname)
        types, vals = ["uint8", "bool"][:n], [1, True][:n]
        out = S.call(f, bt(S, types), ba(S, vals))
        S.count("judged")
        legal = lt in ("list", "tuple") and la in ("list", "tuple")
        where = f"{fname}(<{lt} of {n} types>, <{la} of {n} values>)"
        if legal:
            if not out.ok:
                S.violate("rejected", f"{where} raises {out.cls}", out)
            want = b"".join((1).to_bytes(1 if fname == "encode_packed" else 32, "big") for _ in range(n))
            if not isinstance(out.val, (bytes, SBytes)) or not S.I.eq_bytes(out.val, want):
                S.violate("differs", f"{where} returns {short(out.val)}")
        else:
            if out.ok:
                S.violate("accepted", f"{where} returns {short(out.val)} instead of raising TypeError")
            if not out.isa("TypeError"):
                S.violate("wrong-exception", f"{where} raises {out.cls} instead of TypeError", out)
            if out.isa("EncodingError"):
                S.violate("wrong-exception", f"{where} raises {out.cls} of the encoders instead of the argument check's TypeError", out)
        # same with type strings that do not exist: the argument check comes first
        if not legal and n:
            out = S.call(f, bt(S, ["nosuchtype"] * n), ba(S, vals))
            if out.ok or not out.isa("TypeError"):
                S.violate("order", f"{fname}(<{lt} of unknown types>, <{la}>) {short(out)}: arguments are not checked first", out if not out.ok else None)
    return fn


def dargs(bt, lt, bd, ld, n, strict):
    legald, mk = bd

    def fn(S):
        f = S.api("eth_abi.abi", "decode")
        types = ["uint8", "bool"][:n]
        data = b"".join((1).to_bytes(32, "big") for _ in range(n))
        k = {} if strict is None else {"strict": strict}
        out = S.call(f, bt(S, types), mk(S, data), **k)
        S.count("judged")
        legal = lt in ("list", "tuple") and legald
        where = f"decode(<{lt} of {n} types>, <{ld}>)"
        if legal:
            if not out.ok:
                S.violate("rejected", f"{where} raises {out.cls}", out)
            if out.val != (1, True)[:n]:
                S.violate("differs", f"{where} returns {short(out.val)}")
        else:
            if out.ok:
                S.violate("accepted", f"{where} returns {short(out.val)} instead of raising TypeError")
            if not out.isa("TypeError"):
                S.violate("wrong-exception", f"{where} raises {out.cls} instead of TypeError", out)
            if n:
                out = S.call(f, bt(S, ["nosuchtype"] * n), mk(S, data), **k)
                if out.ok or not out.isa("TypeError"):
                    S.violate("order", f"decode(<{lt} of unknown types>, <{ld}>) {short(out)}: arguments are not checked first", out if not out.ok else None)
    return fn
