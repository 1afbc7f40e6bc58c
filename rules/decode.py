"""Decoding judged against the specification, for data of unknown content and length."""
from absint.core import SBytes
from absint.lin import Imprecise, Lin
from absint.objects import ABytearray, AList

from .spec import *

KIND_CLASS = {"insufficient": ("InsufficientDataBytes",), "pointer": ("InvalidPointer",),
              "padding": ("NonEmptyPaddingBytes",), "bool": ("NonEmptyPaddingBytes", "DecodingError"), "strpad": ("NonEmptyPaddingBytes",),
              "utf8": ("UnicodeDecodeError",)}


def call_decode(S, ts, data, strict, default=False, opaque=False):
    dec = S.api("eth_abi.abi", "decode") if not opaque else S.I.getattr(S.h("opcodec"), "decode")
    tl = AList([tstr(t) for t in ts])
    if default:
        return S.call(dec, tl, data)
    return S.call(dec, tl, data, strict=strict)


def sym_data(S, name="data", kind="bytes"):
    L = S.sym("len", 0, MAXLEN)
    d = S.raw(name, L)
    S.inp(name, d)
    if kind == "bytearray":
        d = ABytearray(d)
    return d, L


def judge(S, ts, out, src, L, strict, cap=4, nested_known=None):
    """-> None or (kind, message) of a disagreement between the outcome and the specification"""
    where = f"decode({tlist(ts)}, data, strict={strict})"
    if out.ok:
        D = Decoder(S, src, L, strict, cap=cap)
        try:
            ms = D.seq(list(ts), 0)
        except Bad as e:
            return (f"accepts-{e.kind}", f"{where} returned {short(out.val)} although the data are invalid ({e.kind} at a {tstr(e.T)})", e.T)
        if not isinstance(out.val, tuple):
            return ("value", f"{where} returned {short(out.val)}, not a tuple", None)
        if len(out.val) != len(ts):
            return ("value", f"{where} returned {len(out.val)} values for {len(ts)} types", None)
        for t, m, v in zip(ts, ms, out.val):
            r = same(S, t, m, v)
            if r:
                return ("value", f"{where}: {r}", t)
        return None
    cls = out.cls
    is_dec = out.isa("DecodingError")
    # fast path: the partition already determines a problem that explains the error
    D = Decoder(S, src, L, strict, fork=False, cap=cap)
    try:
        D.seq(list(ts), 0)
    except (Bad, Skip):
        pass
    for e in D.problems:
        if any(out.isa(c) for c in KIND_CLASS[e.kind]):
            return None
    if not strict and is_dec:
        D = Decoder(S, src, L, strict, fork=False, cap=cap, nested_strict=True)
        try:
            D.seq(list(ts), 0)
        except (Bad, Skip):
            pass
        for e in D.problems:
            if any(out.isa(c) for c in KIND_CLASS[e.kind]):
                return ("nested-strict", f"{where} raises {cls} for the padding of a nested {tstr(e.T)}", e.T)
    if not is_dec and cls != "UnicodeDecodeError":
        return ("exception", f"{where} raises {cls}", None)
    D = Decoder(S, src, L, strict, cap=cap, collect=True)
    try:
        D.seq(list(ts), 0)
    except Bad as e:
        kinds = {p.kind for p in D.problems} | {e.kind}
        if kinds == {"pointer"} and not out.isa("InvalidPointer"):
            return ("pointer-class", f"{where} raises {cls} instead of InvalidPointer for an invalid offset", None)
        if kinds <= {"pointer", "insufficient"} and not (out.isa("InvalidPointer") or out.isa("InsufficientDataBytes")):
            return ("insufficient-class", f"{where} raises {cls} on truncated data", None)
        if cls == "UnicodeDecodeError" and "utf8" not in kinds:
            return ("exception", f"{where} raises {cls} where no text is malformed", None)
        return None
    return ("rejects-InvalidPointer" if out.isa("InvalidPointer") else "rejects", f"{where} raises {cls} on valid data", None)


def short(v):
    r = repr(v)
    return r if len(r) < 160 else r[:160] + "..."


def scenario(ts, strict=True, default=False, kind="bytes", cap=3, kinds=None, opaque=False, count=None, tame=False):
    """kinds: predicate(kind, T) saying which disagreements are violations of the property at hand.
    count: the outermost dynamic array is given this many elements.  tame: the offsets of the outermost
    container follow the canonical spacing except for one unknown one, and the data are long enough up
    to one unknown position (keeps long containers tractable)."""
    def fn(S):
        S.I.loop_cap = cap
        d, L = sym_data(S, kind=kind)
        if count is not None:
            at_ = S.I.word("data", Lin({}, 0), 32)
            S.assume(S.eq(at_, 32))
            S.assume(S.eq(S.I.word("data", Lin({}, 32), 32), count))
        if tame:
            settle(S, ts, L, count)
        out = call_decode(S, ts, d, strict, default, opaque)
        r = judge(S, ts, out, "data", L, strict, cap=cap + 2)
        S.count("judged")
        S.count("returns" if out.ok else "raises")
        if r and kinds(r[0], r[2]):
            S.inp("outcome", repr(out)[:200])
            S.violate(r[0], r[1], out if not out.ok else None)
    return fn


def settle(S, ts, L, count):
    """fix the offsets of a long container, all but the last one"""
    T = ts[0]
    base = 0
    if dyn(T):
        S.assume(S.eq(S.I.word("data", Lin({}, 0), 32), 32))
        base = 32
    if T[0] == "arr" and T[2] is None:
        base += 32
    els = list(T[1]) if T[0] == "tuple" else [T[1]] * (T[2] if T[2] is not None else count)
    heads = sum(map(hsize, els))
    ndyn = sum(map(dyn, els))
    if ndyn:
        S.assume(S.ge(L, base + heads + 32 * (ndyn - 1) + 1))
    k, pos = 0, base
    for t in els:
        if dyn(t):
            if k < ndyn - 1:
                S.assume(S.eq(S.I.word("data", Lin({}, pos), 32), heads + 32 * k))
            k += 1
        pos += hsize(t)
    if not ndyn:
        S.assume(S.ge(L, base + heads - 32))


def canonical(ts, count, kinds, sym=1, strict=True):
    """the specified encoding of a legal value is decoded to that value (long and deep containers)"""
    def fn(S):
        from . import values
        S.symmax = sym
        ms = []
        for i, t in enumerate(ts):
            ms.append(values.compound(t, S, f"v{i}", count, as_list=bool(i % 2))[1])
        data = as_bytes(S, enc_seq(S, list(ts), ms))
        S.inp("data", short(data))
        out = call_decode(S, ts, data, strict)
        S.count("judged")
        where = f"decode({tlist(ts)[:80]}, <canonical encoding of {count} elements>)"
        if not out.ok:
            k = "rejects-InvalidPointer" if out.isa("InvalidPointer") else "rejects"
            if kinds(k, None):
                S.violate(k, f"{where} raises {out.cls}", out)
            return
        if not isinstance(out.val, tuple) or len(out.val) != len(ts):
            if kinds("value", None):
                S.violate("value", f"{where} returned {short(out.val)}")
            return
        for t, m, v in zip(ts, ms, out.val):
            r = same(S, t, m, v)
            if r and kinds("value", t):
                S.violate("value", f"{where}: {r[:300]}")
    return fn


def concrete(ts, ms, strict=True, kind="bytes", bad=False, kinds=lambda k, T: True):
    """the specified encoding of given values is decoded to exactly these values (bad: no text may come out of it)"""
    def fn(S):
        data = as_bytes(S, enc_seq(S, [BYTES] if bad else list(ts), ms))
        S.inp("data", short(data))
        out = call_decode(S, ts, ABytearray(data) if kind == "bytearray" else data, strict)
        S.count("judged")
        where = f"decode({tlist(ts)}, <encoding of {short(ms)}>, strict={strict})"
        if bad:
            if out.ok:
                if kinds("accepts-utf8", None):
                    S.violate("accepts-utf8", f"{where} returned {short(out.val)}")
            elif not (out.cls == "UnicodeDecodeError" or out.isa("DecodingError")) and kinds("exception", None):
                S.violate("exception", f"{where} raises {out.cls}", out)
            return
        if not out.ok:
            if kinds("rejects", None):
                S.violate("rejects", f"{where} raises {out.cls}", out)
            return
        for t, m, v in zip(ts, ms, out.val if isinstance(out.val, tuple) and len(out.val) == len(ts) else ()):
            r = same(S, t, m, v)
            if r and kinds("value", t):
                S.violate("value", f"{where}: {r[:300]}")
        if not (isinstance(out.val, tuple) and len(out.val) == len(ts)) and kinds("value", None):
            S.violate("value", f"{where} returned {short(out.val)}")
    return fn


MARK = "M4rK!"


def padded(ts, count, path, strict, kinds):
    """the canonical encoding of a value in which one padding byte of the string at `path` is not zero"""
    def fn(S):
        from . import containers, values
        S.symmax = 0
        W = TUP(*ts)
        T = containers.at(W, path)
        v, m = values.compound(W, S, "v", count)
        mk = MARK if T[0] == "string" else MARK.encode()

        def put(x, p):
            return mk if not p else [put(y, p[1:]) if i == p[0] else y for i, y in enumerate(x)]
        m = put(m, path)
        data = as_bytes(S, enc_seq(S, list(ts), m))
        if not isinstance(data, bytes):
            raise Imprecise("marker not found")
        i = data.index(MARK.encode())
        k = S.I.choose(3, "which padding byte")
        j = (i + 5, i + 31, i + 16)[k]
        data = data[:j] + (b"\x01" if k else b"\x80") + data[j + 1:]
        S.inp("data", short(data))
        out = call_decode(S, ts, data, strict)
        S.count("judged")
        where = f"decode({tlist(ts)[:80]}, <padding of the {T[0]} at {path} not zero>, strict={strict})"
        if strict:
            if out.ok and kinds("accepts-strpad", T):
                S.violate("accepts-strpad", f"{where} returns a value")
            if not out.ok and not out.isa("NonEmptyPaddingBytes") and kinds("exception", T):
                S.violate("exception", f"{where} raises {out.cls}", out)
            return
        if not out.ok:
            if kinds("rejects", None):
                S.violate("rejects", f"{where} raises {out.cls}", out)
            return
        r = same_seq(S, ts, m, out.val)
        if r and kinds("value", T):
            S.violate("value", f"{where}: {r[:300]}")
    return fn
