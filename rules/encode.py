"""Encoding judged against the specification, for abstract values."""
from absint.core import SBytes
from absint.lin import Imprecise, Lin
from absint.objects import AList

from . import containers, values
from .spec import *


def api_encode(S, ts, vs, packed_=False, codec=None):
    f = S.api("eth_abi.packed", "encode_packed") if packed_ else S.api("eth_abi.abi", "encode")
    if codec is not None:
        return S.method(codec, "encode" if not packed_ else "encode_packed", AList([tstr(t) for t in ts]), AList(vs))
    return S.call(f, AList([tstr(t) for t in ts]), AList(vs))


def api_encodable(S, T, v, packed_=False, codec=None):
    f = S.api("eth_abi.packed", "is_encodable_packed") if packed_ else S.api("eth_abi.abi", "is_encodable")
    if codec is not None:
        return S.method(codec, "is_encodable", tstr(T), v)
    return S.call(f, tstr(T), v)


def short(v):
    try:
        r = repr(v)
    except ValueError:
        return "<huge number>"
    return r if len(r) < 200 else r[:200] + "..."


def judge(S, ts, vs, ms, legal, out, packed_=False, layout=True):
    """-> None or (kind, message)"""
    fn = "encode_packed" if packed_ else "encode"
    where = f"{fn}({tlist(ts)}, [{', '.join(map(short, vs))}])"
    if legal is None:
        return None
    if not legal:
        if out.ok:
            return ("accepted-illegal", f"{where} accepts a value that is not legal and returns {short(out.val)}")
        if not out.isa("EncodingError"):
            return ("wrong-exception", f"{where} raises {out.cls}, not an encoding error")
        return None
    if not out.ok:
        return ("rejected-legal", f"{where} raises {out.cls} for a legal value")
    if not layout:
        return None
    want = as_bytes(S, packed_seq(S, ts, ms) if packed_ else enc_seq(S, list(ts), ms))
    got = out.val
    if not isinstance(got, (bytes, SBytes)):
        return ("layout", f"{where} returned {short(got)}, not bytes")
    if not S.I.eq_bytes(got, want):
        return ("layout", f"{where} returned {short(got)}, specified {short(want)}")
    return None


def packed_seq(S, ts, ms):
    out = []
    for t, m in zip(ts, ms):
        out += packed(S, t, m)
    return out


def scalar(T, case, kinds, packed_=False):
    def fn(S):
        v, m = case.build(S)
        S.inp("value", v)
        out = api_encode(S, [T], [v], packed_)
        S.count("judged")
        r = judge(S, [T], [v], [m], case.legal, out, packed_)
        if r and kinds(r[0]):
            S.violate(r[0], r[1], out if not out.ok else None)
    return fn


# ------------------------------------------------------------------------------------ containers
def container(ts, kinds, count=2, packed_=False, opaque=False, wrap=None, sym=4, same=None):
    """legal values of the argument types ts (same: all concrete leaves of a type are equal)"""
    def fn(S):
        S.symmax, S.same = sym, same
        vs, ms = [], []
        for i, t in enumerate(ts):
            v, m = values.compound(t, S, f"v{i}", count, as_list=bool(i % 2))
            if wrap:
                v = wrap(S, t, v)
            vs.append(v)
            ms.append(m)
            S.inp(f"v{i}", v)
        out = api_encode(S, ts, vs, packed_, codec=S.h("opcodec") if opaque else None)
        S.count("judged")
        r = judge(S, ts, vs, ms, True, out, packed_, layout=kinds("layout"))
        if r and kinds(r[0]):
            S.violate(r[0], r[1], out if not out.ok else None)
    return fn


def flawed(ts, path, build, label, kinds, count=2, packed_=False, sym=2):
    """a value list with one flaw at `path` (first index selects the argument)"""
    T = TUP(*ts)

    def fn(S):
        S.symmax = sym
        v, m = values.compound(T, S, "v", count)
        bad = containers.put(v, path, build(S, containers.get(v, path)))
        vs = list(bad.items if isinstance(bad, AList) else bad)
        S.inp("values", bad)
        out = api_encode(S, ts, vs, packed_)
        S.count("judged")
        r = judge(S, ts, vs, None, False, out, packed_)
        if r and kinds(r[0]):
            S.violate(r[0], f"{r[1]} (flaw: {label} at {path})", out if not out.ok else None)
    return fn


def arity(ts, n, kinds, packed_=False):
    """n values for len(ts) types"""
    def fn(S):
        vs = []
        for i in range(n):
            vs.append(values.compound(ts[i] if i < len(ts) else ts[-1] if ts else U(8), S, f"v{i}", 1)[0])
        S.inp("values", AList(vs))
        out = api_encode(S, ts, vs, packed_)
        S.count("judged")
        r = judge(S, ts, vs, None, False, out, packed_)
        if r and kinds(r[0]):
            S.violate(r[0], r[1], out if not out.ok else None)
    return fn


def direct_flaw(T, path, build, label, kinds, count=2):
    """the encoder looked up for T, called directly with a value that has one flaw"""
    def fn(S):
        S.symmax = 1
        v, m = values.compound(T, S, "v", count)
        bad = containers.put(v, path, build(S, containers.get(v, path)))
        S.inp("value", bad)
        e = S.method(S.api("eth_abi.registry", "registry"), "get_encoder", tstr(T))
        if not e.ok:
            return
        out = S.call(e.val, bad)
        S.count("judged")
        where = f"get_encoder({tstr(T)!r})({short(bad)}) (flaw: {label} at {path})"
        if out.ok and kinds("accepted-illegal"):
            S.violate("accepted-illegal", f"{where} returns {short(out.val)}")
        if not out.ok and not out.isa("EncodingError") and kinds("wrong-exception"):
            S.violate("wrong-exception", f"{where} raises {out.cls}, not an encoding error", out)
    return fn
