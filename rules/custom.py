"""Value strategies (C28) and custom coders (C29)."""
import decimal
import math
from fractions import Fraction

from absint.core import SBytes, SDec, SFloat, SInt, SStr, Tok
from absint.lin import Imprecise, Infeasible, Lin
from absint.objects import *

from . import decode, encode, values
from .effects import merge
from .encode import short
from .registry import H, must, same_bytes
from .spec import *


# ------------------------------------------------------------------------------------ C28: abstract draws
def arg(st, pos, name, default=None):
    a, k = st.attrs["$a"], st.attrs["$k"]
    if name in k:
        return k[name]
    return a[pos] if pos < len(a) else default


def number(x):
    if x is None or isinstance(x, (int, decimal.Decimal)):
        return x
    raise Imprecise(f"bound {short(x)} of a strategy")


def many(S):
    """only the first leaves of a long value are kept abstract; the others take the ends of their range"""
    S.ndraws = getattr(S, "ndraws", 0) + 1
    return S.ndraws > 4


def draw(S, st, name="v"):
    """an abstract element of the strategy (splits the partition over its alternatives)"""
    I = S.I
    if not isinstance(st, AObj) or "$kind" not in st.attrs:
        raise Imprecise(f"{short(st)} is no modelled strategy")
    k = st.attrs["$kind"]
    a = st.attrs["$a"]
    if k == "integers":
        lo, hi = number(arg(st, 0, "min_value")), number(arg(st, 1, "max_value"))
        if lo is not None and hi is not None and lo > hi:
            S.violate("empty", f"the strategy integers({lo}, {hi}) is empty")
        if many(S):
            return int((lo, hi)[S.ndraws % 2] or 0)
        return SInt(S.sym(name, None if lo is None else math.ceil(lo), None if hi is None else math.floor(hi)))
    if k == "booleans":
        return I.choose(2, name) == 1
    if k == "binary":
        lo, hi = number(arg(st, 0, "min_size", 0)), number(arg(st, 1, "max_size"))
        if hi is not None and lo > hi:
            S.violate("empty", f"the strategy binary({lo}, {hi}) is empty")
        if many(S):
            return bytes(lo if S.ndraws % 2 or hi is None else min(hi, 40))
        if hi == lo:
            return S.raw(name, lo)
        small = [n for n in (0, 1, 33) if n >= lo and (hi is None or n <= hi)]
        i = I.choose(len(small) + 1, name + ".size")
        if i < len(small):
            return S.raw(name, small[i])
        return S.raw(name, S.sym(name + ".len", lo, VALLEN if hi is None else hi))
    if k == "text":
        al = arg(st, 0, "alphabet")
        if al is not None:
            raise Imprecise("text with an alphabet")
        return values.text(S, name)
    if k == "decimals":
        lo, hi, places = number(arg(st, 0, "min_value")), number(arg(st, 1, "max_value")), arg(st, 4, "places")
        nan, inf = arg(st, 2, "allow_nan"), arg(st, 3, "allow_infinity")
        odd = []
        if nan or nan is None and lo is None and hi is None:
            odd.append(decimal.Decimal("NaN"))
        if inf or inf is None and (lo is None or hi is None):
            odd.append(decimal.Decimal("Infinity"))
        if odd:
            i = I.choose(len(odd) + 1, "special decimal")
            if i < len(odd):
                return odd[i]
        p = 90 if places is None else number(places)
        sc = lambda x, f: None if x is None else f(Fraction(x) * Fraction(10) ** p)
        return SDec(S.sym(name, sc(lo, math.ceil), sc(hi, math.floor)), -p)
    if k in ("just", "none"):
        return a[0] if a else None
    if k == "sampled_from":
        xs = a[0].items if isinstance(a[0], AList) else a[0]
        return xs[I.choose(len(xs), name)]
    if k == "one_of":
        xs = a[0].items if len(a) == 1 and isinstance(a[0], AList) else a
        return draw(S, xs[I.choose(len(xs), name)], name)
    if k == "map":
        v = draw(S, a[0], name)
        out = S.call(a[1], v)
        if not out.ok:
            S.violate("raises", f"drawing a value raises {out.cls} for {short(v)}", out)
        return out.val
    if k == "filter":
        v = draw(S, a[0], name)
        if not I.truth(I.call(a[1], [v], {})):
            raise Infeasible()
        return v
    if k == "flatmap":
        return draw(S, I.call(a[1], [draw(S, a[0], name)], {}), name + "'")
    if k == "builds":
        return I.call(a[0], [draw(S, x, f"{name}.{i}") for i, x in enumerate(a[1:])], {n: draw(S, x, f"{name}.{n}") for n, x in st.attrs["$k"].items()})
    if k == "tuples":
        return tuple(draw(S, x, f"{name}.{i}") for i, x in enumerate(a))
    if k == "lists":
        lo, hi = number(arg(st, 1, "min_size", 0)), number(arg(st, 2, "max_size"))
        lo = lo or 0
        top = lo + 2 if hi is None else min(hi, lo + 2)
        if hi is not None and lo > hi:
            S.violate("empty", f"the strategy lists(.., {lo}, {hi}) is empty")
        ns = list(range(lo, top + 1))
        if hi is not None and hi not in ns:
            ns.append(hi)
        n = ns[I.choose(len(ns), name + ".len")] if len(ns) > 1 else ns[0]
        return AList([draw(S, a[0] if a else st.attrs["$k"]["elements"], f"{name}.{i}") for i in range(n)])
    raise Imprecise(f"strategy {k} has no model")


def targets(T):
    """models of the type that the strategy has to reach"""
    k = T[0]
    if k in ("uint", "int", "ufixed", "fixed"):
        lo, hi = bounds(T)
        xs = {lo, hi, lo + 1, hi - 1, 0, 1, (lo + hi) // 2, hi // 3 * 2, lo // 3 * 2, -1, 10, 99}
        return [Lin({}, x) for x in sorted(xs) if lo <= x <= hi]
    if k == "bool":
        return [Lin({}, 0), Lin({}, 1)]
    if k == "bytes":
        return [b"", b"\x00", b"a" * 33]
    n = 20 if k == "address" else T[1]
    return [bytes(n), b"\xff" * n, bytes((7 * i + 1) % 256 for i in range(n)), bytes(n - 1) + b"\x01", b"\x80" + bytes(n - 1), b"A" * n]


def strategy_of(S, t):
    f = S.api("eth_abi.tools._strategies", "get_abi_strategy")
    out = S.call(f, t)
    if not out.ok:
        S.violate("no-strategy", f"get_abi_strategy({t!r}) raises {out.cls} for a valid type", out)
    return out.val


def strategy(T, name=None, full=True):
    t = name or tstr(T)

    def direct(A):
        hit, sizes = set(), set()
        tg = targets(T) if full else []

        def fn(S):
            st = strategy_of(S, t)
            v = draw(S, st)
            S.inp("value", v)
            S.count("draws")
            chk = S.call(S.api("eth_abi.abi", "is_encodable"), t, v)
            if not chk.ok or chk.val is not True:
                S.violate("not-encodable", f"the strategy of {t} generates {short(v)}, is_encodable {short(chk)}", None if chk.ok else chk)
            out = S.call(S.api("eth_abi.abi", "encode"), AList([t]), AList([v]))
            if not out.ok:
                S.violate("not-encodable", f"the strategy of {t} generates {short(v)}, whose encoding raises {out.cls}", out)
            if T[0] == "arr" and T[2] is None and isinstance(v, (AList, tuple)):
                sizes.add(len(v.items if isinstance(v, AList) else v))
            if tg:
                i = S.I.choose(len(tg), "target")
                if i not in hit and same_bytes(S, out.val, as_bytes(S, enc_seq(S, [T], [tg[i]]))):
                    hit.add(i)
        res = {"paths": 0, "infeasible": 0, "cut": 0, "undecided": [], "violations": [], "notes": {}, "complete": True}
        merge(res, A.explore(fn, 300, 8))
        if tg and not res["undecided"] and not res["violations"] and res["complete"]:
            def fn2(S):
                for i, x in enumerate(tg):
                    S.count("targets")
                    if i not in hit:
                        S.violate("range", f"the strategy of {t} never generates the value encoded as {short(x)}")
            merge(res, A.explore(fn2))
        if T[0] == "arr" and T[2] is None and not res["undecided"] and not res["violations"]:
            def fn3(S):
                for n in (0, 1, 2):
                    S.count("targets")
                    if n not in sizes:
                        S.violate("range", f"the strategy of {t} never generates an array of {n} elements")
            merge(res, A.explore(fn3))
        return res
    return direct


def strategy_invalid(ts):
    """no strategy for text that is no type, and never an encodable-looking one"""
    def fn(S):
        f = S.api("eth_abi.tools._strategies", "get_abi_strategy")
        for t in ts:
            out = S.call(f, t)
            S.count("types")
            if out.ok:
                S.violate("strategy-for-invalid", f"get_abi_strategy({t!r}) returns {short(out.val)}")
    return fn


# ------------------------------------------------------------------------------------ C29
KINDS = ("cfun", "cobj", "ccls")


def received(ctx, leaf, side, by):
    """a coder class gets the type string of the element as written and the registry of the lookup"""
    def fn(S):
        reg = must(S, S.method(S.api("eth_abi.registry", "registry"), "copy"))
        cls = H(S, "mkrec" if side == "encoder" else "mkdrec")
        look = leaf
        if by == "base":
            look = S.I.call(S.api("eth_abi.registry", "BaseEquals"), [leaf.rstrip("0123456789x")], {})
        must(S, S.method(reg, f"register_{side}", look, cls, label="lab"))
        t = ctx.replace("T", leaf)
        out = S.method(reg, f"get_{side}", t)
        S.count("lookups")
        if not out.ok:
            S.violate("rejected", f"get_{side}({t!r}) with a registered coder class raises {out.cls}", out)
        seen = S.I.getattr(cls, "seen")
        if not isinstance(seen, AList) or not seen.items:
            S.violate("not-used", f"get_{side}({t!r}) does not use the registered coder class")
        for ts_, r in seen.items:
            if ts_ != leaf or r is not reg:
                S.violate("received", f"get_{side}({t!r}) gives the coder class {ts_!r} and {'the' if r is reg else 'another'} registry")
    return fn


def settings(module, only_known=False):
    """unknown settings are refused by every coder class of the package and by user classes"""
    def fn(S):
        m = S.A.mods[module]
        base = S.api("eth_abi.base", "BaseCoder")
        n = 0
        for nm, c in sorted(m.ns.items()):
            if isinstance(c, AClass) and base in c.mro and not c.abstract:
                n += 1
                for k in ("no_such_setting", "is_dynamic_", "valuebitsize"):
                    out = S.call(c, **{k: 1})
                    S.count("constructions")
                    if out.ok:
                        S.violate("setting-accepted", f"{nm}({k}=1) is accepted")
                    if not (out.isa("AttributeError") or out.isa("TypeError")):
                        S.violate("setting-accepted", f"{nm}({k}=1) raises {out.cls} instead of AttributeError or TypeError", out)
        if not n:
            raise Imprecise(f"no coder classes in {module}")
    return fn


def user_settings(side):
    def fn(S):
        c = S.h("UserEncoder" if side == "encoder" else "UserDecoder")
        S.count("constructions")
        out = S.call(c, scale=3)
        if not out.ok:
            S.violate("setting-refused", f"a known setting is refused with {out.cls}", out)
        if S.I.getattr(out.val, "scale") != 3 or S.I.getattr(c, "scale") != 1:
            S.violate("setting-lost", "a known setting is not stored on the coder object (or is stored on its class)")
        o2 = S.call(c)
        if not o2.ok or S.I.getattr(o2.val, "scale") != 1:
            S.violate("setting-lost", f"the default of a setting {short(o2)}")
        for kw in ({"nosuch": 1}, {"scale": 2, "nosuch": 1}, {"nosuch": None}, {"Scale": 1}):
            out = S.call(c, **kw)
            if out.ok or not out.isa("AttributeError"):
                S.violate("setting-accepted", f"unknown settings {kw} {short(out)}", None if out.ok else out)
        out = S.call(c, scale=-1)
        if out.ok:
            S.violate("not-validated", "the coder's validate() is not called at construction")
    return fn


def refuse(T, kind):
    """an element the custom encoder refuses makes encode raise its error and is_encodable return False"""
    def fn(S):
        cod = S.h("opcodec")
        cnt = [0]

        def leaves(t):
            return 1 if t[0] == "op" else sum(leaves(x) for x in (t[1] if t[0] == "tuple" else [t[1]] * (t[2] or 2))) if t[0] in ("tuple", "arr") else 0
        n = leaves(T)
        bad = S.I.choose(n + 1, "which element is refused")

        def mk(t):
            if t[0] == "tuple":
                return tuple(mk(x) for x in t[1])
            if t[0] == "arr":
                return AList([mk(t[1]) for _ in range(t[2] or 2)])
            if t[0] == "op":
                cnt[0] += 1
                return "refused" if cnt[0] - 1 == bad else bytes([cnt[0]]) * 32
            return values.fixed_sample(t, S, 1)[0]
        v = mk(T)
        out = S.method(cod, "encode", AList([tstr(T)]), AList([v]))
        chk = S.method(cod, "is_encodable", tstr(T), v)
        S.count("judged", 2)
        if bad == n:
            if not out.ok or not chk.ok or chk.val is not True:
                S.violate("rejected", f"encode([{tstr(T)}]) with values the {kind} coder accepts {short(out)}, is_encodable {short(chk)}", None if out.ok else out)
        else:
            if out.ok or not out.isa("EncodingError"):
                S.violate("not-refused", f"encode([{tstr(T)}]) with a value the {kind} coder refuses {short(out)}", None if out.ok else out)
            if not chk.ok or chk.val is not False:
                S.violate("not-refused", f"is_encodable({tstr(T)}) with a value the {kind} coder refuses {short(chk)}", None if chk.ok else chk)
    return fn
