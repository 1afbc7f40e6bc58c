"""Type strings: parsing (C20), validity (C21), aliases (C22), dynamism (C23)."""
import itertools
import re

from absint.core import SBytes
from absint.lin import Imprecise
from absint.objects import *

from . import decode, values
from .encode import short
from .spec import *

DIG = r"[1-9][0-9]*"
BASIC = re.compile(rf"([A-Za-z]+)(?:({DIG})x({DIG})|({DIG}))?", re.ASCII)
ARR1 = re.compile(rf"\[({DIG})?\]", re.ASCII)


# ------------------------------------------------------------------------------------ own recogniser
def recognise(s):
    """-> the model of a type string or None.  basic: ("b", base, sub, dims); tuple: ("t", parts, dims)"""
    r = _type(s, 0)
    return r[0] if r is not None and r[1] == len(s) else None


def _dims(s, i):
    out = []
    while True:
        m = ARR1.match(s, i)
        if not m:
            return tuple(out), i
        out.append((int(m.group(1)),) if m.group(1) else ())
        i = m.end()


def _type(s, i):
    if i < len(s) and s[i] == "(":
        parts = []
        i += 1
        while True:
            r = _type(s, i)
            if r is None:
                return None
            parts.append(r[0])
            i = r[1]
            if i < len(s) and s[i] == ",":
                i += 1
                continue
            if i < len(s) and s[i] == ")":
                break
            return None
        d, i = _dims(s, i + 1)
        return ("t", tuple(parts), d), i
    m = BASIC.match(s, i)
    if not m:
        return None
    sub = (int(m.group(2)), int(m.group(3))) if m.group(2) else int(m.group(4)) if m.group(4) else None
    d, i = _dims(s, m.end())
    return ("b", m.group(1), sub, d), i


def mstr(m):
    d = "".join("[%s]" % (x[0] if x else "") for x in m[-1])
    if m[0] == "b":
        return m[1] + ("" if m[2] is None else "%dx%d" % m[2] if isinstance(m[2], tuple) else str(m[2])) + d
    return "(" + ",".join(map(mstr, m[1])) + ")" + d


# ------------------------------------------------------------------------------------ strings to try
VALID = ["uint8", "a", "A", "uint", "fixed128x18", "x", "x1x1", "ax9", "b12x3[]", "uint256[2][][33]", "(a)", "(a,b)", "(uint8,bytes32[])[4]", "((a),(b,c))", "(((x)))[][]",
         "string[10][1]", "ufixed8x1[7]", "(a[],b[2])[][3]", "(a,(b,(c,d[9])[])[2])", "zZ9[][][]", "hash32", "abcdefghijklmnopqrstuvwxyz", "bytes1234567890123456789012345678901234567890",
         "a[1234567890123456789012345678901234567890]", "(uint8,uint8,uint8,uint8,uint8,uint8,uint8,uint8,uint8,uint8,uint8,uint8)", "x10x20[30]", "xx1x1", "(x1x1,x2)[5]",
         "uint10", "a100", "a[10]", "a[100][]", "a1x10", "a10x1", "(a10,b[20])"]


def strings(thorough):
    seen = dict.fromkeys(VALID)
    core = "ax07[](),"
    for n in range(0, 6 if not thorough else 7):
        for t in itertools.product(core, repeat=n):
            seen["".join(t)] = None
    toks = ["a", "uint", "8", "0", "8x1", "[]", "[2]", "[0]", "[02]", "[", "(", ")", ",", "(a)", "()", " "]
    for n in range(1, 5 if not thorough else 6):
        for t in itertools.product(toks, repeat=n):
            seen["".join(t)] = None
    junk = [" ", "\n", "\t", "_", "-", "+", ".", "é", "٣", "²", "\0", "0", "x", "X", "]", "[", "(", ")", ",", "()", "[]", "１", "\u200b", "ſ", "K"]
    for v in VALID[:22]:
        for i in range(len(v) + 1):
            for j in junk:
                seen[v[:i] + j + v[i:]] = None
            if i < len(v):
                seen[v[:i] + v[i + 1:]] = None
                for j in junk[:6] + ["0", "[", "("]:
                    seen[v[:i] + j + v[i + 1:]] = None
    return list(seen)


def deep(n):
    return ["(" * n + "a" + ")" * n, "a" + "[]" * n, "(" * n + "a" + ")" * (n - 1), "(a" + ",a" * n + ")", "a" + "[2]" * n + "[", "(" * n + "a,b" + ")[]" * n,
            "(a)" + "[2]" * n, "(a,b)" + "[]" * n, "a" + "[3]" * n, "a" * n, "a" * n + "8[]", "a" + "1" * n, "a" + "1" * n + "x" + "2" * n, "a[" + "7" * n + "]", "a1x" + "9" * n, "(uint8" + ",uint8" * n + ")[2]",
            "(" + "(a)," * n + "b)", "a" + "[2][]" * n]


def flat(n):
    return ["(a" + ",a" * n + ")", "a" * n, "a" * n + "8[]", "(uint8" + ",uint8" * n + ")[2]", "(" + "(a)," * n + "b)", "(" + "a[2]," * n + "b[])", "(a" + ",a" * n, "(" + "bool," * n + ")"]


def digits(n):
    return [p.replace("#", d * n) for d in ("1", "9") for p in ("a#", "a#x8", "a8x#", "a#x#", "a[#]", "a[#][]", "a[2][#]", "(a[#])", "(a#,b)[#]")] + ["a" + "0" * n, "a1" + "0" * n, "a[1" + "0" * n + "]", "a[" + "0" * n + "]", "a[0" + "1" * n + "]"]


def numbers(n):
    return [p.replace("#", str(n)) for p in ("a#", "uint#", "a#x8", "fixed8x#", "fixed#x#", "a[#]", "a[#][]", "a[2][#]", "(a[#],b)", "(a,b)[#]", "bytes#[#]")]


def wide_types(n):
    out = []
    for s in ("uint8", "bytes3", "uint8[2]", "(uint8,bool)"):
        out.append("(" + ",".join([s] * n) + ")")
        for d in ("bytes", "string", "uint8[]", "(string)", "bytes[2]"):
            out += ["(" + f"{s}," * n + d + ")", "(" + d + f",{s}" * n + ")", "(" + f"{s}," * (n // 2) + d + f",{s}" * (n - n // 2) + ")"]
            if s == "uint8":
                out += ["(bool,(" + f"{s}," * n + d + "))", "(" + f"{s}," * n + d + ")[2]", "(" + f"{s}," * n + f"(bool,{d}))"]
    return out


# ------------------------------------------------------------------------------------ C20
def attr(S, o, n):
    return S.I.getattr(o, n)


def check_parsed(S, s, o, m):
    what = f"parse({s!r})"
    if not isinstance(o, AObj):
        S.violate("structure", f"{what} returns {short(o)}")
    kind = "BasicType" if m[0] == "b" else "TupleType"
    if o.cls.name != kind:
        S.violate("structure", f"{what} is a {o.cls.name} instead of a {kind}")
    dims = m[-1]
    al = attr(S, o, "arrlist")
    if (al or None) != (dims or None) or (al is None) != (not dims):
        S.violate("structure", f"{what}.arrlist is {al!r}, written {dims or None!r}")
    if bool(attr(S, o, "is_array")) != bool(dims):
        S.violate("structure", f"{what}.is_array is {attr(S, o, 'is_array')!r}")
    if m[0] == "b":
        if attr(S, o, "base") != m[1] or attr(S, o, "sub") != m[2] or type(attr(S, o, "sub")) is not type(m[2]):
            S.violate("structure", f"{what}: base {attr(S, o, 'base')!r}, sub {attr(S, o, 'sub')!r}; written {m[1]!r}, {m[2]!r}")
    else:
        cs = attr(S, o, "components")
        if not isinstance(cs, tuple) or len(cs) != len(m[1]):
            S.violate("structure", f"{what} has components {short(cs)}, written {len(m[1])}")
        for c, cm in zip(cs, m[1]):
            check_parsed(S, mstr(cm), c, cm)
    out = S.method(o, "to_type_str")
    if not out.ok or out.val != mstr(m):
        S.violate("lossy", f"{what}.to_type_str() {short(out)} instead of {mstr(m)!r}", None if out.ok else out)


def check_items(S, s, o, m):
    what = f"parse({s!r})"
    try:
        it = S.I.getattr(o, "item_type")
    except AExc as e:
        if m[-1]:
            S.violate("item-type", f"{what}.item_type raises {e.obj.cls.name}")
        if not any(c.name == "ValueError" for c in e.obj.cls.mro):
            S.violate("item-type", f"{what}.item_type raises {e.obj.cls.name} instead of ValueError")
        return
    if not m[-1]:
        S.violate("item-type", f"{what}.item_type is {short(it)} although {s!r} is no array")
    im = m[:-1] + (m[-1][:-1],)
    check_parsed(S, mstr(im), it, im)
    check_items(S, mstr(im), it, im)


def parsing(batch):
    def fn(S):
        parse = S.api("eth_abi.grammar", "parse")
        for s in batch:
            S.inp("text", s)
            m = recognise(s)
            out = S.call(parse, s)
            S.count("valid strings" if m else "invalid strings")
            if m is None:
                if out.ok:
                    S.violate("accepts", f"parse({s!r}) returns {short(out.val)} for text that is no type string")
                if not (out.isa("ParseError") or out.isa("ValueError")):
                    S.violate("wrong-exception", f"parse({s!r}) raises {out.cls}", out)
                continue
            if not out.ok:
                S.violate("rejects", f"parse({s!r}) raises {out.cls} for a valid type string", out)
            check_parsed(S, s, out.val, m)
            check_items(S, s, out.val, m)
    return fn


def parse_non_text(what, mk):
    def fn(S):
        out = S.call(S.api("eth_abi.grammar", "parse"), mk(S))
        S.count("non-strings")
        if out.ok or not out.isa("TypeError"):
            S.violate("non-text", f"parse({what}) {short(out)} instead of raising TypeError", None if out.ok else out)
    return fn


def equality(xs):
    def fn(S):
        parse = S.api("eth_abi.grammar", "parse")
        os_ = []
        for s in xs:
            out = S.call(parse, s)
            if not out.ok:
                S.violate("rejects", f"parse({s!r}) raises {out.cls}", out)
            os_.append(out.val)
        for i, (a, x) in enumerate(zip(xs, os_)):
            for b, y in list(zip(xs, os_)):
                S.count("pairs")
                if bool(S.I.eq(x, y)) != (a == b):
                    S.violate("equality", f"parse({a!r}) == parse({b!r}) is {a != b}")
            for other in (a, None, 5):
                if bool(S.I.eq(x, other)):
                    S.violate("equality", f"parse({a!r}) == {other!r} is True")
            # equal though not the same object: built through item_type
            arr = S.call(parse, a + "[]")
            it = S.method(arr.val, "__getattribute__", "item_type") if False else None
            if arr.ok:
                it = S.I.getattr(arr.val, "item_type")
                if not bool(S.I.eq(it, x)):
                    S.violate("equality", f"item type of {a + '[]'!r} is not equal to parse({a!r})")
                if bool(S.I.eq(arr.val, x)):
                    S.violate("equality", f"parse({a + '[]'!r}) == parse({a!r}) is True")
    return fn


# ------------------------------------------------------------------------------------ C21
def legal_basic(base, sub):
    if base in ("uint", "int"):
        return sub is None or isinstance(sub, int) and 8 <= sub <= 256 and sub % 8 == 0
    if base in ("ufixed", "fixed"):
        return sub is None or isinstance(sub, tuple) and 8 <= sub[0] <= 256 and sub[0] % 8 == 0 and 1 <= sub[1] <= 80
    if base == "bytes":
        return sub is None or isinstance(sub, int) and 1 <= sub <= 32
    return base in ("bool", "address", "string", "function", "byte") and sub is None


def legal(m):
    if m is None:
        return False
    if m[0] == "b":
        return legal_basic(m[1], m[2])
    return all(map(legal, m[1]))


def basics(thorough):
    out = []
    for b in ("uint", "int"):
        out += [b] + [f"{b}{n}" for n in range(0, 300)] + [f"{b}{n}" for n in (512, 1024, 1000, 264, 2 ** 16, 2 ** 64, 10 ** 30)] + [f"{b}8x1", f"{b}08", f"{b}256x8"]
    for b in ("ufixed", "fixed"):
        out += [b, b + "8", b + "128", b + "256"]
        ms = range(0, 300) if thorough else [0, 1, 7, 8, 9, 12, 16, 20, 120, 127, 128, 129, 130, 248, 255, 256, 257, 264, 272, 512, 1000]
        ns = range(0, 100)
        out += [f"{b}{m}x{n}" for m in ms for n in (0, 1, 18, 79, 80, 81)] + [f"{b}{m}x{n}" for m in (8, 128, 256, 7, 264) for n in ns] + [f"{b}128x{10 ** 20}"]
        out += [f"{b}{m}x{n}" for m in range(8, 257, 8) for n in (1, 80, 81)]
    out += ["bytes"] + [f"bytes{n}" for n in range(0, 70)] + [f"bytes{n}" for n in (96, 100, 128, 256, 264, 10 ** 20)] + ["bytes8x1", "bytes32x1", "bytes08"]
    for b in ("bool", "address", "string", "function", "byte"):
        out += [b] + [f"{b}{x}" for x in (1, 2, 8, 20, 24, 32, 160, 256, "8x1", "128x18", "1x1")]
    for b in ("hash", "bool", "bytes", "address", "string", "foo", "real"):
        out += [f"{b}{m}x{n}" for m, n in ((8, 8), (8, 1), (32, 8), (1, 1), (7, 8), (128, 128), (256, 256), (128, 80), (8, 80))]
    out += [f"hash{n}" for n in (0, 1, 7, 8, 9, 12, 16, 31, 33, 248, 255, 256, 257, 264, 512)] + [f"{b}{x}" for b in ("real", "ureal") for x in ("128x127", "8x8", "256x256", "0x8", "8", "128x120", "264x8", "8x264")]
    out += ["hash", "hash8", "hash32", "real", "real128x128", "ureal", "foo", "foo8", "Uint8", "UINT8", "uint8a", "int8x", "string0", "uin8", "bytess", "booll", "addres", "tuple", "void", "char",
            "struct", "mapping", "decimal", "float", "double", "bit", "bits8", "word", "uints", "text", "str", "array", "list", "x", "u", "i"]
    return list(dict.fromkeys(out))


def sized(consts):
    """types whose sizes lie around the integer constants of the source"""
    out = []
    for c in consts:
        for n in (c - 1, c, c + 1, c * 8):
            if 0 < n < 10 ** 6:
                out += [f"{b}{n}" for b in ("uint", "int", "bytes")] + [f"{b}{x}" for b in ("fixed", "ufixed") for x in (f"{n}x1", f"{n}x80", f"128x{n}")]
    return out


CONTEXTS = ["T", "T[]", "T[2]", "(T)", "(uint8,T)", "(T,bytes)[]", "(T[3],string)", "((T))", "(uint8,(bool,T[]))[2]", "T[][1]"]


def coders(batch, base, ctxs):
    """encoders and decoders exist exactly for the valid types"""
    def fn(S):
        reg = S.api("eth_abi.registry", "registry" if base == "std" else "registry_packed")
        chk = S.api("eth_abi.abi", "is_encodable") if base == "std" else S.api("eth_abi.packed", "is_encodable_packed")
        cht = S.api("eth_abi.abi", "is_encodable_type") if base == "std" else None
        cod = S.I.call(S.h("codec_of"), [reg], {})
        for b in batch:
            for c in ctxs:
                t = c.replace("T", b)
                ok = legal(recognise(t))
                S.inp("type", t)
                S.count("valid types" if ok else "invalid types")
                for side in ("encoder", "decoder")[:2 if base == "std" else 1]:
                    out = S.method(reg, f"get_{side}", t)
                    if ok and not out.ok:
                        S.violate("no-coder", f"get_{side}({t!r}) raises {out.cls} for a valid type ({base})", out)
                    if not ok and out.ok:
                        S.violate("coder-for-invalid", f"get_{side}({t!r}) returns {short(out.val)} for an invalid type ({base})")
                    if not ok and not (out.isa("ValueError") or out.isa("ParseError")):
                        S.violate("wrong-exception", f"get_{side}({t!r}) raises {out.cls} for an invalid type ({base})", out)
                    if not ok and out.isa("MultipleEntriesFound"):
                        S.violate("wrong-exception", f"get_{side}({t!r}) raises {out.cls} ({base})", out)
                for n, out in (("is_encodable_type", S.method(cod, "is_encodable_type", t)), ("has_encoder", S.method(reg, "has_encoder", t))) + \
                        ((("is_encodable_type", S.call(cht, t)),) if cht is not None else ()):
                    if not out.ok or out.val is not ok:
                        S.violate("not-reported", f"{n}({t!r}) {short(out)} ({base})", None if out.ok else out)
                if not ok:
                    for v in (1, b"a", AList([])):
                        out = S.call(chk, t, v)
                        if not out.ok or out.val is not False:
                            S.violate("not-reported", f"is_encodable({t!r}, {short(v)}) {short(out)} ({base})", None if out.ok else out)
    return fn


def api_types(batch):
    """encode and decode raise for invalid types whatever the values, before anything is returned"""
    def fn(S):
        enc, pk, dec = S.api("eth_abi.abi", "encode"), S.api("eth_abi.packed", "encode_packed"), S.api("eth_abi.abi", "decode")
        for t in batch:
            if legal(recognise(t)):
                continue
            S.inp("type", t)
            for v in (0, b"", "", AList([]), False):
                for n, f in (("encode", enc), ("encode_packed", pk)):
                    out = S.call(f, AList([t]), AList([v]))
                    if out.ok or not (out.isa("ValueError") or out.isa("ParseError")) or out.isa("EncodingError"):
                        S.violate("wrong-exception" if not out.ok else "coder-for-invalid", f"{n}([{t!r}], [{short(v)}]) {short(out)} for an invalid type", None if out.ok else out)
            for data in (bytes(32), (32).to_bytes(32, "big") + bytes(64)):
                out = S.call(dec, AList([t]), data)
                if out.ok or not (out.isa("ValueError") or out.isa("ParseError")):
                    S.violate("wrong-exception" if not out.ok else "coder-for-invalid", f"decode([{t!r}], ..) {short(out)} for an invalid type", None if out.ok else out)
            S.count("invalid types")
    return fn


# ------------------------------------------------------------------------------------ C22
ALIAS = {"int": "int256", "uint": "uint256", "fixed": "fixed128x18", "ufixed": "ufixed128x18", "function": "bytes24", "byte": "bytes1"}
CANON = {"int": N(256), "uint": U(256), "fixed": FX(128, 18), "ufixed": UF(128, 18), "function": B(24), "byte": B(1)}
WORD = re.compile(r"[A-Za-z0-9_]+")


def canon(s):
    return WORD.sub(lambda m: ALIAS.get(m.group(0), m.group(0)), s)


def norm_strings():
    words = list(ALIAS) + ["int8", "uint256", "uints", "myuint", "xint", "bytes", "bytes1", "byte1", "byte2", "functions", "function24", "fixed128x18", "ufixed8x1", "fixed8x1", "intx", "Int", "UINT",
                           "string", "address", "int256", "uintint", "intuint", "unfixed", "_int", "int_", "a"]
    out = list(words)
    for a in words:
        out += [f"{a}[]", f"{a}[3][]", f"({a})", f"({a})[2]"]
        for b in words[:10] + ["bytes1", "byte1"]:
            out += [f"({a},{b})", f"(({b},{a}[])[1],{a})", f"({a}[2],({b}))"]
    out += ["", "[]", "()", "(int,int,int,int)", "int[][][]", "(int[4],uint[],(fixed,ufixed[2])[],function,byte[32])[7]", "int int", "int-uint", "uint,uint"]
    return list(dict.fromkeys(out))


def normalise(batch):
    def fn(S):
        f = S.api("eth_abi.grammar", "normalize")
        for s in batch:
            S.inp("text", s)
            out = S.call(f, s)
            S.count("strings")
            if not out.ok:
                S.violate("normalise", f"normalize({s!r}) raises {out.cls}", out)
            if out.val != canon(s):
                S.violate("normalise", f"normalize({s!r}) is {out.val!r} instead of {canon(s)!r}")
    return fn


def same_val(S, a, b):
    if isinstance(a, AList):
        a = tuple(a.items)
    if isinstance(b, AList):
        b = tuple(b.items)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_val(S, x, y) for x, y in zip(a, b))
    if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
        return S.I.eq_bytes(a, b)
    return type(a) is type(b) and bool(S.I.eq(a, b))


def agree(S, what, x, y):
    S.count("calls")
    if x.ok != y.ok or not x.ok and x.cls != y.cls:
        S.violate("alias-differs", f"{what}: alias {short(x)}, canonical {short(y)}", x if not x.ok else y)
    if x.ok and not same_val(S, x.val, y.val):
        S.violate("alias-differs", f"{what}: alias {short(x)}, canonical {short(y)}")


def alias_encode(a, ctx, mk, label):
    """mk(S) -> value of the type ctx with the alias's canonical type in place of T"""
    def fn(S):
        v = mk(S)
        S.inp("value", v)
        ta, tc = ctx.replace("T", a), ctx.replace("T", ALIAS[a])
        enc, pk = S.api("eth_abi.abi", "encode"), S.api("eth_abi.packed", "encode_packed")
        ise, isp = S.api("eth_abi.abi", "is_encodable"), S.api("eth_abi.packed", "is_encodable_packed")
        which = S.I.choose(4, "which function")
        if which == 0:
            agree(S, f"encode([{ta!r}], [{short(v)}])", S.call(enc, AList([ta]), AList([v])), S.call(enc, AList([tc]), AList([v])))
        elif which == 1:
            agree(S, f"encode_packed([{ta!r}], [{short(v)}])", S.call(pk, AList([ta]), AList([v])), S.call(pk, AList([tc]), AList([v])))
        elif which == 2:
            agree(S, f"is_encodable({ta!r}, {short(v)})", S.call(ise, ta, v), S.call(ise, tc, v))
        else:
            agree(S, f"is_encodable_packed({ta!r}, {short(v)})", S.call(isp, ta, v), S.call(isp, tc, v))
    return fn


def alias_decode(a, ctx, strict):
    def fn(S):
        S.I.loop_cap = 2
        d, L = decode.sym_data(S)
        dec = S.api("eth_abi.abi", "decode")
        ta, tc = ctx.replace("T", a), ctx.replace("T", ALIAS[a])
        agree(S, f"decode([{ta!r}])", S.call(dec, AList([ta]), d, strict=strict), S.call(dec, AList([tc]), d, strict=strict))
    return fn


def alias_api(a, ctx):
    """existence, dynamism and strategies of the alias"""
    def fn(S):
        ta, tc = ctx.replace("T", a), ctx.replace("T", ALIAS[a])
        for rn in ("registry", "registry_packed"):
            reg = S.api("eth_abi.registry", rn)
            for side in ("encoder", "decoder")[:2 if rn == "registry" else 1]:
                x, y = S.method(reg, f"get_{side}", ta), S.method(reg, f"get_{side}", tc)
                S.count("calls")
                if not x.ok or not y.ok:
                    S.violate("alias-differs", f"{rn}.get_{side}: {ta!r} {short(x)}, {tc!r} {short(y)}", x if not x.ok else y)
                if x.val.cls is not y.val.cls or bool(S.I.getattr(x.val, "is_dynamic")) != bool(S.I.getattr(y.val, "is_dynamic")):
                    S.violate("alias-differs", f"{rn}.get_{side}: {ta!r} {short(x)}, {tc!r} {short(y)}")
            x = S.method(reg, "has_encoder", ta)
            if not x.ok or x.val is not True:
                S.violate("alias-differs", f"{rn}.has_encoder({ta!r}) {short(x)}", None if x.ok else x)
    return fn


def alias_long(a, n):
    def fn(S):
        for cx in ("(" + ",".join(["T"] * n) + ")", "T" + "[2]" * min(n, 30), "(" * min(n, 30) + "T" + ")" * min(n, 30), "(" + "bool," * n + "T)"):
            alias_api(a, cx)(S)
    return fn


# ------------------------------------------------------------------------------------ C23
def mdyn(m):
    if any(not d for d in m[-1]):
        return True
    if m[0] == "b":
        return m[1] == "string" or m[1] == "bytes" and m[2] is None
    return any(map(mdyn, m[1]))


def dyn_types(thorough):
    leaves = ["uint8", "int256", "bool", "address", "bytes1", "bytes32", "bytes", "string", "fixed8x1", "ufixed256x80", "int", "uint", "fixed", "ufixed", "function", "byte"]
    dims = ["", "[]", "[1]", "[2]", "[][]", "[2][]", "[][2]", "[3][2]", "[2][][3]", "[][3][2]", "[1][2][3]", "[1][2][]"]
    out = [l + d for l in leaves for d in dims]
    for a in ("uint8", "bytes", "string", "uint8[2]", "bytes[2]", "uint8[]", "bytes3", "int", "function", "byte[2]"):
        for d in dims:
            out += [f"({a}){d}", f"(bool,{a}){d}", f"({a},bool){d}"]
            if d in ("", "[]", "[2]"):
                out += [f"(({a}){d})", f"(bool,({a}){d})", f"((bool,{a}){d},uint8)", f"(uint8,(bool,({a}){d})[2])", f"((({a})))[1]{d}", f"(bool,bool,bool,{a}){d}"]
    for k in range(1, 12 if not thorough else 24):
        for leaf in ("uint8", "bytes"):
            out += ["(" * k + leaf + ")" * k, leaf + "[2]" * k, leaf + "[1]" * k + "[]", "(uint8," * k + leaf + ")" * k, "(" * k + leaf + ")[2]" * k]
    return list(dict.fromkeys(out))


def dynamic(batch):
    def fn(S):
        reg = S.api("eth_abi.registry", "registry")
        parse, norm = S.api("eth_abi.grammar", "parse"), S.api("eth_abi.grammar", "normalize")
        for t in batch:
            want = mdyn(recognise(canon(t)))
            S.inp("type", t)
            S.count("types")
            p = S.call(parse, canon(t))
            if not p.ok:
                S.violate("rejects", f"parse({canon(t)!r}) raises {p.cls}", p)
            got = S.I.getattr(p.val, "is_dynamic")
            if got is not want:
                S.violate("parsed", f"parse({canon(t)!r}).is_dynamic is {got!r}")
            it = p.val
            for side in ("encoder", "decoder"):
                out = S.method(reg, f"get_{side}", t)
                if not out.ok:
                    S.violate("rejects", f"get_{side}({t!r}) raises {out.cls}", out)
                got = S.I.getattr(out.val, "is_dynamic")
                if bool(got) is not want:
                    S.violate(side, f"get_{side}({t!r}).is_dynamic is {got!r}, the type is {'dynamic' if want else 'static'}")
    return fn


def dynamic_custom(decl, side, ctx, kind):
    """a custom coder of a declared dynamism inside a compound type"""
    def fn(S):
        reg = S.h("opreg")
        leaf = "opd" if decl else "ops"
        t = ctx.replace("T", leaf)
        out = S.method(reg, f"get_{side}", t)
        S.count("types")
        if not out.ok:
            S.violate("rejects", f"get_{side}({t!r}) raises {out.cls}", out)
        m = recognise(t)

        def d(m):
            if any(not x for x in m[-1]):
                return True
            return any(map(d, m[1])) if m[0] == "t" else m[1] == "opd" or m[1] == "string" or m[1] == "bytes" and m[2] is None
        got = S.I.getattr(out.val, "is_dynamic")
        if bool(got) is not d(m):
            S.violate(side, f"get_{side}({t!r}).is_dynamic is {got!r} for an element that declares is_dynamic = {decl}")
    return fn


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]
