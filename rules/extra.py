"""Parsed-type validation, the decoding stream, causes of rejection, coder factories and settings."""
import itertools

from absint.core import SBytes, SDec, SInt
from absint.engine import Out
from absint.lin import Imprecise, Lin
from absint.objects import ABytearray, AList, AObj

from . import containers, decode, encode, typestr, values
from .encode import short
from .spec import *
from .typestr import attr, legal_basic, mstr, recognise


# ------------------------------------------------------------------------------------ C31
def valid_basic(base, sub):
    if base in ("int", "uint"):
        return isinstance(sub, int) and 8 <= sub <= 256 and sub % 8 == 0
    if base in ("fixed", "ufixed"):
        return isinstance(sub, tuple) and 8 <= sub[0] <= 256 and sub[0] % 8 == 0 and 1 <= sub[1] <= 80
    if base == "bytes":
        return sub is None or isinstance(sub, int) and sub <= 32
    if base == "hash":
        return isinstance(sub, int)
    if base in ("string", "address", "bool"):
        return sub is None
    return True


def valid(m):
    return valid_basic(m[1], m[2]) if m[0] == "b" else all(map(valid, m[1]))


def flaws(m):
    """the written forms of the invalid basic parts, with their positions"""
    if m[0] == "b":
        return [] if valid_basic(m[1], m[2]) else [m]
    return [f for c in m[1] for f in flaws(c)]


def validation(batch, ctxs):
    def fn(S):
        parse = S.api("eth_abi.grammar", "parse")
        for b in batch:
            for c in ctxs:
                s = c.replace("T", b)
                m = recognise(s)
                if m is None:
                    continue
                S.inp("type", s)
                ok = valid(m)
                S.count("valid types" if ok else "invalid types")
                p = S.call(parse, s)
                if not p.ok:
                    raise Imprecise(f"parse({s!r}) raises")     # judged by C20
                objs = [(f"parse({s!r})", p.val)]
                if m[-1]:
                    objs.append((f"parse({s!r}).item_type", attr(S, p.val, "item_type")))
                for what, o in objs:
                    out = S.method(o, "validate")
                    if ok and not out.ok:
                        S.violate("rejects", f"{what}.validate() raises {out.cls} for a valid type", out)
                    if not ok and out.ok:
                        S.violate("accepts", f"{what}.validate() returns for an invalid type")
                    if not ok and not out.isa("ABITypeError"):
                        S.violate("wrong-exception", f"{what}.validate() raises {out.cls} instead of ABITypeError", out)
    return fn


# ------------------------------------------------------------------------------------ C32
OPS = ("push", "seek", "read", "pop")
FAR = 1 << 40


class Model:
    """the frames of a stream, as specified"""

    def __init__(self, S, L):
        self.S, self.L, self.pos, self.frames = S, L, Lin({}, 0), []

    def total(self):
        t = Lin({}, 0)
        for off, _ in self.frames:
            t = t + off
        return t


def same_int(S, v, e):
    return isinstance(v, (int, SInt)) and not isinstance(v, bool) and S.eq(S.I.lin(v), e)


def step(S, st, M, op, i, fix=None):
    I = S.I
    n = (lambda lo, hi, k: Lin({}, fix[i % len(fix)])) if fix else (lambda lo, hi, k: S.sym(f"{k}{i}", lo, hi))
    if op == "push":
        off = n(0, FAR, "offset")
        ret = M.pos
        out = S.method(st, "push_frame", I.mkint(off))
        M.frames.append((off, ret))
        M.pos = M.total()
        what = "push_frame"
    elif op == "seek":
        p = n(0, FAR, "position")
        out = S.method(st, "seek_in_frame", I.mkint(p))
        M.pos = M.total() + p
        what = "seek_in_frame"
    elif op == "read":
        k = n(1, 64, "size")
        out = S.method(st, "read", I.mkint(k))
        if not out.ok:
            S.violate("frames", f"read raises {out.cls}", out)
        if S.ge(M.pos, M.L):
            want, new = b"", M.pos
        else:
            end = M.pos + k if S.le(M.pos + k, M.L) else M.L
            want, new = I.mkbytes((("raw", "data", I.norm(M.pos), I.norm(end - M.pos)),)), end
        if not isinstance(out.val, (bytes, SBytes)) or not I.eq_bytes(out.val, want):
            S.violate("frames", f"read in {len(M.frames)} frame(s) returns {short(out.val)} instead of {short(want)}")
        M.pos = new
        return
    else:
        out = S.method(st, "pop_frame")
        if not M.frames:
            if out.ok or not out.isa("IndexError"):
                S.violate("underflow", f"pop_frame with no open frame {short(out)} instead of raising IndexError", None if out.ok else out)
            return
        _, M.pos = M.frames.pop()
        what = "pop_frame"
    if not out.ok:
        S.violate("frames", f"{what} raises {out.cls}", out)


def at_pos(S, st, M, after):
    t = S.method(st, "tell")
    if not t.ok or not same_int(S, t.val, M.pos):
        S.violate("frames", f"after {after} the cursor is at {short(t)} instead of {M.pos}", None if t.ok else t)


def stream(prog, fix=None):
    def fn(S):
        L = S.sym("len", 0, MAXLEN) if fix is None else Lin({}, 4096)
        st = S.call(S.api("eth_abi.decoding", "ContextFramesBytesIO"), S.raw("data", L))
        if not st.ok:
            S.violate("frames", f"no stream over bytes: {st.cls}", st)
        M = Model(S, L)
        for i, op in enumerate(prog):
            step(S, st.val, M, op, i, fix)
            S.count("operations")
            at_pos(S, st.val, M, ", ".join(prog[:i + 1][-6:]))
        # the frames that are still open
        while M.frames:
            step(S, st.val, M, "pop", 99, fix)
            at_pos(S, st.val, M, ", ".join(prog[-6:]) + " and the remaining pops")
        step(S, st.val, M, "pop", 99, fix)
        at_pos(S, st.val, M, "a pop with no open frame")
    return fn


def programs(n):
    """sequences of operations without two reads or seeks in a row, up to n long"""
    for k in range(1, n + 1):
        for p in itertools.product(OPS, repeat=k):
            if any(a == b and a in ("read", "seek") for a, b in zip(p, p[1:])) or p.count("read") > 2:
                continue
            yield p


# ------------------------------------------------------------------------------------ C33
T_, V_, I_ = "EncodingTypeError", "ValueOutOfBounds", "IllegalValue"


def cause(T, label):
    """the classes that may report this value class"""
    k = T[0]
    if k in ("uint", "int"):
        return {V_} if label in ("above", "below", "huge") else {T_}
    if k in ("ufixed", "fixed"):
        if label in ("above", "below", "max+1", "min-1", "large-exponent", "large-neg-exponent") or label.startswith(("integral-Decimal", "exponent", "int-")):
            return {V_}
        if label.endswith(("NaN", "Infinity", "tiny")) or "excess" in label:
            return {I_}
        return {V_, I_} if label == "long-positive" else {T_}
    if k == "bytesM":
        return {V_} if "too-long" in label or label.startswith("content") else {T_}
    if k == "string":
        return {I_} if label.startswith("surrogate") else {T_}
    return {T_}


def cls_ok(out, want):
    got = V_ if out.isa(V_) else I_ if out.isa(I_) else T_ if out.isa(T_) else None
    return got in want


def classify(S, where, out, want):
    if out.ok:
        return          # judged by the acceptance properties
    S.count("rejections")
    if not cls_ok(out, want):
        S.violate("class", f"{where} raises {out.cls} instead of {' or '.join(sorted(want))}", out)


def scalar_cause(T, c, packed_=False):
    def fn(S):
        v, _ = c.build(S)
        S.inp("value", v)
        classify(S, f"{'encode_packed' if packed_ else 'encode'}([{tstr(T)!r}], [{short(v)}])", encode.api_encode(S, [T], [v], packed_), cause(T, c.label))
    return fn


def flaw_cause(T, label):
    if T[0] in ("tuple", "arr"):
        return {V_} if label.endswith("elements") else {T_}
    if label in ("too-big", "too-small", "too-long"):
        return {V_}
    return {I_} if label in ("surrogate", "excess") else {T_}


def nested_cause(ts, path, build, label, want, packed_=False, count=2, sym=2):
    def fn(S):
        S.symmax = sym
        v, _ = values.compound(TUP(*ts), S, "v", count)
        bad = containers.put(v, path, build(S, containers.get(v, path)))
        vs = list(bad.items if isinstance(bad, AList) else bad)
        S.inp("values", bad)
        classify(S, f"{'encode_packed' if packed_ else 'encode'}({tlist(ts)}, ..) with the flaw {label} at {path}", encode.api_encode(S, ts, vs, packed_), want)
    return fn


def arity_cause(ts, n, packed_=False):
    def fn(S):
        vs = [values.compound(ts[i] if i < len(ts) else U(8), S, f"v{i}", 1)[0] for i in range(n)]
        classify(S, f"{'encode_packed' if packed_ else 'encode'}({tlist(ts)}, <{n} values>)", encode.api_encode(S, ts, vs, packed_), {V_})
    return fn


# ------------------------------------------------------------------------------------ C34
DECOS = {"foo": ("foo", False), "any": (None, False), "foo arrays": ("foo", True), "arrays": (None, True), "uint": ("uint", False), "bytes": ("bytes", False), "fixed": ("fixed", False), "tuple": "tuple",
         "uint arrays": ("uint", True)}


def admits(spec, s):
    """-> normalised structure if the decorated factory has to run for s, else None"""
    n = typestr.canon(s)
    m = recognise(n)
    if m is None or not valid(m):
        return None
    if spec == "tuple":
        return m if m[0] == "t" else None
    base, arr = spec
    if base is not None and (m[0] != "b" or m[1] != base):
        return None
    return m if bool(m[-1]) == arr else None


def decorated(name, batch):
    spec = DECOS[name]

    def fn(S):
        for kind in ("encoder", "decoder"):
            cls = S.call(S.h("mkdeco"), kind, *(("tuple", None, False) if spec == "tuple" else ("str",) + spec)).val
            sub = S.call(S.h("mksub"), cls).val
            for s in batch:
                S.inp("type", s)
                m = admits(spec, s)
                for c in (cls, sub):
                    reg = S.h("TOKEN")
                    out = S.method(c, "from_type_str", s, reg)
                    S.count("admitted" if m else "refused")
                    what = f"from_type_str({s!r}) decorated for {name}"
                    if m is None:
                        if out.ok:
                            S.violate("admits", f"{what} runs the factory")
                        if not (out.isa("ValueError") or out.isa("ParseError")):
                            S.violate("wrong-exception", f"{what} raises {out.cls}", out)
                        continue
                    if not out.ok:
                        S.violate("refuses", f"{what} raises {out.cls}", out)
                    got, t, r = out.val
                    if got is not c:
                        S.violate("factory-arguments", f"{what} passes the class {short(got)}")
                    if r is not reg:
                        S.violate("factory-arguments", f"{what} passes {short(r)} as registry")
                    typestr.check_parsed(S, typestr.canon(s), t, m)
    return fn


BUILTIN = {"UnsignedInteger": "uint", "SignedInteger": "int", "UnsignedFixed": "ufixed", "SignedFixed": "fixed", "Boolean": "bool", "Address": "address"}
PACKED_BUILTIN = {"PackedUnsignedIntegerEncoder": "uint", "PackedSignedIntegerEncoder": "int", "PackedUnsignedFixedEncoder": "ufixed", "PackedSignedFixedEncoder": "fixed", "PackedBooleanEncoder": "bool",
                  "PackedAddressEncoder": "address"}


def builtin_classes():
    for n, b in BUILTIN.items():
        yield f"{n}Encoder", "encoding", b
        yield f"{n}Decoder", "decoding", b
    for n, b in PACKED_BUILTIN.items():
        yield n, "encoding", b
    for n, mod in (("ByteStringEncoder", "encoding"), ("PackedByteStringEncoder", "encoding"), ("ByteStringDecoder", "decoding"), ("BytesEncoder", "encoding"), ("PackedBytesEncoder", "encoding"),
                   ("BytesDecoder", "decoding")):
        yield n, mod, "bytes"
    for n, mod in (("TextStringEncoder", "encoding"), ("PackedTextStringEncoder", "encoding"), ("StringDecoder", "decoding")):
        yield n, mod, "string"
    for n, mod in (("TupleEncoder", "encoding"), ("TupleDecoder", "decoding")):
        yield n, mod, "tuple"
    for n, mod in (("SizedArrayEncoder", "encoding"), ("DynamicArrayEncoder", "encoding"), ("SizedArrayDecoder", "decoding"), ("DynamicArrayDecoder", "decoding"), ("PackedArrayEncoder", "encoding")):
        yield n, mod, "array"


def factory(cname, mod, fam, batch):
    spec = "tuple" if fam == "tuple" else (None, True) if fam == "array" else (fam, False)

    def fn(S):
        reg = S.api("eth_abi.registry", "registry_packed" if cname.startswith("Packed") else "registry")
        cls = S.api(f"eth_abi.{mod}", cname)
        for s in batch:
            m = admits(spec, s)
            S.inp("type", s)
            if m is not None and fam == "bytes" and (m[2] is None) != ("String" in cname):
                continue        # told apart by the registrations only
            if m is not None and m[0] == "t" and not m[-1] and fam != "tuple":
                m = None
            leaves = m is None or typestr.legal(m)
            if not leaves:
                continue        # element types without coders
            if m is not None and fam == "tuple" and m[-1]:
                continue        # arrays of tuples are told apart by the registrations
            out = S.method(cls, "from_type_str", s, reg)
            what = f"{cname}.from_type_str({s!r})"
            S.count("admitted" if m else "refused")
            if m is None:
                if out.ok:
                    S.violate("admits", f"{what} returns {short(out.val)}")
                if not (out.isa("ValueError") or out.isa("ParseError")):
                    S.violate("wrong-exception", f"{what} raises {out.cls}", out)
            elif not out.ok:
                S.violate("refuses", f"{what} raises {out.cls}", out)
    return fn


def factory_strings():
    near = ["uint", "uint8", "uint256", "uint7", "uint264", "uint8x1", "int", "int8", "int256", "int9", "int512", "fixed", "fixed8x1", "fixed256x80", "fixed256x81", "fixed7x1", "fixed8", "ufixed", "ufixed128x18",
            "ufixed264x1", "ufixed8x0", "bytes", "bytes1", "bytes32", "bytes33", "bytes8x1", "byte", "function", "function24", "string", "string8", "address", "address20", "bool", "bool8", "foo", "foo8", "foo8x9", "hash",
            "hash32", "foobar", "afoo", "Foo", "food", "uints", "Uint8"]
    out = list(near)
    for b in near:
        out += [f"{b}[]", f"{b}[2]", f"{b}[3][]", f"({b})", f"({b},foo)", f"(bool,{b})[]"]
    return list(dict.fromkeys(out + ["", " ", "()", "(", "foo ", " foo", "foo[0]", "foo[", "foo]", "(foo", "foo)", "((foo),foo)", "((uint8,uint7))", "foo[-1]", "foo,foo", "[]", "[2]", "8", "foo[][][]", "(foo,)",
                                     "(uint8,(int[],fixed)[2])", "(uint8,(int[],fixed7x1)[2])"]))


# ------------------------------------------------------------------------------------ C35
def setting(S, v):
    return v(S) if callable(v) else v


def bad_settings():
    """class, module, settings no coder can be built from"""
    out = []
    for side, mod in (("Encoder", "encoding"), ("Decoder", "decoding")):
        for n in ("UnsignedInteger", "SignedInteger", "Bytes"):
            out += [(n + side, mod, kw) for kw in ([{}]) + [{"value_bit_size": b} for b in (1, 7, 9, 12, 20, 127, 255, 257, 264, 512, 260, None)]]
        for n in ("UnsignedFixed", "SignedFixed"):
            out += [(n + side, mod, kw) for kw in [{}, {"value_bit_size": 8}, {"frac_places": 1}, {"value_bit_size": 8, "frac_places": None}, {"value_bit_size": None, "frac_places": 1}]
                    + [{"value_bit_size": b, "frac_places": 1} for b in (1, 7, 9, 12, 255, 257, 264, 512)] + [{"value_bit_size": 128, "frac_places": f} for f in (0, -1, 81, 82, 100, 1000)]
                    + [{"value_bit_size": b, "frac_places": f} for b in (8, 256) for f in (0, 81)]]
        out += [("Address" + side, mod, {"value_bit_size": b}) for b in ((8, 152, 168, 256) if side == "Encoder" else ()) + (7, 264, None)]
        k = "encoder" if side == "Encoder" else "decoder"
        out += [("SizedArray" + side, mod, kw) for kw in ({}, {"array_size": 2}) + (({f"item_{k}": ITEM}, {"array_size": None, f"item_{k}": ITEM}) if side == "Encoder" else ())]
        out += [("DynamicArray" + side, mod, {}), ("Tuple" + side, mod, {}), ("Tuple" + side, mod, {k + "s": None})]
    out += [("HeadTailDecoder", "decoding", {}), ("HeadTailDecoder", "decoding", {"tail_decoder": None})]
    return out


ITEM = object()


def item(S, side):
    reg = S.api("eth_abi.registry", "registry")
    return S.method(reg, f"get_{side}", "uint8").val


def unbuildable(cname, mod, kw):
    def fn(S):
        kw2 = {k: item(S, "encoder" if mod == "encoding" else "decoder") if v is ITEM else v for k, v in kw.items()}
        out = S.call(S.api(f"eth_abi.{mod}", cname), **kw2)
        S.count("settings")
        shown = ", ".join(f"{k}={'<coder>' if v is ITEM else v}" for k, v in kw.items())
        if out.ok:
            S.violate("built", f"{cname}({shown}) is built from unusable settings")
        if not out.isa("ValueError"):
            S.violate("wrong-exception", f"{cname}({shown}) raises {out.cls} instead of ValueError", out)
    return fn


def settings_of(T):
    """(name of the class without Encoder/Decoder, settings) of the coder for T"""
    k = T[0]
    if k in ("uint", "int"):
        return ("UnsignedInteger" if k == "uint" else "SignedInteger"), {"value_bit_size": T[1]}
    if k in ("ufixed", "fixed"):
        return ("UnsignedFixed" if k == "ufixed" else "SignedFixed"), {"value_bit_size": T[1], "frac_places": T[2]}
    if k == "bytesM":
        return "Bytes", {"value_bit_size": T[1] * 8}
    if k == "bool":
        return "Boolean", {}
    if k == "address":
        return "Address", {}
    if k == "bytes":
        return "ByteString", {}
    raise AssertionError(T)


def build(S, T, side):
    mod = "encoding" if side == "encoder" else "decoding"
    if T[0] == "string":
        cname, kw = ("TextStringEncoder" if side == "encoder" else "StringDecoder"), {}
    elif T[0] == "tuple":
        cname, kw = "Tuple" + side.capitalize(), {side + "s": tuple(build(S, t, side) for t in T[1])}
    elif T[0] == "arr":
        cname = ("SizedArray" if T[2] is not None else "DynamicArray") + side.capitalize()
        kw = {"item_" + side: build(S, T[1], side)}
        if T[2] is not None:
            kw["array_size"] = T[2]
    else:
        n, kw = settings_of(T)
        cname = n + side.capitalize()
    out = S.call(S.api(f"eth_abi.{mod}", cname), **kw)
    if not out.ok:
        S.violate("refused", f"{cname}({', '.join(kw)}) raises {out.cls} for usable settings of {tstr(T)}", out)
    return out.val


def same_content(S, got, want):
    if isinstance(got, ABytearray) and got.kind == "bytearray":
        got = S.I.as_bytes(got)
    return isinstance(got, (bytes, SBytes)) and S.I.eq_bytes(got, want)


def direct_encode(T, c):
    def fn(S):
        e = build(S, T, "encoder")
        v, m = c.build(S)
        S.inp("value", v)
        S.count("judged")
        out = S.call(e, v)
        if c.legal is None:
            return
        where = f"the encoder built for {tstr(T)} called with {short(v)}"
        if not c.legal:
            if out.ok:
                S.violate("accepted-illegal", f"{where} returns {short(out.val)}")
            if not out.isa("EncodingError"):
                S.violate("wrong-exception", f"{where} raises {out.cls}", out)
            return
        if not out.ok:
            S.violate("rejected-legal", f"{where} raises {out.cls}", out)
        want = as_bytes(S, enc(S, T, m))
        if not same_content(S, out.val, want):
            S.violate("layout", f"{where} returns {short(out.val)}, specified {short(want)}")
    return fn


def direct_container(T, n):
    def fn(S):
        S.symmax = 3
        e = build(S, T, "encoder")
        v, m = values.compound(T, S, "v", n)
        S.inp("value", v)
        S.count("judged")
        out = S.call(e, v)
        if not out.ok:
            S.violate("rejected-legal", f"the encoder built for {tstr(T)} raises {out.cls} for {short(v)}", out)
        want = as_bytes(S, enc(S, T, m))
        if not same_content(S, out.val, want):
            S.violate("layout", f"the encoder built for {tstr(T)} returns {short(out.val)}, specified {short(want)}")
    return fn


def direct_decode(T, alone=False):
    """alone: the decoder itself is called, otherwise a tuple decoder around it"""
    def fn(S):
        S.I.loop_cap = 3
        d = build(S, T if alone else TUP(T), "decoder")
        data, L = decode.sym_data(S)
        st = S.call(S.api("eth_abi.decoding", "ContextFramesBytesIO"), data).val
        out = S.call(d, st)
        S.count("judged")
        if out.ok and alone:
            out = Out(True, (out.val,))
        r = decode.judge(S, [T], out, "data", L, True, cap=5)
        if r and r[0] not in ("nested-strict",):
            S.violate(r[0], f"the decoder built for {tstr(T)}: {r[1]}", None if out.ok else out)
    return fn
