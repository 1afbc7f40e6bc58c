"""The registered properties."""
from .base import Prop, Scn, USUAL
from absint.objects import AList
from . import agree, containers, custom, decode, effects, encode, extra, registry, typestr, values
from .spec import *

PROPS = {}
TITLES = {}


def prop(id, title, rule, explanation, **k):
    def deco(f):
        PROPS[id] = Prop(id, title, f, rule, explanation, **k)
        return f
    return deco


ABSINT = ("Partitioned abstract interpretation of the package's syntax tree (linear integer, byte-segment, text and decimal domains); "
          "every partition of an abstract input is judged against an independently written ABI specification. ")


# ------------------------------------------------------------------------------------ type families
def int_types(ctx):
    return [U(m) for m in range(8, 257, 8)] + [N(m) for m in range(8, 257, 8)]


def fixed_types(ctx):
    ms = range(8, 257, 8)
    if ctx.thorough:
        pairs = [(m, n) for m in ms for n in range(1, 81)]
    else:
        pairs = [(m, n) for m in (8, 128, 256) for n in range(1, 81)] + [(m, n) for m in ms for n in (1, 18, 80) if m not in (8, 128, 256)]
    return [UF(m, n) for m, n in pairs] + [FX(m, n) for m, n in pairs]


def bytes_types():
    return [B(m) for m in range(1, 33)]


def scalar_types(ctx):
    return int_types(ctx) + fixed_types(ctx) + bytes_types() + [BOOL, ADDRESS, BYTES, STRING]


def core_cases(T):
    """fixed types are many: for most of them the value classes that depend on the type"""
    return values.cases(T)


def scalar_scns(ctx, types, kinds, packed_=False, pick=None):
    out = []
    for T in types:
        for c in values.cases(T):
            if pick and not pick(T, c):
                continue
            fn = "encode_packed" if packed_ else "encode"
            out.append(Scn(f"{fn} {tstr(T)} <- {c.label}", encode.scalar(T, c, kinds, packed_), key=f"{T[0]}/{c.label}"))
    return out


@prop("C01", "scalar acceptance", "a value class is accepted iff legal; rejection raises EncodingError", ABSINT)
def c01(ctx):
    return scalar_scns(ctx, scalar_types(ctx), lambda k: k in ("accepted-illegal", "rejected-legal", "wrong-exception"))


@prop("C02", "static scalar layout", "encoding of every legal static scalar equals the specified 32-byte word", ABSINT)
def c02(ctx):
    ts = [t for t in scalar_types(ctx) if not dyn(t)]
    return scalar_scns(ctx, ts, lambda k: k in ("layout", "rejected-legal"), pick=lambda T, c: c.legal)


@prop("C03", "bytes and string layout", "encoding of every legal bytes/string equals head, length, content, minimal zero padding", ABSINT)
def c03(ctx):
    return scalar_scns(ctx, [BYTES, STRING], lambda k: k in ("layout", "rejected-legal"), pick=lambda T, c: c.legal)


# ------------------------------------------------------------------------------------ containers
def seqwrap(S, t, v):
    return S.I.call(S.h("Seq"), [v], {}) if t[0] in ("tuple", "arr") else v


@prop("C04", "head-tail layout", "the encoding of every compound value equals the head-tail layout of the specification, for opaque "
      "elements of unknown content and length and for real leaves", ABSINT)
def c04(ctx):
    K = lambda k: k in ("layout", "rejected-legal")
    out = []
    od, os_ = containers.OD, containers.OS
    some = [TUP(os_, od), ARR(od), ARR(os_, 2), TUP(os_, os_)]
    lists = [[t] for t in containers.shapes(os_, od)] + containers.arg_lists(os_, od, some) + [[containers.OW, od, os_], [TUP(containers.OW, od)], [ARR(containers.OW), od]]
    for ts in lists:
        for n in (0, 1, 2, 3):
            if n != 2 and not has_dynarr(ts):
                continue
            out.append(Scn(f"layout {tlist(ts)} count={n}", encode.container(ts, K, n, opaque=True), key="opaque", weight=2))
    real = [[t] for t in containers.shapes(U(8), BYTES)] + [[t] for t in containers.shapes(B(3), STRING)]
    real += [[TUP(BOOL, ADDRESS, N(16), FX(8, 1), STRING, BYTES)], [BOOL, ADDRESS, N(16), FX(8, 1), STRING, BYTES], [ARR(BOOL)], [ARR(ADDRESS, 2), ARR(STRING)], [ARR(FX(128, 18))], [ARR(N(8), 2)]]
    for ts in real:
        for n in ((0, 1, 2, 3) if has_dynarr(ts) else (2,)):
            out.append(Scn(f"layout {tlist(ts)} count={n}", encode.container(ts, K, n), key="real", weight=2))
            if n == 2:
                out.append(Scn(f"layout {tlist(ts)} Sequence", encode.container(ts, K, n, wrap=seqwrap), key="real", weight=2))
    for n in ctx.counts():
        if n > 3:
            out.append(Scn(f"layout opd[] count={n}", encode.container([ARR(od)], K, n, sym=1, opaque=True), key="opaque", weight=n))
            out.append(Scn(f"layout ops[] count={n}", encode.container([ARR(os_)], K, n, sym=1, opaque=True), key="opaque", weight=n))
            out.append(Scn(f"layout opd[{n}]", encode.container([ARR(od, n)], K, n, sym=1, opaque=True), key="opaque", weight=n))
            out.append(Scn(f"layout ({n} x ops,opd)", encode.container([TUP(*[os_, od] * (n // 2))], K, n, sym=1, opaque=True), key="opaque", weight=n))
            out.append(Scn(f"layout args {n} x opd", encode.container([od] * n, K, n, sym=1, opaque=True), key="opaque", weight=n))
            out.append(Scn(f"layout uint8[] count={n}", encode.container([ARR(U(8)), U(8)], K, n, sym=1), key="real", weight=n))
            out.append(Scn(f"layout bytes[] count={n}", encode.container([ARR(BYTES), U(8)], K, n, sym=1), key="real", weight=n))
    for n in ctx.counts(cap=1100, newcap=4200):
        if n > 300:
            for T in (ARR(U(8)), ARR(BYTES), ARR(U(8), n), ARR(BYTES, n)):
                out.append(Scn(f"layout {tstr(T)} of {n}", encode.container([T, U(8)], K, n, sym=0), key="real", weight=n, max_s=60))
    for k in ctx.depths(4, 14 if ctx.thorough else 9):
        out.append(Scn(f"layout depth {k}", encode.container([containers.depth(od, k), od], K, 1, opaque=True), key="opaque", weight=k))
        out.append(Scn(f"layout static depth {k}", encode.container([containers.depth(TUP(os_, od), k), od], K, 1, opaque=True), key="opaque", weight=k))
    return out + wide_enc(ctx, K)


def wide_enc(ctx, K, packed_=False):
    """many components in one place; elements that are all equal"""
    out = []
    pk = "packed " if packed_ else ""
    for n in ctx.wide():
        for label, ts, cnt in containers.wide(n, U(8), BYTES):
            out.append(Scn(f"{pk}wide {label}", encode.container(ts, K, cnt, packed_, sym=1 if n < 40 else 0), key="wide", weight=n, max_s=60))
        for T in (ARR(BYTES), ARR(STRING, n), TUP(*[BYTES] * n), ARR(ARR(U(8))), ARR(TUP(BYTES, U(8)))):
            for same in (0, 1, 3):
                out.append(Scn(f"{pk}equal elements {tstr(T)[:40]} x{n} ({same})", encode.container([T, BYTES], K, lambda t, T=T, n=n: n if t is T else 1, packed_, sym=0, same=same), key="equal", weight=n, max_s=60))
    for T in (ARR(BYTES), ARR(STRING, 3), TUP(BYTES, BYTES), TUP(BYTES, STRING), ARR(ARR(U(8))), ARR(TUP(BYTES, U(8))), ARR(U(8)), ARR(B(3), 2), ARR(ARR(U(8), 2), 2), TUP(ARR(BYTES), BYTES)):
        for same in (0, 1, 3):
            for ts in ([T], [T, T], [BYTES, T]):
                out.append(Scn(f"{pk}equal elements {tlist(ts)} ({same})", encode.container(ts, K, 2, packed_, sym=0, same=same), key="equal"))
    return out


def has_dynarr(ts):
    return any(t[0] == "arr" and t[2] is None or has_dynarr([t[1]] if t[0] == "arr" else t[1] if t[0] == "tuple" else []) for t in ts)


FLAW_TYPES = [
    [ARR(U(8))], [ARR(U(8), 2)], [TUP(U(8), BYTES)], [ARR(BYTES)], [ARR(STRING, 2)], [ARR(ARR(U(8)))], [ARR(ARR(U(8), 2), 2)], [ARR(ARR(BYTES), 2)],
    [ARR(TUP(U(8), BYTES))], [ARR(TUP(U(8), B(3)), 2)], [TUP(ARR(U(8)), TUP(BOOL, STRING))], [TUP(ARR(N(16), 2), ADDRESS)], [U(8), TUP(BYTES, ARR(UF(8, 1)))],
    [TUP(TUP(TUP(U(8))))], [ARR(ARR(ARR(U(8))))], [BYTES, ARR(U(8)), BYTES], [ARR(BOOL), STRING], [ARR(TUP(ARR(U(8), 1), BYTES), 1)],
]


def flaw_scns(ctx, kinds, packed_=False):
    out = []
    pk = "packed " if packed_ else ""
    for ts in FLAW_TYPES:
        T = TUP(*ts)
        for p in containers.paths(T, 2):
            if not p:
                continue
            X = containers.at(T, p)
            flaws = containers.shape_flaws(X) if X[0] in ("tuple", "arr") else containers.leaf_flaws(X)
            for label, b in flaws:
                out.append(Scn(f"{pk}{tlist(ts)} flaw {label} at {p}", encode.flawed(ts, p, b, label, kinds, 2, packed_), key=f"flaw/{label}"))
    for ts in ([U(8)], [U(8), BYTES], [BYTES], [ARR(U(8))], [BYTES, U(8), STRING], []):
        for n in range(0, len(ts) + 3):
            if n != len(ts):
                out.append(Scn(f"{pk}{tlist(ts)} with {n} values", encode.arity(ts, n, kinds, packed_), key="arity"))
    for n in ctx.counts(cap=4200, newcap=20000):
        if n > 3:
            # flaw in the last / a middle element of a long array
            for i in (n - 1, n // 2, 0):
                out.append(Scn(f"{pk}uint8[] of {n} flaw at {i}", encode.flawed([ARR(U(8))], (0, i), lambda S, v: S.int("big", 256, None), "too-big", kinds, n, packed_, sym=0), key="flaw/long"))
                out.append(Scn(f"{pk}bytes[] of {n} flaw at {i}", encode.flawed([ARR(BYTES)], (0, i), lambda S, v: None, "None", kinds, n, packed_, sym=0), key="flaw/long"))
            for d in (-1, 1):
                out.append(Scn(f"{pk}uint8[{n}] with {n + d}", encode.flawed([ARR(U(8), n)], (0,), lambda S, v, d=d, n=n: AList([1] * (n + d)), f"{n + d}", kinds, 2, packed_), key="flaw/long"))
    for n in ctx.wide():
        for ts, p, label, b in wide_flaws(n):
            out.append(Scn(f"{pk}wide {n} {tlist(ts)[:30]} flaw {label} at {p}", encode.flawed(ts, p, b, label, kinds, 2, packed_, sym=0), key="flaw/wide", weight=n))
    return out


def wide_flaws(n):
    """(types, position, label, build) for flaws in wide tuples and argument lists"""
    cut = lambda k: (lambda S, v: (lambda xs: AList(xs[:k] if k <= len(xs) else xs + [xs[-1]] * (k - len(xs))))(list(v.items if isinstance(v, AList) else v)))
    W = TUP(*[U(8)] * n, BYTES)
    out = [([W], (0,), f"{k} of {n + 1} components", cut(k)) for k in (0, n - 1, n, n + 2)]
    out += [([W], (0,), l, b) for l, b in containers.shape_flaws(W) if l in ("None", "int", "text-ab", "dict of values", "iterable", "generator", "bytes-2")]
    for i in sorted({0, n // 2, n - 1}):
        out += [([W], (0, i), l, b) for l, b in containers.leaf_flaws(U(8)) if l in ("too-big", "None", "text")]
    out += [([W], (0, n), l, b) for l, b in containers.leaf_flaws(BYTES)]
    out += [([U(8)] * n + [BYTES], (i,), "None", lambda S, v: None) for i in (n - 1, n)]
    out += [([TUP(W, BOOL)], (0, 0, n), "None", lambda S, v: None), ([ARR(W, 2)], (0, 1, n - 1), "too-big", lambda S, v: 256)]
    return out


@prop("C05", "container acceptance", "a compound value with a flaw in shape or in one element at any depth raises EncodingError; every well-formed one is accepted", ABSINT)
def c05(ctx):
    K = lambda k: k in ("accepted-illegal", "rejected-legal", "wrong-exception")
    out = flaw_scns(ctx, K)
    KL = lambda k: k in ("rejected-legal",)
    for ts in FLAW_TYPES + [[t] for t in containers.shapes(U(8), BYTES)]:
        for n in (0, 1, 2, 3):
            out.append(Scn(f"{tlist(ts)} legal count={n}", encode.container(ts, KL, n), key="legal"))
        out.append(Scn(f"{tlist(ts)} legal Sequence", encode.container(ts, KL, 2, wrap=seqwrap), key="legal"))
    for n in ctx.counts():
        out.append(Scn(f"uint8[] legal count={n}", encode.container([ARR(U(8))], KL, n, sym=1), key="legal"))
        out.append(Scn(f"bytes[] legal count={n}", encode.container([ARR(BYTES)], KL, n, sym=1), key="legal"))
        if n:
            out.append(Scn(f"uint8[{n}] legal", encode.container([ARR(U(8), n)], KL, n, sym=1), key="legal"))
    out += wide_enc(ctx, KL)
    for ts in FLAW_TYPES:
        for T in ts:
            if T[0] not in ("tuple", "arr"):
                continue
            for p in containers.paths(T, 2):
                X = containers.at(T, p)
                for label, b in containers.shape_flaws(X) if X[0] in ("tuple", "arr") else containers.leaf_flaws(X):
                    out.append(Scn(f"encoder of {tstr(T)} flaw {label} at {p}", encode.direct_flaw(T, p, b, label, lambda k: k == "accepted-illegal"), key=f"direct/{label}"))
    return out


# ------------------------------------------------------------------------------------ decoding
STATIC = lambda ctx: [t for t in scalar_types(ctx) if not dyn(t)]


def dscn(ts, strict, kinds, key, cap=3, weight=1.0, max_s=20.0, max_paths=2500, **k):
    mode = "strict" if strict else "non-strict"
    return Scn(f"decode {tlist(ts)} {mode}{' default' if k.get('default') else ''}{' bytearray' if k.get('kind') == 'bytearray' else ''}",
               decode.scenario(ts, strict, cap=cap, kinds=kinds, **k), key=key, weight=weight, max_s=max_s, max_paths=max_paths, soft=("nested-strict",))


@prop("C06", "static words decode canonically", "for every static scalar type and an unknown word (data of unknown length) the outcome equals the "
      "specification: unique value or decoding error", ABSINT)
def c06(ctx):
    K = lambda k, T: k in ("accepts-padding", "accepts-bool", "value", "rejects", "rejects-InvalidPointer") and (T is None or not dyn(T))
    out = []
    for T in STATIC(ctx):
        for strict in (True, False):
            out.append(dscn([T], strict, K, f"{T[0]}"))
    for T in (U(8), N(16), BOOL, ADDRESS, B(3), FX(8, 1), UF(16, 2)):
        out.append(dscn([T], True, K, "bytearray", kind="bytearray"))
        for ts in ([U(256), T], [T, T], [TUP(T, BYTES)], [ARR(T, 2)], [ARR(T)], [BYTES, T]):
            out.append(dscn(ts, True, K, "nested", weight=2))
            if T in (U(8), BOOL):
                out.append(dscn(ts, False, K, "nested", weight=2))
    for T in STATIC(ctx):
        if T[0] in ("bytesM", "address") or T[1:] in ((8,), (256,), (8, 1), (256, 80)):
            for c in singles(ctx, T):
                for st in (True, False):
                    out.append(Scn(f"decode {tstr(T)} strict={st} word {decode.short(c)}", decode.concrete([T], [c], st), key=f"{T[0]}/word"))
    return out


def singles(ctx, T):
    """particular words of a static type"""
    if T[0] == "bytesM":
        return [(b + bytes(32))[:T[1]] for b in {(b + bytes(32))[:T[1]]: b for b in values.special_bytes()}.values()]
    if T[0] == "address":
        return [bytes(20), b"\xff" * 20, bytes(19) + b"\x01", b"\x01" + bytes(19), b"a" * 20, b"0x" + b"1" * 18, bytes(range(20))]
    lo, hi = bounds(T)
    vs = {0, 1, 2, hi, hi - 1, lo, lo + 1, hi // 2, 10, 100, 127, 128, 255} | ({-1, -2, -10} if lo < 0 else set()) | {k for c in ctx.consts for k in (c, -c)}
    return [Lin({}, v) for v in sorted(vs) if lo <= v <= hi]


@prop("C07", "bytes and string decode exactly", "for data of unknown content and length the decoded content equals the announced bytes; strict mode accepts only complete zero padding", ABSINT)
def c07(ctx):
    def K(k, T):
        if T is not None and T[0] in ("bytes", "string"):
            return k in ("value", "accepts-strpad", "accepts-insufficient", "accepts-utf8")
        return k in ("rejects",) or k == "value" and T is None
    out = []
    for T in (BYTES, STRING):
        for strict in (True, False):
            out.append(dscn([T], strict, K, T[0]))
            out.append(dscn([T], strict, K, T[0], kind="bytearray"))
        out.append(dscn([T], True, K, T[0], default=True))
        for ts in ([T, U(8)], [U(8), T], [T, T], [ARR(T)], [ARR(T, 2)], [TUP(T)], [TUP(U(8), T)], [TUP(T, U(8))], [ARR(TUP(T))], [TUP(ARR(T, 1))], [ARR(TUP(U(8), T), 1)]):
            out.append(dscn(ts, True, K, "nested", weight=3, cap=2))
    for T, cs in ((BYTES, values.special_bytes()), (STRING, values.special_text())):
        for i, c in enumerate(cs):
            for ts, ms in (([T], [c]), ([U(8), T], [Lin({}, 5), c]), ([ARR(T)], [[c, c]]), ([TUP(T, U(8))], [[c, Lin({}, 5)]])):
                st = ts == [T] or i % 2 == 0
                out.append(Scn(f"decode {tlist(ts)} content {ascii(c[:20])}x{len(c)}", decode.concrete(ts, ms, st), key=f"{T[0]}/content"))
            out.append(Scn(f"decode {T[0]} non-strict content {ascii(c[:20])}x{len(c)}", decode.concrete([T], [c], False, "bytearray" if i % 2 else "bytes"), key=f"{T[0]}/content"))
    for c in values.BAD_UTF8:
        for st in (True, False):
            out.append(Scn(f"decode string strict={st} malformed {c!r}", decode.concrete([STRING], [c], st, bad=True), key="string/malformed"))
    return out + pad_scns(ctx, lambda k, T: True) + pad_scns(ctx, lambda k, T: True, False, False)


def dec_lists(s, d):
    return [[t] for t in containers.shapes(s, d)] + containers.arg_lists(s, d, [TUP(s, d), ARR(d), ARR(s, 2)])


def heavy(ts):
    return sum(3 if t[0] == "arr" and t[2] is None else 1 for t in ts)


def opaque_dec(ctx, kinds, strict=True):
    out = []
    for ts in dec_lists(containers.OS, containers.OD) + [[containers.OW, containers.OD, containers.OS], [TUP(containers.OW, containers.OD)], [ARR(containers.OW), containers.OD], [ARR(TUP(containers.OW, containers.OD))]]:
        out.append(dscn(ts, strict, kinds, "opaque", cap=2, weight=10, opaque=True, max_s=60 if ctx.thorough else 12, max_paths=20000 if ctx.thorough else 600))
    return out


def real_dec(ctx, kinds, strict=True, leaves=((U(8), BYTES),), small=False):
    out = []
    for s, d in leaves:
        lists = dec_lists(s, d)
        if small:
            lists = lists[:24] + lists[-7:]
        for ts in lists:
            out.append(dscn(ts, strict, kinds, "real", cap=2, weight=10, max_s=60 if ctx.thorough else 8, max_paths=20000 if ctx.thorough else 250))
    return out


def long_dec(ctx, kinds):
    """arrays and tuples of many elements (around the integer constants of the source), data otherwise unknown"""
    out = []
    for n in ctx.counts(cap=300 if ctx.thorough else 100):
        if n > 3:
            for T in (ARR(containers.OS, n), ARR(containers.OD, n), TUP(*[containers.OS, containers.OD] * (n // 2))):
                out.append(dscn([T], True, kinds, "long", cap=n + 2, weight=n, opaque=True, max_paths=60, max_s=12, tame=True))
            for t in (containers.OS, containers.OD):
                out.append(Scn(f"decode {tstr(t)}[] with {n} elements", decode.scenario([ARR(t)], True, cap=n + 2, kinds=kinds, opaque=True, count=n, tame=True), key="long", weight=n, max_paths=60, max_s=12))
    return out


def nest(T, k):
    for _ in range(k):
        T = ARR(T)
    return T


def deep_dec(ctx, kinds):
    """canonical encodings of deeply nested and of very long containers"""
    out = []
    for k in ctx.depths():
        for nm, T in (("uint8" + "[]*", nest(U(8), k)), ("tuple/array", containers.depth(BYTES, k)), ("tuple", tupnest(TUP(U(8), BYTES), k))):
            out.append(Scn(f"decode canonical {nm} depth {k}", decode.canonical([T, U(8)], 1, kinds), key="deep", weight=k))
    for n in ctx.counts(cap=1100, newcap=4200):
        if n > 3:
            for T in (ARR(U(8)), ARR(U(8), n)) + ((ARR(BYTES), ARR(BYTES, n)) if n <= 300 or n - 1 not in USUAL and n not in USUAL and n + 1 not in USUAL and n < 1100 else ()):
                out.append(Scn(f"decode canonical {tstr(T)} of {n}", decode.canonical([T, U(8)], n, kinds, sym=0), key="long", weight=n, max_s=60))
    return out


def wide_dec(ctx, kinds, strict=True):
    out = []
    for n in ctx.wide():
        for label, ts, cnt in containers.wide(n, U(8), BYTES):
            out.append(Scn(f"decode wide {label}", decode.canonical(ts, cnt, kinds, sym=0, strict=strict), key="wide", weight=n, max_s=60))
    return out


def pad_scns(ctx, kinds, strict=True, nested=True):
    """one byte of padding of one string is not zero, in containers of every usual shape and of harvested sizes"""
    out = []
    for T in (BYTES, STRING):
        lists = [(tlist(ts), ts, 2) for ts in ([T], [T, U(8)], [U(8), T, T], [TUP(T)], [ARR(T)], [ARR(T, 2)], [TUP(U(8), T)], [ARR(TUP(U(8), T))], [TUP(ARR(T, 2), T)], [ARR(ARR(T))])]
        for n in ctx.wide():
            lists += [(l, ts, c) for l, ts, c in containers.wide(n, U(8), T)] + [(f"{tstr(T)}[] of {n}", [ARR(T), U(8)], n)]
        for k in ctx.depths():
            lists += [(f"depth {k}", [containers.depth(T, k)], 1), (f"array depth {k}", [nest(T, k)], 1), (f"tuple depth {k}", [tupnest(TUP(U(8), T), k)], 1)]
        for l, ts, c in lists:
            W = TUP(*ts)
            ps = [p for p in containers.paths(W, c) if containers.at(W, p) == T]
            for p in [ps[i] for i in sorted({0, len(ps) // 2, len(ps) - 1})]:
                if len(p) > 1 and not nested:
                    continue
                out.append(Scn(f"padding of {T[0]} at {p} in {l} strict={strict}", decode.padded(ts, c, p, strict, kinds), key="padding", max_s=60))
    return out


def tupnest(T, k):
    for _ in range(k):
        T = TUP(T, U(8))
    return T


@prop("C08", "container decoding follows offsets", "for data of unknown content the decoded structure equals the one the specification reads from the same data", ABSINT)
def c08(ctx):
    def K(k, T):
        return k in ("value", "rejects", "rejects-InvalidPointer")
    return opaque_dec(ctx, K) + real_dec(ctx, K) + long_dec(ctx, K) + deep_dec(ctx, K) + wide_dec(ctx, K)


@prop("C09", "offsets are validated", "an offset outside [end of heads, end of data) raises InvalidPointer, any other is not rejected as a pointer", ABSINT)
def c09(ctx):
    def K(k, T):
        return k in ("accepts-pointer", "pointer-class", "rejects-InvalidPointer")
    return opaque_dec(ctx, K) + real_dec(ctx, K, small=True) + long_dec(ctx, K) + deep_dec(ctx, K) + wide_dec(ctx, K)


@prop("C10", "truncated data are rejected", "no value is returned when a byte the type, offsets and length words call for lies beyond the end of the data", ABSINT)
def c10(ctx):
    def K(k, T):
        return k in ("accepts-insufficient", "insufficient-class")
    out = [dscn([T], st, K, "scalar") for T in STATIC(ctx) + [BYTES, STRING] for st in (True, False)]
    out += opaque_dec(ctx, K) + real_dec(ctx, K) + real_dec(ctx, K, strict=False, small=True) + long_dec(ctx, K)
    out += [dscn(ts, True, K, "empty") for ts in ([], [TUP(U(8), U(8))], [U(8)] * 3)]
    return out


@prop("C11", "only decoding errors", "no partition of unknown data makes decoding raise anything but DecodingError (or UnicodeDecodeError for text)", ABSINT)
def c11(ctx):
    def K(k, T):
        return k == "exception"
    out = [dscn([T], st, K, "scalar") for T in STATIC(ctx) + [BYTES, STRING] for st in (True, False)]
    out += real_dec(ctx, K) + real_dec(ctx, K, leaves=((FX(8, 1), STRING),), small=True) + real_dec(ctx, K, strict=False, small=True) + long_dec(ctx, K)
    return out


@prop("C14", "non-strict relaxes only padding", "the non-strict outcome equals the specification without the padding rule of bytes and string; strict is the default", ABSINT)
def c14(ctx):
    def K(k, T):
        return True
    out = [dscn([T], False, K, "scalar") for T in STATIC(ctx) if ctx.thorough or T[0] not in ("fixed", "ufixed") or T[1] in (8, 256) and T[2] in (1, 80)]
    out += [dscn([T], False, K, "dynamic") for T in (BYTES, STRING)] + [dscn([T, U(8)], False, K, "dynamic") for T in (BYTES, STRING)]
    out += [dscn([T], True, K, "default", default=True) for T in (BYTES, STRING, U(8), N(8), BOOL, ADDRESS, B(3), FX(8, 1), ARR(BYTES, 1), TUP(BYTES))]
    out += real_dec(ctx, K, strict=False, leaves=((U(8), BYTES),)) + real_dec(ctx, K, strict=False, leaves=((B(2), STRING),), small=True)
    out += pad_scns(ctx, K, False, False) + pad_scns(ctx, K) + wide_dec(ctx, K, False)
    return out


# ------------------------------------------------------------------------------------ agreement between parts
@prop("C12", "round trip", "decoding what was encoded succeeds and gives the model of the value, for every value class that encodes", ABSINT)
def c12(ctx):
    out = []
    for T in scalar_types(ctx):
        for c in values.cases(T):
            if c.legal or c.label.startswith(("neg-", "excess", "above", "below", "tiny", "too-long", "text", "int", "bytes", "max+1", "min-1", "surrogate")):
                out.append(Scn(f"roundtrip {tstr(T)} {c.label}", agree.roundtrip(T, c), key=f"{T[0]}/{c.label}"))
    for ts in [[t] for t in containers.shapes(U(8), BYTES)] + [[t] for t in containers.shapes(B(3), STRING)] + containers.arg_lists(U(8), STRING, [TUP(U(8), BYTES), ARR(BYTES), ARR(U(8), 2)]) + [
            [BOOL, ADDRESS, N(16), FX(8, 1), STRING, BYTES], [TUP(BOOL, ADDRESS, N(16), FX(8, 1), STRING, BYTES)], [ARR(ADDRESS)], [ARR(N(24), 2)], [ARR(UF(16, 3))]]:
        for n in ((0, 1, 2, 3) if has_dynarr(ts) else (2,)):
            out.append(Scn(f"roundtrip {tlist(ts)} count={n}", agree.roundtrip_list(ts, n), key="container", weight=4, max_paths=600))
    for k in ctx.depths():
        for T in (nest(U(8), k), containers.depth(BYTES, k)):
            out.append(Scn(f"roundtrip {tstr(T)[:40]} depth {k}", agree.roundtrip_list([T, U(8)], 1, sym=1), key="container", weight=k))
    for n in ctx.counts(cap=1100, newcap=4200):
        if n > 100:
            for T in (ARR(U(8)), ARR(U(8), n)) + ((ARR(BYTES),) if n < 300 else ()):
                out.append(Scn(f"roundtrip {tstr(T)} long {n}", agree.roundtrip_list([T, U(8)], n, sym=0), key="container", weight=n, max_s=60))
    for n in ctx.counts(cap=300 if ctx.thorough else 100):
        if n > 3:
            for T in (ARR(U(8)), ARR(BYTES), ARR(BYTES, n), ARR(U(8), n), TUP(*[U(8), BYTES] * (n // 2))):
                out.append(Scn(f"roundtrip {tstr(T)[:40]} count={n}", agree.roundtrip_list([T], n, sym=1), key="container", weight=n))
    for n in ctx.wide():
        for label, ts, cnt in containers.wide(n, U(8), BYTES):
            out.append(Scn(f"roundtrip wide {label}", agree.roundtrip_list(ts, cnt, sym=0), key="wide", weight=n, max_s=60))
    return out


@prop("C13", "is_encodable predicts encode", "on every partition is_encodable returns True iff encode succeeds, False iff it raises an encoding error, and never raises", ABSINT)
def c13(ctx):
    out = []
    for pk in (False, True):
        tag = "packed " if pk else ""
        for T in scalar_types(ctx):
            if not ctx.thorough and T[0] in ("fixed", "ufixed") and not (T[1] in (8, 128, 256) and T[2] in (1, 18, 80)):
                continue
            for c in values.cases(T):
                out.append(Scn(f"{tag}is_encodable {tstr(T)} {c.label}", agree.encodable(T, c, pk), key=f"{T[0]}/{c.label}"))
        for ts in FLAW_TYPES:
            for T in ts:
                if T[0] not in ("tuple", "arr"):
                    continue
                for p in containers.paths(T, 2):
                    X = containers.at(T, p)
                    flaws = containers.shape_flaws(X) if X[0] in ("tuple", "arr") else containers.leaf_flaws(X)
                    for label, b in flaws:
                        out.append(Scn(f"{tag}is_encodable {tstr(T)} flaw {label} at {p}", agree.encodable_flaw(T, p, b, pk), key=f"flaw/{label}"))
        for T in containers.shapes(U(8), BYTES):
            for n in (0, 1, 2, 3):
                out.append(Scn(f"{tag}is_encodable {tstr(T)} legal count={n}", agree.encodable_legal(T, n, pk), key="legal"))
                out.append(Scn(f"{tag}is_encodable {tstr(T)} Sequence count={n}", agree.encodable_legal(T, n, pk, seqwrap), key="legal"))
        for t in agree.BAD_TYPES:
            out.append(Scn(f"{tag}is_encodable bad type {t!r}", agree.encodable_bad_type(t, pk), key="bad-type"))
        for n in ctx.counts(cap=1100, newcap=20000):
            if n > 3:
                out.append(Scn(f"{tag}is_encodable uint8[] of {n}", agree.encodable_legal(ARR(U(8)), n, pk), key="legal", weight=n))
                for i in (0, n // 2, n - 1):
                    out.append(Scn(f"{tag}is_encodable uint8[] of {n} flaw at {i}", agree.encodable_flaw(ARR(U(8)), (i,), lambda S, v: S.int("big", 256, None), pk, n, 0), key="flaw/long", weight=n))
                for d in (-1, 1):
                    out.append(Scn(f"{tag}is_encodable uint8[{n}] with {n + d}", agree.encodable_flaw(ARR(U(8), n), (), lambda S, v, d=d, n=n: AList([1] * (n + d)), pk), key="flaw/long", weight=n))
        for n in ctx.wide():
            for ts, p, label, b in wide_flaws(n):
                if len(ts) == 1:
                    out.append(Scn(f"{tag}is_encodable wide {n} {tlist(ts)[:30]} flaw {label} at {p}", agree.encodable_flaw(ts[0], p[1:], b, pk, 2, 0), key="flaw/wide", weight=n))
            for label, ts, cnt in containers.wide(n, U(8), BYTES):
                if len(ts) == 1:
                    out.append(Scn(f"{tag}is_encodable wide {label}", agree.encodable_legal(ts[0], cnt, pk, sym=0), key="legal/wide", weight=n))
    for T, how in agree.CUSTOM:
        out.append(Scn(f"is_encodable custom {tstr(T)} {how}", agree.encodable_custom(T, how), key="custom"))
    return out


@prop("C24", "packed layout", "packed mode accepts the same value classes and concatenates minimal-width encodings", ABSINT)
def c24(ctx):
    K = lambda k: True
    out = scalar_scns(ctx, scalar_types(ctx), K, packed_=True)
    KL = lambda k: k in ("layout", "rejected-legal")
    for ts in [[t] for t in containers.shapes(U(8), BYTES)] + [[t] for t in containers.shapes(B(3), STRING)] + containers.arg_lists(N(16), STRING, [TUP(U(8), BYTES), ARR(BYTES), ARR(U(8), 2)]) + [
            [BOOL, ADDRESS, N(16), FX(8, 1), STRING, BYTES], [TUP(BOOL, ADDRESS, N(16), FX(8, 1), STRING, BYTES)], [ARR(ADDRESS)], [ARR(N(24), 2)], [ARR(UF(16, 3))], [ARR(BOOL)]]:
        for n in ((0, 1, 2, 3) if has_dynarr(ts) else (2,)):
            out.append(Scn(f"packed {tlist(ts)} count={n}", encode.container(ts, KL, n, packed_=True), key="container", weight=3))
            if n == 2:
                out.append(Scn(f"packed {tlist(ts)} Sequence", encode.container(ts, KL, n, packed_=True, wrap=seqwrap), key="container", weight=3))
    for n in ctx.counts():
        if n > 3:
            for T in (ARR(U(8)), ARR(BYTES), ARR(U(8), n), TUP(*[U(8), BYTES] * (n // 2))):
                out.append(Scn(f"packed {tstr(T)[:40]} count={n}", encode.container([T], KL, n, packed_=True, sym=1), key="container", weight=n))
    out += flaw_scns(ctx, lambda k: True, packed_=True) + wide_enc(ctx, KL, True)
    return out


@prop("C26", "independence of the decimal context", "no arithmetic on decimals is performed in the caller's context unless exact in every context, the package's own "
      "precision suffices for every result, and the caller's context is never written", ABSINT)
def c26(ctx):
    out = []
    for T in fixed_types(ctx):
        out.append(Scn(f"decimal {tstr(T)} decode", agree.decimal_decode(T), key="decode"))
        for c in values.numeric(T):
            out.append(Scn(f"decimal {tstr(T)} encode {c.label}", agree.decimal_encode(T, c), key=f"encode/{c.label}"))
            if c.legal and T[2] in (1, 18, 80):
                out.append(Scn(f"decimal {tstr(T)} packed {c.label}", agree.decimal_encode(T, c, True), key=f"packed/{c.label}"))
    out.append(Scn("decimal import-time effects", agree.decimal_import, key="import"))
    return out


@prop("C27", "argument containers", "types/args that are not list or tuple and data that are not bytes or bytearray raise TypeError; list/tuple and bytes/bytearray give the same result", ABSINT)
def c27(ctx):
    out = []
    for fname in ("encode", "encode_packed"):
        for lt, b in agree.ARG_KINDS:
            for la, b2 in agree.ARG_KINDS:
                for n in (0, 1, 2):
                    out.append(Scn(f"{fname} types={lt} args={la} n={n}", agree.args(fname, b, lt, b2, la, n), key=f"{fname}/{lt}/{la}"))
    for lt, b in agree.ARG_KINDS:
        for ld, bd in agree.DATA_KINDS:
            for n in (0, 1, 2):
                for st in (None, True, False):
                    out.append(Scn(f"decode types={lt} data={ld} n={n} strict={st}", agree.dargs(b, lt, bd, ld, n, st), key=f"decode/{lt}/{ld}"))
    for ts in ([U(8)], [BYTES], [ARR(U(8), 2), STRING], [TUP(U(8), BYTES)]):
        out.append(Scn(f"decode {tlist(ts)} bytes=bytearray", decode.scenario(ts, True, kind="bytearray", kinds=lambda k, T: True, cap=2), key="bytearray"))
    return out


# ------------------------------------------------------------------------------------ registries
LABELLED = [("uint", "uint8"), ("int", "int24"), ("address", "address"), ("bool", "bool"), ("ufixed", "ufixed8x1"), ("fixed", "fixed16x2"), ("bytes<M>", "bytes5"),
            ("bytes", "bytes"), ("function", "function"), ("byte", "byte"), ("string", "string"), ("has_arrlist", "uint8[]"), ("is_base_tuple", "(uint8)")]


@prop("C16", "unique match", "for every number of matching registrations (0..3, opaque matchers, every order, callable, object or class coders) a lookup returns the only "
      "match, raises NoEntriesFound or ParseError without one and MultipleEntriesFound with several", ABSINT)
def c16(ctx):
    import itertools
    out = []
    kinds = ("fun", "cls", "obj")
    for side in ("encoder", "decoder"):
        for n in (0, 1, 2, 3):
            for ks in itertools.product(kinds, repeat=n):
                if n == 3 and not ctx.thorough and len(set(ks)) == 2:
                    continue
                for sd in (range(3) if n < 3 or ctx.thorough else (0,)):
                    for base, q, nat, ps in (("empty", "foo", 0, "ok"), ("empty", "foo[", 0, "bad"), ("std", "uint8", 1, "ok"), ("std", "foo", 0, "ok"), ("std", "()", 0, "bad"),
                                             ("std", "bytes", 1, "ok"), ("std", "uint8[]", 1, "ok"), ("std", "(uint8,bytes)", 1, "ok"), ("std", "bytes4", 1, "ok")):
                        if n == 3 and nat and q != "uint8":
                            continue
                        out.append(Scn(f"{side} {base} {q} {'/'.join(ks)} order {sd}", registry.unique(base, q, side, ks, sd, nat, ps), key=f"{side}/unique"))
        for T in ("foo[]", "foo[2]", "(foo)", "(uint8,foo)", "(foo[],foo)", "((foo),uint8)[]", "foo[][2]"):
            out.append(Scn(f"{side} nested {T}", registry.nested_unique(T, side), key=f"{side}/nested"))
        for l in registry.LOOKS:
            out.append(Scn(f"{side} documented lookups {registry.show_look(l)}", registry.documented(l, side, ctx.thorough), key=f"{side}/documented", weight=3))
            for base in ("std", "packed")[:2 if side == "encoder" else 1]:
                if l[0] == "str" and l[1] not in [x for x, _ in LABELLED] or l[:2] == ("base", "foo"):
                    if base == "std" or l[1] in ("foo", "uint256", "bytes32", "uint8[]", "(uint8)"):
                        out.append(Scn(f"{side} {registry.show_look(l)} on the {base} registry", registry.on_top(base, l, side), key=f"{side}/on-top", weight=3))
    for base in ("std", "packed"):
        for t in [t for _, t in LABELLED] + ["uint256", "int", "fixed", "bytes32", "string[]", "(bytes,uint8[])[2]", "uint", "ufixed", "bytes1"]:
            for side in ("encoder", "decoder")[:2 if base == "std" else 1]:
                out.append(Scn(f"{side} built-in {base} {t}", registry.builtin_unique(base, t, side), key=f"{side}/builtin"))
    for n in (0, 1, 2, 3):
        for q in ("foo", "uint8", "foo[]"):
            out.append(Scn(f"strategy {q} x{n}", registry.strategy_unique(n, q), key="strategy/unique"))
    return out


@prop("C17", "changes are seen at once", "after every history lookup, change, lookup, change each lookup equals the one of a model that keeps no cache", ABSINT)
def c17(ctx):
    out = []
    for side in ("encoder", "decoder", "both"):
        for first in [None] + registry.lookups(side):
            out.append(Scn(f"{side}: first {first}", registry.fresh(side, first, 2, ctx.thorough), key=side, weight=5, max_s=200 if ctx.thorough else 60, max_paths=100000))
    for n in ctx.wide():
        for side in ("encoder", "decoder"):
            out.append(Scn(f"{side}: {n} lookups before the change", registry.many(n, side), key=f"{side}/many", weight=n, max_s=60))
    for base in ("std", "packed"):
        for label, t in LABELLED:
            if label in ("bytes<M>", "bytes", "byte", "function"):
                continue
            others = [t, f"{t}[]" if label != "has_arrlist" else "(uint8[],bool)", f"(bool,{t})" if label != "is_base_tuple" else "(uint8)[]"]
            if label == "bool":
                others = [t, "bool[2]", "(uint8,bool)"]
            out.append(Scn(f"built-in {base} {label}", registry.fresh_builtin(base, label, t, others), key="builtin"))
    return out


@prop("C18", "isolation of copies", "for every history with a copy in the middle (copy(), copy.copy, copy.deepcopy), changes on one side never show on the other", ABSINT)
def c18(ctx):
    out = []
    for side in ("encoder", "decoder", "both"):
        for how in (0, 1, 2):
            out.append(Scn(f"{side} copy kind {how}", registry.isolated(side, how, full=ctx.thorough), key=side, weight=5, max_s=200 if ctx.thorough else 100, max_paths=100000))
            for base in ("empty", "packed"):
                out.append(Scn(f"{side} copy kind {how} of {base}", registry.isolated(side, how, base=base, full=ctx.thorough), key=f"{side}/{base}", weight=5, max_s=200 if ctx.thorough else 100, max_paths=100000))
    for base in ("std", "packed"):
        for how in (0, 1, 2):
            for _, t in LABELLED:
                for side in ("encoder", "decoder")[:2 if base == "std" else 1]:
                    out.append(Scn(f"copy {how} of {base}: {side} {t}", registry.copy_same(base, how, t, side), key="same"))
    for n in ctx.wide():
        for side in ("encoder", "decoder"):
            for how in (0, 1, 2):
                out.append(Scn(f"{side}: {n} lookups before copy {how}", registry.many(n, side, how), key=f"{side}/many", weight=n, max_s=60))
    for label, t in LABELLED:
        if label not in ("bytes<M>",):
            out.append(Scn(f"built-in registries, {label}", registry.modules_isolated(label, t), key="modules"))
    return out


@prop("C19", "labels and matchers", "every history of 3 additions and removals, each followed by a probe, behaves like a model with one table of matchers and one of labels", ABSINT)
def c19(ctx):
    out = []
    ops = [("add", p, l) for p in registry.PREDS[::2] for l in registry.LABELS[:2]] + [("rmeq", "e1"), ("rml", "x")]
    for target in ("mapping", "encoder", "decoder", "strategy"):
        for f in ops:
            out.append(Scn(f"{target}: {f}", registry.labels(target, f, 4 if ctx.thorough else 3), key=target, weight=5, max_s=300 if ctx.thorough else 60, max_paths=200000))
        for what, mk in (("None", lambda S: None), ("int", lambda S: 5), ("bytes", lambda S: b"x"), ("list", lambda S: AList(["x"])), ("tuple", lambda S: ("x",))):
            out.append(Scn(f"{target}: key {what}", registry.bad_keys(target, what, mk), key=f"{target}/bad-key"))
        if target != "mapping":
            out.append(Scn(f"{target}: string lookup", registry.string_lookup(target), key=f"{target}/string"))
    return out


# ------------------------------------------------------------------------------------ histories and effects
@prop("C15", "strictness is per call", "in every history of 3 calls (types sharing decoders, class and ready-made decoders, copies of the registry) each call has the outcome "
      "it has as a first call, and top-level bytes are checked exactly when the call is strict", ABSINT)
def c15(ctx):
    out = []
    groups = [["T", "T[]"], ["T", "(T)"], ["T", "(uint8,T)[]"], ["T", "(T[],T)"], ["T", "T[1]"]]
    for elem in ("bytes", "string", "objb", "objs", "objn", "clsb"):
        for g in groups if ctx.thorough or elem in ("bytes", "objb", "objn") else groups[:2]:
            n = len(effects.strict_calls(elem, g))
            for first in range(n):
                out.append(Scn(f"{elem} {' '.join(g)} first call {first}", None, key=elem, direct=effects.strict_history(elem, g, 3, 1, first)))
        for n in ctx.counts(cap=40, newcap=300):
            if n > 1 and (elem in ("bytes", "objb", "string") or n < 5):
                out.append(Scn(f"{elem} lists of {n} arguments", None, key=elem, direct=effects.strict_history(elem, [f"same*{n}", f"last*{n}"], 3 if n < 5 else 2, 1)))
        out.append(Scn(f"{elem} with a copy of the registry", None, key=elem, direct=effects.strict_history(elem, ["T", "T[]"], 2, 2), weight=3))
    return out


EFFECT_TYPES = [[U(8)], [N(256)], [BOOL], [ADDRESS], [B(4)], [BYTES], [STRING], [FX(8, 1)], [UF(128, 18)], [ARR(U(8))], [ARR(BYTES, 2)], [TUP(U(8), BYTES)], [ARR(TUP(U(8), STRING))],
                [U(8), BYTES, ARR(N(16), 2)], [TUP(ARR(U(8)), TUP(BOOL, STRING))], [ARR(ARR(ADDRESS))], [ARR(ARR(FX(16, 2), 2))]]


# type, contents of a mutable value before and after the caller changes it
MUTATED = [("uint8[]", [1, 2], [3]), ("uint8[]", [], [1]), ("uint8[2]", [1, 2], [2, 1]), ("(uint8,bool)", [1, True], [2, False]), ("bytes", b"abc", b"x"), ("bytes4", b"ab", b"cd"), ("bytes[]", [b"a"], [b"b", b""]),
           ("string[]", ["a"], ["b"]), ("(uint8[],bytes)", [[1], b"a"], [[2, 3], b""]), ("fixed8x1[]", [1], [2]), ("uint8[][]", [[1], [2]], [[3]]), ("uint8[]", [1], [256]), ("uint8[]", [256], [1])]


@prop("C25", "no side effects", "once lookups are memoised no call writes to the caller's arguments, coder, registry or parsed-type objects, classes, modules or the decimal context; "
      "every call has the outcome it has as a first call, also when made inside another one", ABSINT)
def c25(ctx):
    out = []
    for ts in EFFECT_TYPES:
        for kind in ("encode", "packed", "is_encodable", "is_encodable_packed"):
            if kind.startswith("is_") and len(ts) > 1:
                continue
            for n in (0, 2):
                out.append(Scn(f"{kind} {tlist(ts)} count={n}", effects.effects(kind, ts, n), key=kind))
            out.append(Scn(f"{kind} {tlist(ts)} mutable contents", effects.effects(kind, ts, 2, mut="contents"), key=kind))
        for st in (True, False):
            out.append(Scn(f"decode {tlist(ts)} strict={st}", effects.effects("decode", ts, strict=st), key="decode", max_paths=150, max_s=6))
        out.append(Scn(f"decode {tlist(ts)} bytearray", effects.effects("decode", ts, mut="bytearray"), key="decode", max_paths=150, max_s=6))
    for T in [U(8), N(256), BOOL, ADDRESS, B(4), BYTES, STRING, FX(8, 1), UF(128, 18)]:
        for c in values.cases(T):
            for kind in ("encode", "packed", "is_encodable"):
                out.append(Scn(f"{kind} {tstr(T)} {c.label}", effects.effects(kind, [T], case=c), key=f"{kind}/case"))
    for kind in ("encode", "packed", "decode"):
        out.append(Scn(f"{kind} list of types", effects.types_arg(kind), key="types"))
    for kind in ("encode", "packed"):
        for i in range(len(effects.FAILING)):
            out.append(Scn(f"{kind} failing call {i}", effects.failing(kind, i), key="failing"))
    for i in range(len(effects.FAILING_DATA)):
        for st in (True, False):
            out.append(Scn(f"decode failing call {i} {st}", effects.failing_decode(i, st), key="failing"))
    for t in ("T", "T[]", "(T)", "T[1]", "(uint8,T)[]", "(T[],T)"):
        for e in ("objb", "objs", "objn"):
            for st in (True, False):
                out.append(Scn(f"registered objects {t} {e} {st}", effects.registered_objects(st, t.replace("T", e), e), key="registered"))
    from decimal import Decimal as Dc
    one = lambda x: (lambda S: AList([x]))
    lst = lambda x: (lambda S: AList([AList([x])]))
    tup = lambda x: (lambda S: AList([(x,)]))
    nums = [1, True, Dc(1), 0, False, Dc(0), -1, "1"]
    for kind in ("encode", "packed", "is_encodable"):
        for T in ("uint8", "int8", "bool", "ufixed8x1", "fixed8x1"):
            out.append(Scn(f"independent {kind} {T}", None, key="history", direct=effects.independent([(kind, [T], one(x)) for x in nums], kind)))
            out.append(Scn(f"independent {kind} {T}[]", None, key="history", direct=effects.independent([(kind, [T + "[]"], lst(x)) for x in nums] + [(kind, [T], one(x)) for x in nums[:2]], kind)))
            out.append(Scn(f"independent {kind} ({T})", None, key="history", direct=effects.independent([(kind, [f"({T})"], tup(x)) for x in nums] + [(kind, [T], one(x)) for x in nums[:2]], kind)))
        out.append(Scn(f"independent {kind} across types", None, key="history", direct=effects.independent(
            [(kind, [T], one(x)) for T in ("uint8", "uint16", "int8", "bool", "fixed8x1", "ufixed16x2") for x in nums[:3]], kind)))
        out.append(Scn(f"independent {kind} text and bytes", None, key="history", direct=effects.independent(
            [(kind, [T], one(x)) for T in ("bytes", "string", "bytes4", "bytes1", "address") for x in (b"a", "a", b"", "", "0x" + "11" * 20, b"\x11" * 20)], kind)))
        out.append(Scn(f"independent {kind} containers", None, key="history", direct=effects.independent(
            [(kind, [T], mk) for T in ("uint8[]", "uint8[2]", "(uint8,uint8)", "bool[]", "(bool,bool)", "uint16[]") for mk in
             (lambda S: AList([AList([1, 0])]), lambda S: AList([(1, 0)]), lambda S: AList([(True, False)]))], kind)))
    word1 = (1).to_bytes(32, "big")
    out.append(Scn("independent decode", None, key="history", direct=effects.independent(
        [("decode", [T], lambda S, d=d: d) for T in ("uint8", "bool", "int8", "bytes32", "bytes1", "ufixed8x1", "fixed8x2", "address") for d in (word1, bytes(32), word1 + word1)], "decode")))
    out.append(Scn("independent decode dynamic", None, key="history", direct=effects.independent(
        [("decode", [T], lambda S, d=d: d) for T in ("bytes", "string", "uint8[]", "bool[]", "(uint8[])", "uint8[1]") for d in
         ((32).to_bytes(32, "big") + word1 + word1, (32).to_bytes(32, "big") + word1 + b"\x01" + bytes(31), (32).to_bytes(32, "big") + bytes(32))], "decode")))
    for kind in ("encode", "packed", "is_encodable"):
        for T, a, b in MUTATED:
            out.append(Scn(f"{kind} {T} changed between calls", effects.changed_between(kind, T, a, b), key="history"))
    out.append(Scn("decode changed between calls", effects.changed_data, key="history"))
    for kind in ("encode", "packed", "decode"):
        out.append(Scn(f"re-entrant {kind}", effects.reentrant(kind), key="re-entrant"))
    return out


# ------------------------------------------------------------------------------------ type strings
@prop("C20", "type strings parse exactly", "on every short text over the grammar's characters, every sequence of up to 3 tokens and every one-character mutation of long valid strings the parser "
      "accepts what an independent recogniser accepts and reports the same structure; string form, item type and equality follow", ABSINT)
def c20(ctx):
    out = [Scn(f"parse batch {i} ({b[0]!r}..)", typestr.parsing(b), key="parse") for i, b in enumerate(typestr.chunks(typestr.strings(ctx.thorough), 150))]
    out += [Scn(f"parse depth {n}", typestr.parsing(typestr.deep(n)), key="parse") for n in list(range(2, 12)) + [20, 30] + [c for c in ctx.counts(64) if c > 11]]
    for n in sorted({*ctx.counts(cap=300, newcap=4200), 100, 1000, 2000}):
        if n > 3:
            out.append(Scn(f"parse numbers of {n} digits", typestr.parsing(typestr.digits(n)), key="parse"))
    for n in ctx.wide():
        if n > 64:
            out.append(Scn(f"parse depth {n}", typestr.parsing(typestr.deep(n) if n < 150 else typestr.flat(n)), key="parse", max_s=60))
    for ns in typestr.chunks(ctx.sizes(), 6):
        out.append(Scn(f"parse numbers around constants {ns[0]}..", typestr.parsing([x for n in ns for x in typestr.numbers(n)]), key="parse"))
    for what, mk in (("None", lambda S: None), ("int", lambda S: 8), ("bytes", lambda S: b"uint8"), ("bytearray", lambda S: effects.ABytearray(b"uint8")), ("list", lambda S: AList(["uint8"])),
                     ("tuple", lambda S: ("uint8",)), ("object", lambda S: S.I.call(S.h("Plain"), [], {})), ("float", lambda S: 1.5), ("bool", lambda S: True)):
        out.append(Scn(f"parse {what}", typestr.parse_non_text(what, mk), key="non-text"))
    eq = [s for s in typestr.VALID if len(s) < 30] + ["b", "(b)", "uint256", "uint8[]", "uint8[1]", "uint8[2]", "(uint8)[]", "(uint8)", "(a,b)[2]", "(b,a)", "(a,b,c)", "((a,b),c)", "(a,(b,c))", "fixed12x818",
                                                  "fixed128x1", "fixed1x28", "a[1][2]", "a[2][1]", "a[12]", "a[][]", "a[]"]
    out.append(Scn("equality", typestr.equality(list(dict.fromkeys(eq))), key="equality"))
    return out


@prop("C21", "only valid types get coders", "for every basic type string of a table spanning all widths, and every nesting context, encoders and decoders exist exactly when the type is valid; "
      "otherwise a ValueError or ParseError is raised and the type is reported as not encodable", ABSINT)
def c21(ctx):
    bs = typestr.basics(ctx.thorough)
    out = []
    for base in ("std", "packed"):
        for i, b in enumerate(typestr.chunks(bs, 40)):
            out.append(Scn(f"{base} top level {i} ({b[0]}..)", typestr.coders(b, base, ["T"]), key=f"{base}/top"))
        near = [b for b in bs if ctx.thorough or not typestr.re.match(r"u?fixed", b) or b in ("fixed", "ufixed") or typestr.re.match(r"u?fixed(8|7|256|264)x(1|80|81)$", b)]
        near = [b for b in near if ctx.thorough or not typestr.re.match(r"u?int\d+$", b) or int(typestr.re.sub(r"\D", "", b)) in (0, 1, 7, 8, 9, 12, 16, 128, 248, 255, 256, 257, 264, 512)]
        for i, b in enumerate(typestr.chunks(near, 12)):
            out.append(Scn(f"{base} nested {i} ({b[0]}..)", typestr.coders(b, base, typestr.CONTEXTS[1:]), key=f"{base}/nested", weight=3))
        out.append(Scn(f"{base} tuples", typestr.coders(["()", "(())", "(uint8", "uint8)", "(uint8,)", "(,uint8)", "uint8,uint8", "", " ", "uint8 ", "[]", "[2]", "uint8[0]", "uint8[-1]", "uint8[02]", "uint8[a]",
                                                    "uint8]", "uint8[", "(uint8)(uint8)", "(uint8)8", "()[]", "uint8()", "[uint8]", "uint8[2"], base, ["T"]), key=f"{base}/tuples"))
    for i, b in enumerate(typestr.chunks([b for b in bs if not typestr.legal(typestr.recognise(b))], 60)):
        out.append(Scn(f"calls with invalid types {i} ({b[0]}..)", typestr.api_types(b if ctx.thorough else b[::3]), key="calls"))
    return out


@prop("C22", "aliases", "with an abstract value or unknown data each alias has the outcome of its canonical type in every context and function; normalisation equals whole-word replacement", ABSINT)
def c22(ctx):
    out = [Scn(f"normalise batch {i}", typestr.normalise(b), key="normalise") for i, b in enumerate(typestr.chunks(typestr.norm_strings(), 60))]
    for a, T in typestr.CANON.items():
        for n in ctx.counts(cap=60, newcap=300):
            if n > 1:
                out.append(Scn(f"{a} in long types, {n}", typestr.normalise([f"({','.join([a] * n)})", a + "[2]" * n, "(" * n + a + ")" * n, "(" + "bool," * n + a + ")", f"({a + ','}{','.join(['int', 'uint'] * n)})",
                                                                             "(" + "string[]," * n + f"({a}))[]", "x" * n + a, a + "x" * n, a + "1" * n]), key="normalise"))
                out.append(Scn(f"coders of {a} in long types, {n}", typestr.alias_long(a, n), key=f"{a}/coders"))
        for c in values.cases(T):
            out.append(Scn(f"{a} {c.label}", typestr.alias_encode(a, "T", lambda S, c=c: c.build(S)[0], c.label), key=f"{a}/scalar"))
        for cx, TT in (("T[]", ARR(T)), ("T[2]", ARR(T, 2)), ("(T)", TUP(T)), ("(uint8,T)", TUP(U(8), T)), ("(T,bytes)[]", ARR(TUP(T, BYTES))), ("(T[3],string)", TUP(ARR(T, 3), STRING)), ("T[][1]", ARR(ARR(T), 1)),
                       ("((T),T)", TUP(TUP(T), T))):
            out.append(Scn(f"{a} in {cx}", typestr.alias_encode(a, cx, lambda S, TT=TT: compound1(S, TT), cx), key=f"{a}/nested"))
            out.append(Scn(f"{a} in {cx} bad value", typestr.alias_encode(a, cx, lambda S, TT=TT: AList([AList([None])]), cx), key=f"{a}/nested"))
        for cx in typestr.CONTEXTS:
            for st in (True, False):
                out.append(Scn(f"decode {a} in {cx} strict={st}", typestr.alias_decode(a, cx, st), key=f"{a}/decode", max_paths=150, max_s=6))
            out.append(Scn(f"coders of {a} in {cx}", typestr.alias_api(a, cx), key=f"{a}/coders"))
    return out


def compound1(S, T):
    S.symmax = 2
    return values.compound(T, S, "v", 2)[0]


@prop("C23", "dynamism agrees", "for every type string of a table of nested shapes the parsed type, the encoder and the decoder report the dynamism the specification gives", ABSINT)
def c23(ctx):
    out = [Scn(f"batch {i} ({b[0]}..)", typestr.dynamic(b), key="types") for i, b in enumerate(typestr.chunks(typestr.dyn_types(ctx.thorough), 20))]
    for n in ctx.wide(300):
        for i, b in enumerate(typestr.chunks(typestr.wide_types(n), max(1, 200 // n))):
            out.append(Scn(f"wide {n} batch {i}", typestr.dynamic(b), key="wide", weight=n, max_s=60))
    for n in ctx.sizes():
        out.append(Scn(f"array size {n}", typestr.dynamic([f"uint8[{n}]", f"bytes[{n}]", f"(uint8,bytes)[{n}]", f"(uint8[{n}],bool)", f"uint8[{n}][2]", f"uint8[2][{n}]", f"uint8[{n}][]", f"uint8[][{n}]", f"(bool,string[{n}])", f"(uint8)[{n}]"]), key="size"))
    for k in ctx.depths(12, 12, 120):
        for leaf in ("uint8", "bytes"):
            for i, x in enumerate(("(" * k + leaf + ")" * k, leaf + "[2]" * k, "(uint8," * k + leaf + ")" * k)[:3 if k < 45 else 2]):
                out.append(Scn(f"depth {k} {leaf} {i}", typestr.dynamic([x]), key="depth", weight=k))
    for side in ("encoder", "decoder"):
        for decl in (True, False):
            for cx in ["T", "T[]", "T[2]", "(T)", "(uint8,T)", "(T,uint8)", "(T,bytes)", "((T))", "(uint8,(T)[2])", "T[2][2]", "T[2][]", "(T[2],uint8)[3]"]:
                out.append(Scn(f"custom {side} dynamic={decl} {cx}", typestr.dynamic_custom(decl, side, cx, "cls"), key="custom"))
    return out


# ------------------------------------------------------------------------------------ extensions
@prop("C28", "value strategies", "every abstract element of the strategy of a valid type is encodable, and for numeric, bool, address and bytesM types the extreme, middle and odd values are reached", ABSINT)
def c28(ctx):
    out = []
    for T in scalar_types(ctx):
        out.append(Scn(f"strategy {tstr(T)}", None, key=T[0], direct=custom.strategy(T, full=T != STRING)))
    for a, T in typestr.CANON.items():
        out.append(Scn(f"strategy {a}", None, key="alias", direct=custom.strategy(T, a)))
        out.append(Scn(f"strategy {a}[2]", None, key="alias", direct=custom.strategy(ARR(T, 2), f"{a}[2]", False)))
        out.append(Scn(f"strategy ({a},bool)", None, key="alias", direct=custom.strategy(TUP(T, BOOL), f"({a},bool)", False)))
    for T in containers.shapes(U(8), BYTES) + containers.shapes(FX(8, 1), STRING)[:20] + [TUP(ADDRESS, B(3), BOOL, N(16)), ARR(ADDRESS), ARR(BOOL, 3), ARR(B(32), 2), TUP(UF(16, 2), ARR(FX(8, 80)))] + \
            [ARR(U(8), n) for n in ctx.counts(40) if n > 3]:
        out.append(Scn(f"strategy {tstr(T)[:60]}", None, key="container", direct=custom.strategy(T, full=False)))
    out.append(Scn("strategies of unknown types", custom.strategy_invalid(["foo", "", "foo[]", "(foo)", "uint8[", "()", "bool8", "string1", "address20"]), key="invalid"))
    return out


@prop("C29", "custom coders", "a coder registered as callable, object or class is used at top level and in every compound shape: layout and decoded structure equal the specification with an opaque leaf, "
      "refusals are reported, coder classes receive the element's type string and registry, unknown settings are refused", ABSINT)
def c29(ctx):
    out = []
    K = lambda k: True
    for st, dy in (("cfun", "dfun"), ("cobj", "dobj"), ("ccls", "dcls"), ("cduck", "dduck")):
        s, d = OP(st, 32), OP(dy)
        lists = [[s], [d], [s, d], [d, s, U(8)]] + [[t] for t in containers.shapes(s, d)[::1 if ctx.thorough else 2]] + [[TUP(U(8), s)], [ARR(TUP(s, BYTES))], [TUP(BYTES, ARR(s, 2))], [ARR(TUP(d, STRING), 2)]]
        for ts in lists:
            for n in ((0, 1, 2) if has_dynarr(ts) else (2,)):
                out.append(Scn(f"encode {tlist(ts)} count={n}", encode.container(ts, K, n, opaque=True), key=f"{st}/encode"))
            for strict in (True, False):
                if strict or ctx.thorough or len(ts) > 1:
                    out.append(dscn(ts, strict, lambda k, T: k not in ("nested-strict",), f"{st}/decode", cap=2, weight=8, opaque=True, max_s=40 if ctx.thorough else 6, max_paths=8000 if ctx.thorough else 150))
        for T in (s, ARR(s), ARR(s, 2), TUP(s), TUP(U(8), s), ARR(TUP(s, U(8))), TUP(ARR(s, 1), s), ARR(ARR(s, 2), 1)):
            out.append(Scn(f"refusal {tstr(T)}", custom.refuse(T, st), key=f"{st}/refusal"))
    for side in ("encoder", "decoder"):
        for leaf, by in (("foo", "str"), ("foo8", "str"), ("foo8", "base"), ("foo12x3", "base"), ("foo", "base")):
            for cx in ("T", "T[]", "T[2]", "(T)", "(uint8,T)", "(T,bytes)[]", "((T))", "T[][3]", "(T[2],T)"):
                out.append(Scn(f"{side} class of {leaf} by {by} in {cx}", custom.received(cx, leaf, side, by), key=f"{side}/received"))
        out.append(Scn(f"user {side} settings", custom.user_settings(side), key="settings"))
    for m in ("eth_abi.encoding", "eth_abi.decoding"):
        out.append(Scn(f"settings of {m}", custom.settings(m), key="settings"))
    return out


# ------------------------------------------------------------------------------------ types, stream, causes, factories, settings
@prop("C31", "parsed types validate exactly", "for every basic type of a table spanning all sizes, at top level and in every nesting context, validation of the parsed type and of its item type raises ABITypeError exactly "
      "when some part has a size its base does not allow", ABSINT)
def c31(ctx):
    bs = list(dict.fromkeys(typestr.basics(True) + typestr.sized(ctx.consts)))
    bs = [b for b in bs if typestr.recognise(b)]
    out = [Scn(f"top level {i} ({b[0]}..)", extra.validation(b, ["T", "T[]", "(T)"]), key="top") for i, b in enumerate(typestr.chunks(bs, 80))]
    near = bs if ctx.thorough else [b for b in bs if not typestr.re.match(r"u?(int|fixed)[0-9]", b) or typestr.re.sub(r"^u?[a-z]+", "", b) in
                                    ("1", "7", "8", "9", "12", "128", "255", "256", "257", "264", "512", "8x1", "8x80", "8x81", "7x1", "256x80", "256x81", "264x1", "128x18", "256x8", "8x0")]
    for i, b in enumerate(typestr.chunks(near, 20)):
        out.append(Scn(f"nested {i} ({b[0]}..)", extra.validation(b, typestr.CONTEXTS[1:] + ["T[2][3]", "(foo,T)[][2]", "(T,uint7)", "(uint7,T)", "(bool,(string,(T)))", "(foo[],T,foo)"]), key="nested"))
    for n in ctx.counts(cap=40, newcap=300):
        if n > 1:
            for a in ("uint7", "uint8", "fixed8x81", "bytes33", "foo"):
                out.append(Scn(f"{a} in long types, {n}", extra.validation([a], ["T" + "[2]" * n, "(" * n + "T" + ")" * n, "(" + "bool," * n + "T)", "(T" + ",bool" * n + ")", "((T)" + ",(bool)" * n + ")[]", "(" + "bool," * n + "(T))", "(" + "bool," * n + "T[])", "((T)" + ",bool" * n + ")", "(bool,(" + "bool," * n + "T))"]), key="long"))
    return out


@prop("C32", "frames of the decoding stream", "for every sequence of up to five stream operations with unknown offsets and sizes over data of unknown length, and for long nestings, cursor and bytes read are those of the "
      "specified frame stack", ABSINT)
def c32(ctx):
    out = [Scn(", ".join(p), extra.stream(p), key=p[0], max_paths=600, max_s=10) for p in extra.programs(6 if ctx.thorough else 5)]
    for n in ctx.counts(cap=40, newcap=300):
        if n > 3:
            for name, p in (("nested", ("push",) * n), ("nested reads", ("push", "read") * n), ("pushes and pops", ("push", "read", "pop") * n), ("seeks", ("push", "seek") * n + ("pop", "read") * (n - 1)),
                            ("refill", ("push",) * n + ("pop",) * n + ("push", "read") * n)):
                out.append(Scn(f"{name} x{n}", extra.stream(p, fix=(7, 0, 3, 32, 64, 1)), key="long"))
    return out


@prop("C33", "causes of rejection", "for every illegal value class, at top level and at every position of a container, the error raised is of the class documented for the cause", ABSINT)
def c33(ctx):
    out = []
    fx = [T for T in fixed_types(ctx) if ctx.thorough or T[1] in (8, 128, 256) and T[2] in (1, 2, 18, 79, 80)]
    for packed_ in (False, True):
        pk = "packed " if packed_ else ""
        for T in int_types(ctx) + fx + bytes_types() + [BOOL, ADDRESS, BYTES, STRING]:
            for c in values.cases(T):
                if c.legal is False:
                    out.append(Scn(f"{pk}{tstr(T)} <- {c.label}", extra.scalar_cause(T, c, packed_), key=f"{T[0]}/{c.label}"))
        for ts in FLAW_TYPES:
            T = TUP(*ts)
            for p in containers.paths(T):
                if not p:
                    continue
                t = containers.at(T, p)
                fl = containers.shape_flaws(t) if t[0] in ("tuple", "arr") else containers.leaf_flaws(t)
                for label, b in fl:
                    out.append(Scn(f"{pk}{tlist(ts)} flaw {label} at {p}", extra.nested_cause(ts, p, b, label, extra.flaw_cause(t, label), packed_), key=f"flaw/{label}"))
            for n in {0, len(ts) - 1, len(ts) + 1, len(ts) + 3} - {len(ts)}:
                out.append(Scn(f"{pk}{tlist(ts)} with {n} values", extra.arity_cause(ts, n, packed_), key="arity"))
        for n in ctx.counts():
            if n:
                for d in (-1, 1):
                    out.append(Scn(f"{pk}uint8[{n}] with {n + d}", extra.nested_cause([ARR(U(8), n)], (0,), lambda S, v, d=d, n=n: AList([1] * (n + d)), f"{n + d} elements", {extra.V_}, packed_), key="flaw/long"))
                out.append(Scn(f"{pk}uint8[] of {n} last too big", extra.nested_cause([ARR(U(8))], (0, n - 1), lambda S, v: S.int("big", 256, None), "too-big", {extra.V_}, packed_, n, 0), key="flaw/long"))
                out.append(Scn(f"{pk}bytes[] of {n} last None", extra.nested_cause([ARR(BYTES)], (0, n - 1), lambda S, v: None, "None", {extra.T_}, packed_, n, 0), key="flaw/long"))
    return out


@prop("C34", "coder factories", "for every type string of a table the decorated factory runs, with the parsed normalised type, exactly when the string is a valid type of the declared base and shape", ABSINT)
def c34(ctx):
    ss = extra.factory_strings()
    ss += [x for n in ctx.sizes() for x in (f"uint8[{n}]", f"(uint8,bytes)[{n}]", f"bytes[2][{n}]") if x not in ss]
    out = []
    for name in extra.DECOS:
        for i, b in enumerate(typestr.chunks(ss, 40)):
            out.append(Scn(f"decorated for {name} {i} ({b[0]!r}..)", extra.decorated(name, b), key=f"decorated/{name}"))
    for cname, mod, fam in extra.builtin_classes():
        for i, b in enumerate(typestr.chunks(ss, 80)):
            out.append(Scn(f"{cname} {i} ({b[0]!r}..)", extra.factory(cname, mod, fam, b), key=cname))
    return out


@prop("C35", "coder settings", "coders built directly from every table entry of unusable settings raise ValueError; built from usable settings they encode abstract values and decode unknown data as specified for the type", ABSINT)
def c35(ctx):
    out = [Scn(f"{c}({kw})" if not any(v is extra.ITEM for v in kw.values()) else f"{c}({', '.join(kw)})", extra.unbuildable(c, m, kw), key=f"unusable/{c}") for c, m, kw in extra.bad_settings()]
    fx = [T for T in fixed_types(ctx) if ctx.thorough or T[1] in (8, 128, 256) and T[2] in (1, 2, 18, 79, 80) or T[2] == 18]
    for T in int_types(ctx) + fx + bytes_types() + [BOOL, ADDRESS, BYTES, STRING]:
        for c in values.cases(T):
            if c.legal is not None and not (T[0] == "fixed" and c.label.startswith("neg-")):
                out.append(Scn(f"encoder of {tstr(T)} <- {c.label}", extra.direct_encode(T, c), key=f"encoder/{T[0]}"))
        if not dyn(T):
            out.append(Scn(f"decoder of {tstr(T)}", extra.direct_decode(T, True), key=f"decoder/{T[0]}"))
        out.append(Scn(f"decoder of ({tstr(T)})", extra.direct_decode(T), key=f"decoder/{T[0]}"))
    for T in containers.shapes(U(8), BYTES)[:34]:
        for n in (0, 1, 2):
            out.append(Scn(f"encoder of {tstr(T)} count={n}", extra.direct_container(T, n), key="encoder/container"))
        out.append(Scn(f"decoder of {tstr(T)}", extra.direct_decode(T), key="decoder/container", max_paths=150, max_s=5, weight=2))
    return out
