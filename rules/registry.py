"""Registry rules: unique match, freshness after changes, isolation of copies, labels.

Histories of registrations, removals and lookups are abstract partitions: every operation of a history is a
choice, matchers answer by an opaque table, and the outcome of every lookup is compared with a model that keeps
the registrations as a plain list."""
from absint.core import SBytes
from absint.objects import AList, AObj

from .encode import short

A_, B_ = b"\xaa" * 32, b"\xbb" * 32
NAME = {A_: "A", B_: "B"}


def reg_obj(S, base):
    """-> a registry object: fresh, or a copy of one of the built-in ones"""
    if base == "empty":
        return S.I.call(S.h("new_registry"), [], {})
    r = S.api("eth_abi.registry", "registry" if base == "std" else "registry_packed")
    return must(S, S.method(r, "copy"))


def must(S, out):
    if not out.ok:
        S.violate("refused", f"a legal registry operation raises {out.cls}", out)
    return out.val


def H(S, f, *a):
    return S.I.call(S.h(f), list(a), {})


# ------------------------------------------------------------------------------------ C16
def unique(base, query, side, kinds, order_seed=0, native=0, parse="ok"):
    """kinds: coder kind per extra registration; each may or may not match the query"""
    def fn(S):
        I = S.I
        reg = reg_obj(S, base)
        matching, regs = [], []
        for i, k in enumerate(kinds):
            hit = I.choose(2, f"registration {i} matches {query!r}") == 1
            p = H(S, ("Pred", "mkmatcher", "EqPred")[(i + order_seed) % 3], (query, f"other{i}") if hit else (f"other{i}",))
            tag = bytes([i + 1]) * 32
            c = H(S, {"fun": "mkenc", "cls": "mkcls", "obj": "mkcls"}[k] if side == "encoder" else {"fun": "mkdec", "cls": "mkdcls", "obj": "mkdcls"}[k], tag)
            if k == "obj":
                c = I.call(c, [], {})
            must(S, S.method(reg, f"register_{side}", p, c, label=f"l{i}") if i % 2 else S.method(reg, f"register_{side}", p, c))
            regs.append(c)
            if hit:
                matching.append((k, c, tag))
        n = len(matching) + native
        what = f"{n} of {len(kinds) + native} registrations match {query!r}"
        S.inp("registrations", what)
        for rep in ("first", "second"):
            out = S.method(reg, f"get_{side}", query)
            S.count("lookups")
            w = f"{what}: get_{side} ({rep} lookup)"
            if n == 0:
                if out.ok:
                    S.violate("silent-pick", f"{w} returns {short(out.val)}")
                if parse == "ok" and not out.isa("NoEntriesFound"):
                    S.violate("error-class", f"{w} raises {out.cls} instead of NoEntriesFound", out)
                if parse == "bad" and not (out.isa("ParseError") or out.isa("ValueError") and not out.isa("MultipleEntriesFound")):
                    S.violate("error-class", f"{w} raises {out.cls} instead of ParseError", out)
            elif n > 1:
                if out.ok:
                    S.violate("silent-pick", f"{w} returns {short(out.val)}")
                if not out.isa("MultipleEntriesFound"):
                    S.violate("error-class", f"{w} raises {out.cls} instead of MultipleEntriesFound", out)
            else:
                if not out.ok:
                    S.violate("rejected", f"{w} raises {out.cls}", out)
                if matching:
                    k, c, tag = matching[0]
                    if k == "cls":
                        good = isinstance(out.val, AObj) and out.val.cls is c and out.val.attrs.get("type_str") == query and out.val.attrs.get("registry") is reg
                    else:
                        good = out.val is c
                    if not good:
                        S.violate("wrong-coder", f"{w} does not return the matching registration's coder but {short(out.val)}")
        if side == "encoder":
            out = S.method(reg, "has_encoder", query)
            S.count("lookups")
            w = f"{what}: has_encoder"
            if n > 1:
                if out.ok or not out.isa("MultipleEntriesFound"):
                    S.violate("has-ambiguous", f"{w} {short(out)} instead of raising MultipleEntriesFound", None if out.ok else out)
            elif not out.ok or out.val is not (n == 1):
                S.violate("has-wrong", f"{w} {short(out)}", None if out.ok else out)
            cod = H(S, "codec_of", reg)
            for what2, out in (("is_encodable_type", S.method(cod, "is_encodable_type", query)), ("is_encodable", S.method(cod, "is_encodable", query, A_))):
                S.count("lookups")
                if n > 1:
                    if out.ok or not out.isa("MultipleEntriesFound"):
                        S.violate("has-ambiguous", f"{what}: {what2} {short(out)} instead of raising MultipleEntriesFound", None if out.ok else out)
                elif n == 0:
                    if not out.ok or out.val is not False:
                        S.violate("has-wrong", f"{what}: {what2} {short(out)}", None if out.ok else out)
                elif matching and (not out.ok or out.val is not True):
                    S.violate("has-wrong", f"{what}: {what2} {short(out)}", None if out.ok else out)
        else:
            cod = H(S, "codec_of", reg)
            out = S.method(cod, "decode", AList([query]), bytes(32))
            S.count("lookups")
            if n == 1 and matching and not (out.ok and out.val == (matching[0][2],)):
                S.violate("wrong-coder", f"{what}: decode {short(out)}", None if out.ok else out)
            if n != 1 and out.ok:
                S.violate("silent-pick", f"{what}: decode {short(out)}")
            if n > 1 and not out.isa("MultipleEntriesFound"):
                S.violate("error-class", f"{what}: decode raises {out.cls}", out)
    return fn


def nested_unique(T, side):
    """the element type `foo` of a compound type has 0, 1 or 2 registrations"""
    def fn(S):
        I = S.I
        reg = reg_obj(S, "std")
        n = I.choose(3, "registrations of foo")
        for i in range(n):
            p = H(S, ("Pred", "mkmatcher")[i], ("foo",))
            must(S, S.method(reg, f"register_{side}", p, H(S, "mkenc" if side == "encoder" else "mkdec", A_)))
        out = S.method(reg, f"get_{side}", T)
        S.count("lookups")
        if n == 1 and not out.ok:
            S.violate("rejected", f"get_{side}({T!r}) with one registration of foo raises {out.cls}", out)
        if n == 0 and not (out.isa("NoEntriesFound")):
            S.violate("error-class", f"get_{side}({T!r}) without registration of foo {short(out)}", None if out.ok else out)
        if n == 2 and not out.isa("MultipleEntriesFound"):
            S.violate("silent-pick", f"get_{side}({T!r}) with two registrations of foo {short(out)}", None if out.ok else out)
        if side == "encoder":
            out = S.method(reg, "has_encoder", T)
            if n == 2:
                if not out.isa("MultipleEntriesFound"):
                    S.violate("has-ambiguous", f"has_encoder({T!r}) with two registrations of foo {short(out)}", None if out.ok else out)
            elif not out.ok or out.val is not (n == 1):
                S.violate("has-wrong", f"has_encoder({T!r}) with {n} registrations of foo {short(out)}", None if out.ok else out)
    return fn


def builtin_unique(base, t, side):
    """exactly one built-in registration matches t: one more makes it ambiguous, without it there is none"""
    def fn(S):
        reg = reg_obj(S, base)
        extra = S.I.choose(2, "one more registration") == 1
        if extra:
            must(S, S.method(reg, f"register_{side}", H(S, "mkmatcher", (t,)), H(S, "mkenc", A_)))
        out = S.method(reg, f"get_{side}", t)
        S.count("lookups")
        if not extra and not out.ok:
            S.violate("rejected", f"get_{side}({t!r}) in the {base} registry raises {out.cls}", out)
        if extra and not out.isa("MultipleEntriesFound"):
            S.violate("silent-pick", f"get_{side}({t!r}) in the {base} registry with one more matching registration {short(out)}", None if out.ok else out)
    return fn


# lookups of every kind, and what they match by their documentation
LOOKS = [("str", q) for q in ("uint", "uint256", "uint8", "int", "bytes", "bytes32", "byte", "bytes1", "function", "bytes24", "fixed", "fixed128x18", "string", "address", "uint8[]", "uint[]", "uint256[]", "(uint8)",
                              "(uint)", "foo", "foo8", "bool", "(uint8,bytes)[2]")] + \
    [("base", b, ws) for b in ("uint", "bytes", "fixed", "foo") for ws in (None, True, False)] + [("base", "int", None), ("base", "uint8", None), ("base", "address", False), ("base", "bool", True), ("arr",), ("tup",)]
QUERIES = ["uint", "uint256", "uint8", "int", "bytes", "bytes32", "byte", "bytes1", "function", "bytes24", "fixed", "fixed128x18", "string", "address", "bool", "uint8[]", "uint[]", "uint256[]", "uint8[2]", "(uint8)", "(uint)",
           "(uint256)", "(uint8,bytes)[2]", "foo", "foo8", "foo[]", "UINT", "uint8 ", "uint16", "((uint8),bytes)", "string[][]"]


def looks(l, q):
    import re
    if l[0] == "str":
        return q == l[1]
    if l[0] == "arr":
        return q.endswith("]")
    if l[0] == "tup":
        return q.startswith("(") and q.endswith(")")
    m = re.fullmatch(r"([a-z]+)(\d+(?:x\d+)?)?", q)
    if not m or m.group(1) != l[1]:
        return False
    return l[2] is None or l[2] == (m.group(2) is not None)


def look_arg(S, l):
    if l[0] == "str":
        return l[1]
    if l[0] == "arr":
        return S.api("eth_abi.registry", "has_arrlist")
    if l[0] == "tup":
        return S.api("eth_abi.registry", "is_base_tuple")
    return S.I.call(S.api("eth_abi.registry", "BaseEquals"), [l[1]], {} if l[2] is None else {"with_sub": l[2]})


def show_look(l):
    return repr(l[1]) if l[0] == "str" else {"arr": "has_arrlist", "tup": "is_base_tuple"}[l[0]] if len(l) == 1 else f"BaseEquals({l[1]!r}, with_sub={l[2]})"


def documented(first, side, thorough=False):
    """two (three) registrations with the lookups the package offers: each query is served by the only one that matches"""
    def fn(S):
        I = S.I
        reg = reg_obj(S, "empty")
        ls = [first]
        i = I.choose(len(LOOKS) + 1, "second lookup")
        if i < len(LOOKS) and LOOKS[i] != first:
            ls.append(LOOKS[i])
        cs = []
        for n, l in enumerate(ls):
            c = H(S, "mkenc" if side == "encoder" else "mkdec", bytes([n + 1]) * 32)
            must(S, S.method(reg, f"register_{side}", look_arg(S, l), c))
            cs.append(c)
        what = "registered " + ", ".join(map(show_look, ls))
        for q in QUERIES if len(ls) == 1 or thorough else [q for q in QUERIES if any(looks(l, q) for l in ls)] + ["uint", "uint256", "bytes24"]:
            hits = [c for l, c in zip(ls, cs) if looks(l, q)]
            out = S.method(reg, f"get_{side}", q)
            S.count("lookups")
            if not hits:
                if out.ok:
                    S.violate("silent-pick", f"{what}: get_{side}({q!r}) returns {short(out.val)} although nothing matches")
                if not (out.isa("NoEntriesFound") or out.isa("ParseError")):
                    S.violate("error-class", f"{what}: get_{side}({q!r}) raises {out.cls}", out)
            elif len(hits) == 1:
                if not out.ok or out.val is not hits[0]:
                    S.violate("wrong-coder", f"{what}: get_{side}({q!r}) {short(out)}", None if out.ok else out)
            elif not out.isa("MultipleEntriesFound"):
                S.violate("silent-pick", f"{what}: get_{side}({q!r}) {short(out)} although two registrations match", None if out.ok else out)
    return fn


def on_top(base, l, side):
    """one more registration next to the built-in ones, before and after the built-in one is removed"""
    def fn(S):
        reg = reg_obj(S, base)
        c = H(S, "mkenc" if side == "encoder" else "mkdec", A_)
        must(S, S.method(reg, f"register_{side}", look_arg(S, l), c, **({} if l[0] == "str" else {"label": "mine"})))
        what = f"{base} registry with {show_look(l)}"
        for q in QUERIES:
            if "foo" in q or q in ("UINT", "uint8 "):
                native = 1 if q == "foo[]" else 0
            else:
                native = 1
            if q != l[1] and q[-1] in ")]":
                continue          # its elements may be ambiguous
            n = native + looks(l, q)
            out = S.method(reg, f"get_{side}", q)
            S.count("lookups")
            if n > 1 and not out.isa("MultipleEntriesFound"):
                S.violate("silent-pick", f"{what}: get_{side}({q!r}) {short(out)} although two registrations match", None if out.ok else out)
            if n == 1 and q != "foo[]" and (not out.ok or (out.val is c) != looks(l, q)):
                S.violate("wrong-coder", f"{what}: get_{side}({q!r}) {short(out)}", None if out.ok else out)
            if n == 0 and out.ok:
                S.violate("silent-pick", f"{what}: get_{side}({q!r}) {short(out)} although nothing matches")
    return fn


def strategy_unique(nmatch, query):
    def fn(S):
        I = S.I
        cls = S.api("eth_abi.tools._strategies", "StrategyRegistry")
        reg = must(S, S.call(cls))
        marks = []
        for i in range(nmatch):
            c = H(S, "mkenc", bytes([i]))
            p = H(S, ("Pred", "mkmatcher")[i % 2], (query,))

            fac = c
            marks.append(c)
            must(S, S.method(reg, "register_strategy", p, H(S, "mkfactory", i)))
        out = S.method(reg, "get_strategy", query)
        S.count("lookups")
        if nmatch == 0 and not out.isa("NoEntriesFound"):
            S.violate("error-class", f"get_strategy({query!r}) without registration {short(out)}", None if out.ok else out)
        if nmatch == 1 and not (out.ok and out.val == 0):
            S.violate("wrong-coder", f"get_strategy({query!r}) {short(out)}", None if out.ok else out)
        if nmatch > 1 and not out.isa("MultipleEntriesFound"):
            S.violate("silent-pick", f"get_strategy({query!r}) with {nmatch} registrations {short(out)}", None if out.ok else out)
    return fn


# ------------------------------------------------------------------------------------ C17 / C18: histories
class Model:
    """registrations of the type `foo` on one side of one registry: list of [kind, key, tag]"""

    def __init__(self):
        self.regs = []

    def copy(self):
        m = Model()
        m.regs = [list(r) for r in self.regs]
        return m

    def result(self):
        tags = [r[2] for r in self.regs]
        return ("none",) if not tags else ("ok", tags[0]) if len(tags) == 1 else ("many",)


class World:
    """a registry under test with the model of both sides"""

    def __init__(self, S, reg, models=None):
        self.S, self.reg = S, reg
        self.m = models or {"encoder": Model(), "decoder": Model()}
        self.cod = H(S, "codec_of", reg)

    def clone(self, how):
        reg = H(self.S, "copies", self.reg, how)
        return World(self.S, reg, {k: v.copy() for k, v in self.m.items()})


MATCHERS = {}


def matcher(S, key):
    """one matcher object per key and partition (plain function), or a new equal one"""
    tab = S.__dict__.setdefault("matchers", {})
    if key not in tab:
        tab[key] = H(S, "mkmatcher", ("foo",)) if key.startswith("fun") else H(S, "EqPred", ("foo",))
    if key.startswith("eq"):
        return H(S, "EqPred", ("foo",))
    return tab[key]


def coder(S, side, tag, kind):
    if side == "encoder":
        return H(S, "mkenc" if kind == "fun" else "mkcls", tag)
    return H(S, "mkdec" if kind == "fun" else "mkdcls", tag)


# a change: (name, applicable(world), apply(world))
def ch_register(side, by, tag, kind):
    sides = ("encoder", "decoder") if side == "both" else (side,)
    key = {"str": "foo", "fun": "fun1", "eq": "eq1"}[by]
    label = None if by == "str" else f"label-{by}"

    def ok(W):
        return all(not any(r[1] == key for r in W.m[s].regs) for s in sides)

    def do(W):
        S = W.S
        look = "foo" if by == "str" else matcher(S, key)
        cs = [coder(S, s, tag, kind) for s in sides]
        kw = {"label": label} if label else {}
        if side == "both":
            out = S.method(W.reg, "register", look, cs[0], cs[1], **kw)
        else:
            out = S.method(W.reg, f"register_{side}", look, cs[0], **kw)
        must(S, out)
        for s in sides:
            W.m[s].regs.append([by, key, tag, label or "foo"])
    return (f"register_{side}({by}, {NAME[tag]}, {kind})", ok, do)


def ch_unregister(side, by):
    """by: str | fun | eq | label-fun | label-eq"""
    sides = ("encoder", "decoder") if side == "both" else (side,)
    reg_by = by.split("-")[-1]
    key = {"str": "foo", "fun": "fun1", "eq": "eq1"}[reg_by]

    def ok(W):
        return all(any(r[1] == key for r in W.m[s].regs) for s in sides)

    def do(W):
        S = W.S
        arg = "foo" if by == "str" else f"label-{reg_by}" if by.startswith("label") else matcher(S, key)
        out = S.method(W.reg, "unregister" if side == "both" else f"unregister_{side}", arg)
        must(S, out)
        for s in sides:
            W.m[s].regs = [r for r in W.m[s].regs if r[1] != key]
    return (f"unregister_{side}({by})", ok, do)


def changes(side):
    out = [ch_register(side, "str", A_, "fun"), ch_register(side, "fun", B_, "fun"), ch_register(side, "eq", A_, "cls"), ch_register(side, "str", B_, "cls"),
           ch_unregister(side, "str")]
    if side != "both":
        out += [ch_unregister(side, "fun"), ch_unregister(side, "eq")]
    out += [ch_unregister(side, "label-fun"), ch_unregister(side, "label-eq")]
    return out


SHAPES = [("foo", 1), ("foo[]", None), ("(foo,uint8)", None), ("foo[2]", None), ("(uint8,foo[1][])", None)]


def wrap_value(t):
    """value of the compound type with anything for foo"""
    return {"foo": 0, "foo[]": AList([0]), "(foo,uint8)": (0, 1), "foo[2]": (0, 0), "(uint8,foo[1][])": (1, AList([AList([0])]))}[t]


ONE, W32 = (1).to_bytes(32, "big"), (32).to_bytes(32, "big")


def wire(t, tag):
    return {"foo": tag, "foo[]": W32 + ONE + tag, "(foo,uint8)": tag + ONE, "foo[2]": tag + tag, "(uint8,foo[1][])": W32 + ONE + (64).to_bytes(32, "big") + ONE + tag}[t]


def plain(t, tag):
    return {"foo": tag, "foo[]": (tag,), "(foo,uint8)": (tag, 1), "foo[2]": (tag, tag), "(uint8,foo[1][])": (1, ((tag,),))}[t]


def lookups(side, short_=False):
    out = []
    for t, _ in SHAPES:
        if side in ("encoder", "both"):
            out.append(("encode", t))
            if not short_:
                out += [("is_encodable", t), ("get_encoder", t)]
        if side in ("decoder", "both"):
            out.append(("decode", t))
            if not short_:
                out += [("decode-nonstrict", t), ("get_decoder", t)]
    return out


def look(W, lk, ctx, judge=True):
    """perform a lookup on W and compare with its model"""
    S = W.S
    op, t = lk
    side = "decoder" if "decode" in op or op == "get_decoder" else "encoder"
    want = W.m[side].result()
    S.count("lookups")
    if op == "encode":
        out = S.method(W.cod, "encode", AList([t]), AList([wrap_value(t)]))
        good = lambda: out.ok and same_bytes(S, out.val, wire(t, want[1]))
    elif op == "is_encodable":
        out = S.method(W.cod, "is_encodable", t, wrap_value(t))
        good = lambda: out.ok and out.val is True
        if want[0] == "none":
            if not (out.ok and out.val is False):
                S.violate("stale", f"{ctx}: is_encodable({t!r}, ..) {short(out)} although foo has no registration", None if out.ok else out)
            return
    elif op == "get_encoder":
        out = S.method(W.reg, "get_encoder", t)
        good = lambda: out.ok
    elif op == "get_decoder":
        out = S.method(W.reg, "get_decoder", t)
        good = lambda: out.ok
    else:
        k = {"strict": False} if op == "decode-nonstrict" else {}
        out = S.method(W.cod, "decode", AList([t]), wire(t, bytes(32)), **k)
        good = lambda: out.ok and out.val == (plain(t, want[1]),)
    if want[0] == "ok":
        if not good():
            S.violate("stale", f"{ctx}: {op}({t!r}) {short(out)}, but the only registration of foo is coder {NAME[want[1]]}", None if out.ok else out)
    elif want[0] == "none":
        if out.ok or not out.isa("NoEntriesFound"):
            S.violate("stale", f"{ctx}: {op}({t!r}) {short(out)} although foo has no registration", None if out.ok else out)
    else:
        if out.ok or not out.isa("MultipleEntriesFound"):
            S.violate("stale", f"{ctx}: {op}({t!r}) {short(out)} although foo has two registrations", None if out.ok else out)


def same_bytes(S, a, b):
    return isinstance(a, (bytes, SBytes)) and S.I.eq_bytes(a, b)


def pick_change(W, chs):
    S = W.S
    av = [c for c in chs if c[1](W)]
    c = av[S.I.choose(len(av), "which change")]
    c[2](W)
    return c[0]


def pick_look(W, lks, ctx, optional=True):
    S = W.S
    i = S.I.choose(len(lks) + (1 if optional else 0), "which lookup")
    if i < len(lks):
        look(W, lks[i], ctx)
        return f"{lks[i][0]} {lks[i][1]}"
    return "no lookup"


def fresh(side, first, depth=2, full=False):
    """history: lookup `first`, change, lookup, change, lookup"""
    chs = changes(side)
    lks = lookups(side, short_=True)
    final = lookups(side) if full else lks[:2 if side == "both" else 3] + [l for l in lookups(side) if l[0].startswith(("is_", "decode-")) and l[1] in ("foo", "foo[]")]
    if not full:
        chs = [c for c in chs if "str, B" not in c[0]]

    def fn(S):
        W = World(S, reg_obj(S, "std"))
        h = []
        S.inp("history", h)
        if first is not None:
            look(W, first, "initially")
            h.append(f"{first[0]} {first[1]}")
        for d in range(depth):
            h.append(pick_change(W, chs))
            ctx = "after " + ", ".join(h)
            if d < depth - 1:
                # the lookups that were cached before must be refreshed: repeat it, or make another one
                h.append(pick_look(W, ([first] if first else []) + lks[:2], ctx))
            else:
                if first is not None:
                    look(W, first, ctx)
                pick_look(W, final, ctx, False)
    return fn


def fresh_builtin(base, label, t, others):
    """unregister a built-in by label after lookups, then register an own coder for it"""
    def fn(S):
        reg = reg_obj(S, base)
        cod = H(S, "codec_of", reg)
        for q in others:
            if S.I.choose(2, f"look up {q} before") == 1:
                must(S, S.method(reg, "get_encoder", q))
                if base == "std":
                    must(S, S.method(reg, "get_decoder", q))
        what = f"after unregistering {label!r} from the {base} registry"
        must(S, S.method(reg, "unregister_encoder", label))
        if base == "std":
            must(S, S.method(reg, "unregister_decoder", label))
        for q in others:
            for side in ("encoder", "decoder")[:2 if base == "std" else 1]:
                out = S.method(reg, f"get_{side}", q)
                S.count("lookups")
                if not out.isa("NoEntriesFound"):
                    S.violate("stale", f"{what}: get_{side}({q!r}) {short(out)}", None if out.ok else out)
            out = S.method(reg, "has_encoder", q)
            if not out.ok or out.val is not False:
                S.violate("stale", f"{what}: has_encoder({q!r}) {short(out)}", None if out.ok else out)
        be = S.api("eth_abi.registry", "has_arrlist" if label == "has_arrlist" else "is_base_tuple" if label == "is_base_tuple" else "BaseEquals")
        if label not in ("has_arrlist", "is_base_tuple"):
            be = S.I.call(be, [label], {})
        must(S, S.method(reg, "register_encoder", be, H(S, "mkenc", A_), label=label))
        out = S.method(cod, "encode", AList([t]), AList([0]))
        S.count("lookups")
        if not out.ok or not same_bytes(S, out.val, A_):
            S.violate("stale", f"{what} and registering an own coder: encode([{t!r}]) {short(out)}", None if out.ok else out)
    return fn


def isolated(side, how, depth=2, base="std", full=False):
    """W1 with some registrations and cached lookups; W2 = copy; changes on either; both looked up"""
    chs = changes(side)
    if not full:
        chs = [c for c in chs if c[0].split("(")[1].startswith(("str, A", "fun", "str)", "label-fun"))]
    lks = lookups(side, short_=True)
    if base != "std":
        lks = [l for l in lks if l[1] == "foo"] * 2

    def fn(S):
        W1 = World(S, reg_obj(S, base))
        h = []
        S.inp("history", h)
        if S.I.choose(2, "foo registered before the copy") == 1:
            c = chs[S.I.choose(2, "how")]
            c[2](W1)
            h.append(c[0])
        h.append(pick_look(W1, lks[:2], "before the copy"))
        W2 = W1.clone(how)
        h.append(("copy()", "copy.copy", "copy.deepcopy")[how])
        if W2.reg is W1.reg:
            S.violate("same-object", f"{h[-1]} returns the registry itself")
        for d in range(depth):
            k = S.I.choose(2, "which registry is changed")
            W = (W1, W2)[k]
            h.append(("original: ", "copy: ")[k] + pick_change(W, chs))
            ctx = "after " + ", ".join(h)
            if d < depth - 1:
                for w, n in ((W2, "copy"), (W1, "original")):
                    look(w, lks[1], f"{ctx}, {n}")
            else:
                i = S.I.choose(len(lks), "which lookup")
                for w, n in ((W2, "copy"), (W1, "original")):
                    look(w, lks[i], f"{ctx}, {n}")
    return fn


def copy_same(base, how, t, side):
    """a copy starts with the same registrations, labels included"""
    def fn(S):
        r = S.api("eth_abi.registry", "registry" if base == "std" else "registry_packed")
        cpy = H(S, "copies", r, how)
        out = S.method(cpy, f"get_{side}", t)
        ref = S.method(r, f"get_{side}", t)
        S.count("lookups")
        if out.ok != ref.ok or out.ok and out.val.cls is not ref.val.cls:
            S.violate("copy-differs", f"get_{side}({t!r}): original {short(ref)}, copy {short(out)}", None if out.ok else out)
        if out.ok and side == "encoder" and "registry" in out.val.attrs and out.val.attrs["registry"] is not cpy:
            S.violate("copy-differs", f"get_{side}({t!r}) of the copy is bound to another registry")
    return fn


def modules_isolated(label, t):
    """changing one of the two built-in registries never shows in the other, nor in a codec of the other"""
    def fn(S):
        std, pk = S.api("eth_abi.registry", "registry"), S.api("eth_abi.registry", "registry_packed")
        k = S.I.choose(2, "which registry is changed")
        a, b = ((std, pk), (pk, std))[k]
        ref = S.method(b, "get_encoder", t)
        must(S, S.method(a, "unregister_encoder", label))
        out = S.method(b, "get_encoder", t)
        S.count("lookups")
        if not out.ok or not ref.ok or out.val.cls is not ref.val.cls:
            S.violate("leak", f"unregistering {label!r} from one built-in registry changes get_encoder({t!r}) of the other: {short(out)}", None if out.ok else out)
        out = S.method(a, "get_encoder", t)
        if out.ok or not out.isa("NoEntriesFound"):
            S.violate("leak", f"after unregistering {label!r}, get_encoder({t!r}) {short(out)}", None if out.ok else out)
        b2 = must(S, S.method(a, "copy"))
        out = S.method(b2, "get_encoder", t)
        if out.ok or not out.isa("NoEntriesFound"):
            S.violate("leak", f"a copy made after unregistering {label!r} still has it: get_encoder({t!r}) {short(out)}", None if out.ok else out)
    return fn


# ------------------------------------------------------------------------------------ C19
class MapModel:
    def __init__(self):
        self.vals = {}        # pred key -> value
        self.labels = {}      # label -> pred key

    def add(self, p, v, l):
        if p in self.vals or l is not None and l in self.labels:
            return "ValueError"
        self.vals[p] = v
        if l is not None:
            self.labels[l] = p

    def rm_eq(self, p):
        if p not in self.vals:
            return "KeyError"
        del self.vals[p]
        self.labels = {l: q for l, q in self.labels.items() if q != p}

    def rm_label(self, l):
        if l not in self.labels:
            return "KeyError"
        del self.vals[self.labels.pop(l)]


PREDS = ("e1", "e2", "f1")           # e*: equal by value (a new object every time), f*: identity
LABELS = (None, "x", "y")


def the_pred(S, k):
    tab = S.__dict__.setdefault("preds", {})
    if k[0] == "e":
        return H(S, "EqPred", (k, "te" + k))
    if k not in tab:
        tab[k] = H(S, "mkmatcher", (k, "te" + k))
    return tab[k]


class MapApi:
    """the same operations on a PredicateMapping, an ABIRegistry side or a StrategyRegistry"""

    def __init__(self, S, target):
        self.S, self.target = S, target
        if target == "mapping":
            self.o = H(S, "new_mapping")
        elif target == "strategy":
            self.o = must(S, S.call(S.api("eth_abi.tools._strategies", "StrategyRegistry")))
        else:
            self.o = H(S, "new_registry")

    def add(self, p, v, l):
        S = self.S
        kw = {"label": l} if l is not None else {}
        if self.target == "mapping":
            return S.method(self.o, "add", p, v, **kw)
        return S.method(self.o, f"register_{self.target}", p, v, **kw)

    def rm(self, x, generic=False):
        S = self.S
        if self.target == "mapping":
            return S.method(self.o, "remove" if generic else "remove_by_label" if isinstance(x, str) else "remove_by_equality", x)
        return S.method(self.o, f"unregister_{self.target}", x)

    def find(self, t):
        if self.target == "mapping":
            return self.S.method(self.o, "find", t)
        return self.S.method(self.o, f"get_{self.target}", t)


def value(S, target, i):
    tab = S.__dict__.setdefault("vals", {})
    if i not in tab:
        tab[i] = H(S, "mkdec" if target == "decoder" else "mkfactory" if target == "strategy" else "mkenc", bytes([i]) * 32 if target != "strategy" else i)
    return tab[i]


def labels(target, first, depth=3):
    """every history of `depth` operations beginning with `first`, then one probe"""
    ops = [("add", p, l) for p in PREDS for l in LABELS] + [("rmeq", p) for p in PREDS] + [("rml", l) for l in LABELS[1:]]

    def fn(S):
        I = S.I
        M, X = MapModel(), MapApi(S, target)
        h = []
        S.inp("history", h)

        def do(op, n):
            if op[0] == "add":
                v = value(S, target, n)
                want = M.add(op[1], v, op[2])
                out = X.add(the_pred(S, op[1]), v, op[2])
                h.append(f"add({op[1]}, label={op[2]})")
            elif op[0] == "rmeq":
                want = M.rm_eq(op[1])
                out = X.rm(the_pred(S, op[1]), generic=n % 2 == 1)
                h.append(f"remove({op[1]})")
            else:
                want = M.rm_label(op[1])
                out = X.rm(op[1], generic=n % 2 == 1)
                h.append(f"remove(label {op[1]})")
            S.count("operations")
            if want is None and not out.ok:
                S.violate("refused", f"{', '.join(h)}: the last operation raises {out.cls}", out)
            if want is not None and out.ok:
                S.violate("not-refused", f"{', '.join(h)}: the last operation succeeds instead of raising {want}")
            if want is not None and not out.isa(want):
                S.violate("wrong-exception", f"{', '.join(h)}: the last operation raises {out.cls} instead of {want}", out)
        do(first, 1)
        for n in range(2, depth + 1):
            do(ops[I.choose(len(ops), "operation")], n)
        # probe: every matcher, then one operation on a label or matcher
        for p in PREDS:
            out = X.find("te" + p)
            if p in M.vals:
                good = out.ok and (out.val is M.vals[p] or target == "strategy" and out.val is not None)
                if not good:
                    S.violate("lost", f"{', '.join(h)}: matcher {p} should be registered, but the lookup {short(out)}", None if out.ok else out)
            elif out.ok:
                S.violate("left-behind", f"{', '.join(h)}: matcher {p} should be gone, but the lookup {short(out)}")
        probes = [("rml", l) for l in LABELS[1:]] + [("add", "f2", l) for l in LABELS[1:]] + [("rmeq", p) for p in PREDS] + [("add", p, None) for p in PREDS]
        do(probes[I.choose(len(probes), "probe")], depth + 1)
    return fn


def bad_keys(target, what, mk):
    """neither callable nor string: TypeError, nothing changed"""
    def fn(S):
        X = MapApi(S, target)
        must(S, X.add(the_pred(S, "e1"), value(S, target, 1), "x"))
        k = mk(S)
        outs = []
        if target != "mapping":
            outs.append(("register", X.add(k, value(S, target, 2), None)))
            outs.append(("unregister", X.rm(k)))
        else:
            outs.append(("remove", X.rm(k, generic=True)))
        S.count("operations", len(outs))
        for n, out in outs:
            if out.ok or not out.isa("TypeError"):
                S.violate("wrong-exception", f"{target}: {n}({what}) {short(out)} instead of TypeError", None if out.ok else out)
        out = X.find("tee1")
        if not out.ok:
            S.violate("lost", f"{target}: after a refused {what} the lookup raises {out.cls}", out)
        must(S, X.rm("x"))
        if X.find("tee1").ok:
            S.violate("left-behind", f"{target}: after a refused {what} the label no longer removes the registration")
    return fn


def string_lookup(target):
    """a string lookup is its own label: removable by it, by an equal matcher, and refused twice"""
    def fn(S):
        X = MapApi(S, target)
        must(S, X.add("bar", value(S, target, 1), None))
        how = S.I.choose(4, "then")
        S.count("operations")
        eq = S.I.call(S.api("eth_abi.registry", "Equals"), ["bar"], {})
        if how == 0:
            out = X.add("bar", value(S, target, 2), None)
            if not out.isa("ValueError"):
                S.violate("not-refused", f"{target}: registering 'bar' twice {short(out)}")
        elif how == 1:
            must(S, X.rm("bar"))
            if X.find("bar").ok:
                S.violate("left-behind", f"{target}: 'bar' is still found after unregistering it")
            must(S, X.add("bar", value(S, target, 2), None))
            must(S, X.rm(eq))
            must(S, X.add("bar", value(S, target, 2), None))
        elif how == 2:
            must(S, X.rm(eq))
            out = X.rm("bar")
            if not out.isa("KeyError"):
                S.violate("left-behind", f"{target}: label 'bar' outlives the removal by an equal matcher: {short(out)}")
            must(S, X.add("bar", value(S, target, 2), None))
        else:
            out = X.rm("baz")
            if not out.isa("KeyError"):
                S.violate("not-refused", f"{target}: unregistering the unknown label 'baz' {short(out)}")
            if not X.find("bar").ok:
                S.violate("lost", f"{target}: 'bar' is lost after a refused removal")
    return fn


# ------------------------------------------------------------------------------------ long histories
def many(n, side, how=None):
    """n distinct lookups before a change (how: before a copy, the change is made on one of the two)"""
    def fn(S):
        reg = reg_obj(S, "std")
        mk, verb = ("mkenc", "encode") if side == "encoder" else ("mkdec", "decode")
        must(S, S.method(reg, f"register_{side}", "foo", H(S, mk, A_), label="lab"))
        for i in range(1, n + 1):
            t = f"foo[{i}]" if i % 2 else f"uint8[{i}]"
            must(S, S.method(reg, f"get_{side}", t))
        regs = [reg]
        if how is not None:
            regs.append(H(S, "copies", reg, how))
        k = S.I.choose(len(regs), "which registry is changed")
        if S.I.choose(2, "replace or remove"):
            must(S, S.method(regs[k], f"unregister_{side}", "foo"))
            want = "none"
        else:
            must(S, S.method(regs[k], f"unregister_{side}", "foo"))
            must(S, S.method(regs[k], f"register_{side}", "foo", H(S, mk, B_), label="lab"))
            want = B_
        for j, r in enumerate(regs):
            w_ = want if j == k else A_
            cod = H(S, "codec_of", r)
            for t, v, m in (("foo", 0, 1), ("foo[1]", AList([0]), 1), (f"foo[{n if n % 2 else n - 1}]", AList([0] * (n if n % 2 else n - 1)), n if n % 2 else n - 1), ("foo[2]", AList([0, 0]), 2)):
                tag = A_ if w_ == "none" else w_
                out = S.method(cod, "encode", AList([t]), AList([v])) if side == "encoder" else S.method(cod, "decode", AList([t]), bytes(32 * m))
                S.count("lookups")
                what = f"after {n} lookups, {'a copy and ' if how is not None else ''}a change of {'the' if how is None else 'this' if j == k else 'the other'} registry: {verb}({t!r})"
                if w_ == "none":
                    if out.ok or not out.isa("NoEntriesFound"):
                        S.violate("stale", f"{what} {short(out)} although foo has no registration", None if out.ok else out)
                elif not out.ok or not (same_bytes(S, out.val, tag * m) if side == "encoder" else out.val == ((tag if t == "foo" else (tag,) * m),)):
                    S.violate("stale", f"{what} {short(out)}", None if out.ok else out)
    return fn
