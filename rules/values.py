"""Abstract Python values offered to the encoders, partitioned by legality.

cases(T) -> list of Case(label, legal, build); build(S) -> (python value, model or None).
legal: True / False / None (the specification is silent: only agreement between the parts is checked)."""
import decimal
from fractions import Fraction

from absint.core import SBytes, SDec, SFloat, SInt, SObj, SStr, Tok
from absint.lin import Lin
from absint.objects import ABytearray, ADict, AList, ASet

from .spec import *

D = decimal.Decimal


class Case:
    __slots__ = ("label", "legal", "build")

    def __init__(self, label, legal, build):
        self.label, self.legal, self.build = label, legal, build


def const(v, m=None):
    return lambda S: (v, m)


def raw_bytes(S, name, lo=0, hi=VALLEN):
    n = Lin({}, lo) if lo == hi else S.sym(f"len({name})", lo, hi)
    return S.raw(name, n)


def text(S, name, utf8=True):
    return SStr((Tok(name, utf8=utf8, ln=S.sym(f"chars({name})", 1, VALLEN)),))


def mkdict(S):
    return ADict()


# kinds of value that no scalar type but the ones named accepts
def foreign(T, tag=""):
    k = T[0]
    out = []

    def add(label, build, legal=False):
        out.append(Case(label, legal, build))
    num = k in NUM
    fixed = k in ("ufixed", "fixed")
    byt = k in ("bytesM", "bytes")
    if not num:
        add("int", lambda S: (S.int("v"), None))
        add("zero", const(0))
        add("one", const(1))
    if k != "bool":
        if not fixed:
            add("True", const(True))
            add("False", const(False))
    if not fixed:
        add("Decimal", lambda S: (SDec(S.sym("v"), 0), None))
        add("Decimal-frac", const(D("1.5")))
    add("float", lambda S: (SFloat(S.sym("v", integer=False)), None))
    add("float-integral", const(1.0))
    add("float-zero", const(0.0))
    add("float-nan", const(float("nan")))
    add("float-inf", const(float("inf")))
    add("Fraction", lambda S: (SFloat(S.sym("v", integer=False), "Fraction"), None))
    add("Fraction-integral", const(Fraction(1)))
    add("complex", const(complex(1, 0)))
    add("None", const(None))
    add("object", lambda S: (SObj("object"), None))
    add("function", lambda S: (SObj("function"), None))
    add("dict", lambda S: (ADict(), None))
    add("set", lambda S: (ASet(), None))
    add("list-empty", lambda S: (AList([]), None))
    add("list-int", lambda S: (AList([1]), None))
    add("list-bytes", lambda S: (AList([b"a"]), None))
    add("tuple", const((1,)))
    if k not in ("string", "address"):
        add("text", lambda S: (text(S, "t"), None))
        add("text-empty", const(""))
        add("text-digit", const("1"))
        add("text-hex", const("0x01"))
        add("text-address", const("0x" + "ab" * 20))
    if not byt and k != "address":
        add("bytes", lambda S: (raw_bytes(S, "b"), None))
        add("bytes-empty", const(b""))
        add("bytes-one", const(b"\x01"))
        add("bytes-32", lambda S: (raw_bytes(S, "b", 32, 32), None))
        add("bytearray", lambda S: (ABytearray(raw_bytes(S, "b")), None))
    add("memoryview", lambda S: (ABytearray(raw_bytes(S, "b"), "memoryview"), None), legal=False)
    return out


def numeric(T):
    lo, hi = bounds(T)
    out = []

    def add(label, legal, build):
        out.append(Case(label, legal, build))
    if T[0] in ("uint", "int"):
        def inr(S):
            v = S.sym("v", lo, hi)
            return SInt(v), v
        add("in-range", True, inr)
        add("max", True, const(hi, Lin({}, hi)))
        add("min", True, const(lo, Lin({}, lo)))
        add("zero", True, const(0, Lin({}, 0)))
        if lo < 0:
            add("minus-one", True, const(-1, Lin({}, -1)))
        add("above", False, lambda S: (SInt(S.sym("v", hi + 1, None)), None))
        add("below", False, lambda S: (SInt(S.sym("v", None, lo - 1)), None))
        add("huge", False, const(10 ** 5000))
        return out
    # fixed point: value = n * 10**exp
    N_ = T[2]
    BIG = 10 ** 400

    def dec(exp, a, b, mul=1, add_=0, label=None, legal=True):
        """Decimal (n*mul+add_) E exp, a <= n <= b"""
        def build(S):
            n = S.sym("n", a, b)
            num = n * mul + add_
            m = None
            if legal:
                s = exp + N_
                m = num * 10 ** s if s >= 0 else None
                if m is None:
                    assert mul % 10 ** -s == 0 and add_ == 0
                    m = n * (mul // 10 ** -s)
            return SDec(num, exp), m
        add(label, legal, build)
    dec(-N_, lo, hi, label="in-range")
    dec(-N_, hi + 1, BIG, label="above", legal=False)
    dec(-N_, -BIG, lo - 1, label="below", legal=False)
    add("max", True, const(D((0, tuple(map(int, str(hi))), -N_)), Lin({}, hi)))
    add("min", True, const(D((1 if lo < 0 else 0, tuple(map(int, str(abs(lo)))), -N_)), Lin({}, lo)))
    add("max+1", False, const(D((0, tuple(map(int, str(hi + 1))), -N_))))
    add("min-1", False, const(D((1, tuple(map(int, str(abs(lo - 1)))), -N_))))
    # trailing zeros beyond N digits
    dec(-N_ - 1, lo, hi, mul=10, label="trailing-zero")
    dec(-N_ - 60, lo, hi, mul=10 ** 60, label="trailing-zeros")

    # digits beyond N
    def excess(sign, extra, label):
        def build(S):
            k = S.sym("k", 0, hi - 1 if sign > 0 else -lo - 1)
            r = S.sym("r", 1, 10 ** extra - 1)
            return SDec((k * 10 ** extra + r) * sign, -N_ - extra), None
        add(label, False, build)
    excess(1, 1, "excess-digit")
    excess(1, 40, "excess-digits")
    if lo < 0:
        excess(-1, 1, "neg-excess-digit")
        excess(-1, 40, "neg-excess-digits")
    # fewer digits, integral, positive exponent
    if N_ > 1:
        dec(-N_ + 1, -(-lo // 10), hi // 10, label="fewer-digits")
    s = 10 ** N_
    dec(0, -(-lo // s), hi // s, label="integral-Decimal")
    dec(0, hi // s + 1, BIG, label="integral-Decimal-above", legal=False)
    dec(0, -BIG, -(-lo // s) - 1, label="integral-Decimal-below", legal=False)
    s3 = 10 ** (N_ + 3)
    dec(3, -(-lo // s3), hi // s3, label="exponent+3")
    dec(3, hi // s3 + 1, BIG, label="exponent+3-above", legal=False)

    def pyint(a, b, legal):
        def build(S):
            n = S.sym("n", a, b)
            return SInt(n), (n * s if legal else None)
        return build
    add("int", True, pyint(-(-lo // s), hi // s, True))
    add("int-above", False, pyint(hi // s + 1, None, False))
    add("int-below", False, pyint(None, -(-lo // s) - 1, False))
    add("int-huge", False, const(10 ** 5000))
    for label, v in (("NaN", D("NaN")), ("-NaN", D("-NaN")), ("sNaN", D("sNaN")), ("Infinity", D("Infinity")), ("-Infinity", D("-Infinity"))):
        add(label, False, const(v))
    add("neg-zero", True, const(D("-0.0"), Lin({}, 0)))
    add("zero-E+9", True, const(D("0E+9"), Lin({}, 0)))
    add("zero-E-200", True, const(D("0E-200"), Lin({}, 0)))
    add("tiny", False, const(D("1E-9999999")))
    if lo < 0:
        add("neg-tiny", False, const(D("-1E-9999999")))
    add("long-positive", False, const(D((0, (1,) * 1200, -1150 - N_))))
    add("large-exponent", False, const(D("1E+5000")))
    add("large-neg-exponent", False, const(D("-1E+5000")))
    return out


def address(T):
    out = []

    def add(label, legal, build):
        out.append(Case(label, legal, build))

    def hexa(prefix, norm):
        def build(S):
            b = raw_bytes(S, "a", 20, 20)
            return SStr((Tok("addr", addr=(b, prefix, norm)),)), b
        return build
    add("hex-0x", True, hexa("0x", True))
    add("hex-mixed-case", True, hexa("0x", False))
    add("hex-noprefix", True, hexa("", True))

    def bin20(S):
        b = raw_bytes(S, "a", 20, 20)
        return b, b
    add("bytes-20", True, bin20)

    def bin20a(S):
        b = raw_bytes(S, "a", 20, 20)
        return ABytearray(b), b
    add("bytearray-20", None, bin20a)
    add("concrete", True, const("0x" + "ab" * 20, b"\xab" * 20))
    add("concrete-zero", True, const("0x" + "00" * 20, b"\x00" * 20))
    add("bytes-short", False, lambda S: (raw_bytes(S, "a", 0, 19), None))
    add("bytes-long", False, lambda S: (raw_bytes(S, "a", 21), None))
    for b in (b"\xff" * 20, bytes(20), bytes(19) + b"\x01", b"\x01" + bytes(19), b"a" * 20, b"0" * 20, b"0x" + b"1" * 18, b" " * 20, b"\x00a" * 10):
        add(f"content {b!r}", True, const(b, b))
        add(f"hex of {b!r}", True, const("0x" + b.hex(), b))
    for b in (b"0x" + b"ab" * 20, b"ab" * 20, b"0x" + b"ab" * 9):
        if len(b) != 20:
            add(f"content {b[:4]!r}x{len(b)}", False, const(b))
    for i, s in enumerate(("", "0x", "0x" + "ab" * 19, "0x" + "ab" * 21, "0x" + "zz" * 20, "ab" * 19, "0x" + "ab" * 19 + "a", "0x" + "ab" * 20 + "0", "0x" + "00" * 12 + "ab" * 20, "zz" * 20)):
        add(f"text-bad-{i}", False, const(s))
    return out


def bytes_m(T):
    M = T[1]
    out = []

    def add(label, legal, build):
        out.append(Case(label, legal, build))

    def sized(lo, hi, arr=False, legal=True):
        def build(S):
            b = raw_bytes(S, "b", lo, hi)
            return (ABytearray(b) if arr else b), (b if legal else None)
        return build
    add("fits", True, sized(0, M))
    add("exact", True, sized(M, M))
    add("empty", True, const(b"", b""))
    add("bytearray", True, sized(0, M, True))
    if M in (1, 2, 4, 31, 32):
        for b in special_bytes():
            add(f"content {b[:20]!r}x{len(b)}", len(b) <= M, const(b, b if len(b) <= M else None))
    add("too-long", False, sized(M + 1, VALLEN, legal=False))
    add("one-too-long", False, sized(M + 1, M + 1, legal=False))
    add("bytearray-too-long", False, sized(M + 1, VALLEN, True, legal=False))
    return out


# contents a text or byte transformation would single out (plus the literals of the analysed source, see base.Ctx)
SPECIAL_TEXT = ["a\x00", "\x00a", "\x00", "\x00" * 32, "a\r\nb", "a\rb", "a\nb", "\r\n", " a ", "\t", " ", "\ufeffa", "a\ufeff", "\ufeff", "\ufffd", "\ufffe", "e\u0301", "\u00e9", "\u212b", "\ufb01", "\u1e9b\u0323",
                "\u0130", "\u00df", "\U0001f600", "\U0010ffff", "a\u200bb", "\u2028", "\x85", "\x7f", "\x80", "\u07ff", "\u0800", "\uffff", "0x", "0x00", "0xab", "\\n", "\\x00", "%s", "{}", "None", "&amp;", "AbC", "A", "a" * 31, "a" * 32,
                "a" * 33, "\u20ac" * 11, "\u00e9" * 16, "x" * 31 + "\u00e9", "a" * 300]
SPECIAL_BYTES = [b"\x00", b"\x00" * 31, b"\x00" * 32, b"\x00" * 33, b"a\x00", b"\x00a", b"a" + bytes(40), bytes(40) + b"a", b" a ", b"\n", b"a\r\n", b"\t", b"\xff", b"\xff" * 32, b"\xff" * 33, b"\x80", b"\x7f", b"0x", b"0xab", b"ab", b"\xef\xbb\xbfa",
                 b"\xfe\xff", b"\xc3\xa9", b"\xed\xa0\x80", b"a" * 31, b"a" * 32, b"a" * 33, b"a" * 64, b"a" * 300, bytes(range(256))]
BAD_UTF8 = [b"\xff", b"\xfe", b"\x80", b"a\x80", b"\xc3", b"a\xc3", b"\xc0\x80", b"\xc1\xbf", b"\xe2\x82", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xed\xa0\xbd\xed\xb8\x80", b"\xf0\x9f\x98", b"\xf0\x80\x80\x80",
            b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xe9", b"caf\xe9", b"a" * 31 + b"\xc3", b"\x81\x40", b"\xff\xfea\x00"]
EXTRA_TEXT, EXTRA_BYTES = [], []


def seeded_text(s):
    out = []
    for h in (s, s.upper(), s.lower()):
        for x in (h, "a" + h, h + "a", "a" + h + "a", h + h):
            if x not in out:
                out.append(x)
    return out


def special_text():
    return SPECIAL_TEXT + [x for x in EXTRA_TEXT if x not in SPECIAL_TEXT]


def special_bytes():
    return SPECIAL_BYTES + [x for x in EXTRA_BYTES if x not in SPECIAL_BYTES]


def byte_string(T):
    def any_(arr):
        def build(S):
            b = raw_bytes(S, "b")
            return (ABytearray(b) if arr else b), b
        return build
    return [Case("any", True, any_(False)), Case("bytearray", True, any_(True)), Case("empty", True, const(b"", b"")),
            Case("32", True, lambda S: (lambda b: (b, b))(raw_bytes(S, "b", 32, 32)))] + [Case(f"content {b[:20]!r}x{len(b)}", True, const(b, b)) for b in special_bytes()]


def text_string(T):
    def t(S):
        v = text(S, "t")
        return v, v
    return [Case("text", True, t), Case("empty", True, const("", "")), Case("ascii", True, const("abc", "abc")),
            Case("non-ascii", True, const("\u00e9\u20ac\U0001f600", "\u00e9\u20ac\U0001f600")),
            Case("surrogate", False, lambda S: (text(S, "t", utf8=False), None)),
            Case("surrogate-concrete", False, const("a\ud800b")),
            Case("bytes", False, lambda S: (raw_bytes(S, "b"), None)), Case("bytearray", False, lambda S: (ABytearray(raw_bytes(S, "b")), None)),
            Case("bytes-empty", False, const(b""))] + [Case(f"content {ascii(t[:20])}x{len(t)}", True, const(t, t)) for t in special_text()]


def boolean(T):
    return [Case("True", True, const(True, Lin({}, 1))), Case("False", True, const(False, Lin({}, 0)))]


OWN = {"uint": numeric, "int": numeric, "ufixed": numeric, "fixed": numeric, "address": address, "bytesM": bytes_m,
       "bytes": byte_string, "string": text_string, "bool": boolean}


def cases(T):
    own = OWN[T[0]](T)
    if T[0] == "string":
        f = [c for c in foreign(T) if not c.label.startswith(("bytes", "bytearray", "text"))]
    else:
        have = {c.label for c in own}
        f = [c for c in foreign(T) if c.label not in have]
    return own + f


def legal_cases(T):
    return [c for c in cases(T) if c.legal]


def sample(T, S, name):
    """one general legal value of T"""
    k = T[0]
    if k in ("uint", "int"):
        v = S.sym(name, *bounds(T))
        return SInt(v), v
    if k in ("ufixed", "fixed"):
        v = S.sym(name, *bounds(T))
        return SDec(v, -T[2]), v
    if k == "bool":
        b = S.I.choose(2, f"{name}") == 0
        return b, Lin({}, int(b))
    if k == "address":
        b = raw_bytes(S, name, 20, 20)
        return SStr((Tok(name, addr=(b, "0x", True)),)), b
    if k == "bytesM":
        b = raw_bytes(S, name, 0, T[1])
        return b, b
    if k in ("bytes",):
        b = raw_bytes(S, name)
        return b, b
    if k == "op":
        b = raw_bytes(S, name, *((0, VALLEN) if T[2] is None else (T[2], T[2])))
        return b, b
    if k == "string":
        v = text(S, name)
        return v, v
    raise AssertionError(T)


def fixed_sample(T, S, i):
    """a concrete legal value; which one varies with the position"""
    k = T[0]
    if k in ("uint", "int"):
        v = [0, 1, bounds(T)[1], 7, bounds(T)[0], 200 % (bounds(T)[1] + 1), 3][i % 7]
        return v, Lin({}, v)
    if k in ("ufixed", "fixed"):
        v = [0, 1, bounds(T)[1], bounds(T)[0], 10][i % 5]
        return D((1 if v < 0 else 0, tuple(map(int, str(abs(v)))), -T[2])), Lin({}, v)
    if k == "bool":
        return bool(i % 3), Lin({}, int(bool(i % 3)))
    if k == "address":
        b = bytes((i + j) % 256 for j in range(20))
        return "0x" + b.hex(), b
    if k == "bytesM":
        b = bytes((i + j) % 256 for j in range(i % (T[1] + 1)))
        return b, b
    if k == "op" and T[2] is not None:
        b = bytes((i + j) % 256 for j in range(T[2]))
        return b, b
    if k in ("bytes", "op"):
        b = bytes((i + j) % 256 for j in range([0, 1, 31, 32, 33, 2, 64][i % 7]))
        return b, b
    t = ["", "a", "\u00e9" * 17, "x" * 32, "hello"][i % 5]
    return t, t


SYMBOLIC_LEAVES = 4


def compound(T, S, name, count=2, as_list=True):
    """a legal value of any type; dynamic arrays get `count` elements (an int or a callable depth->int)"""
    k = T[0]
    if k not in ("tuple", "arr"):
        i = S.leaves = getattr(S, "leaves", -1) + 1
        if i < getattr(S, "symmax", SYMBOLIC_LEAVES) or k == "op" and i < 40:
            return sample(T, S, name)
        return fixed_sample(T, S, S.same if getattr(S, "same", None) is not None else i)
    n = count if isinstance(count, int) else count(T)
    ts = T[1] if k == "tuple" else [T[1]] * (T[2] if T[2] is not None else n)
    vs, ms = [], []
    for i, t in enumerate(ts):
        v, m = compound(t, S, f"{name}.{i}", count, not as_list)
        vs.append(v)
        ms.append(m)
    return (AList(vs) if as_list else tuple(vs)), ms
