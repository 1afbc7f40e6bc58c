"""The ABI specification, written independently of the analysed code.

Types are tuples:
  ("uint",M) ("int",M) ("ufixed",M,N) ("fixed",M,N) ("bool",) ("address",) ("bytesM",M) ("bytes",) ("string",)
  ("tuple",(T,..)) ("arr",T,n|None) ("op",name,static_size|None)
Models of values: numbers -> Lin (the scaled integer), bool -> 0/1, address/bytesM/bytes/op -> byte value,
string -> text value, tuple/arr -> list of models.
"""
import decimal

from absint.core import SBytes, SDec, SFloat, SInt, SObj, SStr, Tok
from absint.lin import Imprecise, Infeasible, Lin
from absint.models import encode_text
from absint.objects import ABytearray, ADict, AList, AObj

W = 1 << 256
MAXLEN = 1 << 62
VALLEN = 1 << 46
ZERO = Lin({}, 0)

BOOL, ADDRESS, BYTES, STRING = ("bool",), ("address",), ("bytes",), ("string",)


def U(m=256):
    return ("uint", m)


def N(m=256):
    return ("int", m)


def UF(m=128, n=18):
    return ("ufixed", m, n)


def FX(m=128, n=18):
    return ("fixed", m, n)


def B(m):
    return ("bytesM", m)


def TUP(*ts):
    return ("tuple", tuple(ts))


def ARR(t, n=None):
    return ("arr", t, n)


def OP(name, size=None):
    return ("op", name, size)


NUM = ("uint", "int", "ufixed", "fixed")


def tstr(T):
    k = T[0]
    if k in ("uint", "int"):
        return f"{k}{T[1]}"
    if k in ("ufixed", "fixed"):
        return f"{k}{T[1]}x{T[2]}"
    if k == "bytesM":
        return f"bytes{T[1]}"
    if k == "tuple":
        return "(" + ",".join(map(tstr, T[1])) + ")"
    if k == "arr":
        return tstr(T[1]) + ("[]" if T[2] is None else f"[{T[2]}]")
    if k == "op":
        return T[1]
    return k


def tlist(ts):
    return "[" + ", ".join(map(tstr, ts)) + "]"


def dyn(T):
    k = T[0]
    if k in ("bytes", "string"):
        return True
    if k == "tuple":
        return any(map(dyn, T[1]))
    if k == "arr":
        return T[2] is None or dyn(T[1])
    if k == "op":
        return T[2] is None
    return False


def ssize(T):
    """size of the encoding of a static type"""
    k = T[0]
    if k == "tuple":
        return sum(map(ssize, T[1]))
    if k == "arr":
        return T[2] * ssize(T[1])
    if k == "op":
        return T[2]
    return 32


def hsize(T):
    return 32 if dyn(T) else ssize(T)


def bounds(T):
    """inclusive range of the scaled integer"""
    if T[0] in ("uint", "ufixed"):
        return 0, (1 << T[1]) - 1
    return -(1 << (T[1] - 1)), (1 << (T[1] - 1)) - 1


# ------------------------------------------------------------------------------- byte helpers
def be(x, n=32):
    return ("be", Lin.of(x), n)


def fill(n, b=0):
    return ("fill", b, Lin.of(n))


def text_bytes(S, t):
    return encode_text(S.I, t, "utf-8", "strict") if not isinstance(t, str) else t.encode("utf-8")


def content(S, T, m):
    return text_bytes(S, m) if T[0] == "string" else S.I.as_bytes(m)


def pad32(S, n):
    q, r = S.I.divmod_lin(S.I.norm(Lin.of(n) + 31), 32)
    return S.I.norm(q * 32 - n)


# ------------------------------------------------------------------------------- encoding
def enc(S, T, m):
    """segments of the canonical encoding"""
    I = S.I
    k = T[0]
    if k in NUM or k == "bool":
        if S.lt(m, 0):
            return [be(Lin.of(m) + W)]
        return [be(m)]
    if k == "address":
        return [fill(12)] + list(I.segs(m))
    if k == "bytesM":
        b = I.as_bytes(m)
        return list(I.segs(b)) + [fill(Lin({}, 32) - I.blen(b))]
    if k in ("bytes", "string"):
        b = content(S, T, m)
        n = I.norm(I.blen(b))
        return [be(n)] + list(I.segs(b)) + [fill(pad32(S, n))]
    if k == "op":
        return list(I.segs(m))
    if k == "tuple":
        return enc_seq(S, list(T[1]), m)
    out = enc_seq(S, [T[1]] * len(m), m)
    if T[2] is None:
        return [be(len(m))] + out
    return out


def enc_seq(S, ts, ms):
    I = S.I
    heads, tails = [], []
    off = Lin({}, sum(map(hsize, ts)))
    for t, m in zip(ts, ms):
        e = enc(S, t, m)
        if dyn(t):
            heads.append(be(I.norm(off)))
            tails += e
            off = off + I.const_len(e)
        else:
            heads += e
    return heads + tails


def packed(S, T, m):
    I = S.I
    k = T[0]
    if k in NUM:
        n = T[1] // 8
        return [be(Lin.of(m) + (1 << T[1]), n)] if S.lt(m, 0) else [be(m, n)]
    if k == "bool":
        return [be(m, 1)]
    if k == "address":
        return list(I.segs(m))
    if k == "bytesM":
        b = I.as_bytes(m)
        return list(I.segs(b)) + [fill(Lin({}, T[1]) - I.blen(b))]
    if k in ("bytes", "string"):
        return list(I.segs(content(S, T, m)))
    if k == "op":
        return list(I.segs(m))
    ts = T[1] if k == "tuple" else [T[1]] * len(m)
    out = []
    for t, x in zip(ts, m):
        out += packed(S, t, x)
    return out


def as_bytes(S, segs):
    return S.I.mkbytes(tuple(segs))


# ------------------------------------------------------------------------------- comparing decoded values
def same(S, T, m, v):
    """None if Python value v is the value with model m of type T, else a reason."""
    I = S.I
    if isinstance(v, AObj) and v.native is not None:
        v = v.native
    k = T[0]
    if k in ("uint", "int"):
        if isinstance(v, bool) or not isinstance(v, (int, SInt)):
            return f"expected an int, got {v!r}"
        return None if S.eq(I.lin(v), m) else f"expected {m}, got {v!r}"
    if k == "bool":
        if not isinstance(v, bool):
            return f"expected a bool, got {v!r}"
        return None if S.eq(m, int(v)) else f"expected {m}, got {v!r}"
    if k in ("ufixed", "fixed"):
        if not isinstance(v, (decimal.Decimal, SDec)) or isinstance(v, decimal.Decimal) and not v.is_finite():
            return f"expected a Decimal, got {v!r}"
        x, e = I.dec_parts(v)
        lo = min(e, -T[2])
        return None if S.eq(x * 10 ** (e - lo), Lin.of(m) * 10 ** (-T[2] - lo)) else f"expected ({m})E-{T[2]}, got {v!r}"
    if k == "address":
        if isinstance(v, str):
            import re
            if not re.fullmatch("0x[0-9a-f]{40}", v):
                return f"expected lower-case 0x hex text, got {v!r}"
            return None if I.eq_bytes(bytes.fromhex(v[2:]), m) else "address differs"
        if isinstance(v, SStr) and len(v.pieces) == 1 and isinstance(v.pieces[0], Tok) and v.pieces[0].addr is not None:
            b, pre, norm = v.pieces[0].addr
            if pre != "0x" or not norm:
                return f"expected lower-case 0x hex text, got {v!r}"
            return None if I.eq_bytes(b, m) else "address differs"
        if isinstance(v, SStr):
            raise Imprecise(f"address text {v!r}")
        return f"expected address text, got {v!r}"
    if k in ("bytesM", "bytes", "op"):
        if not isinstance(v, (bytes, SBytes)):
            return f"expected bytes, got {v!r}"
        want = I.as_bytes(m)
        if k == "bytesM":
            want = as_bytes(S, list(I.segs(want)) + [fill(Lin({}, T[1]) - I.blen(want))])
        return None if I.eq_bytes(v, want) else f"expected {want!r}, got {v!r}"
    if k == "string":
        if not isinstance(v, (str, SStr)):
            return f"expected text, got {v!r}"
        if isinstance(v, SStr) and isinstance(m, SStr) and v.pieces == m.pieces:
            return None
        if isinstance(v, SStr):
            for p in v.pieces:
                if isinstance(p, Tok) and p.src is not None and (p.src[0] != "utf8" or p.src[2] != "strict"):
                    return f"text decoded as {p.src[0]}/{p.src[2]}"
        return None if I.eq_bytes(text_bytes(S, v), text_bytes(S, m)) else f"expected {m!r}, got {v!r}"
    ts = T[1] if k == "tuple" else [T[1]] * len(m)
    return same_seq(S, ts, m, v)


def same_seq(S, ts, ms, v):
    if not isinstance(v, tuple):
        return f"expected a tuple, got {v!r}"
    if len(v) != len(ms):
        return f"expected {len(ms)} values, got {len(v)}"
    for t, m, x in zip(ts, ms, v):
        r = same(S, t, m, x)
        if r:
            return r
    return None


# ------------------------------------------------------------------------------- decoding
class Bad(Exception):
    """the data are not a valid encoding: kind in insufficient|pointer|padding|bool|strpad|utf8"""

    def __init__(self, kind, T=None):
        self.kind, self.T = kind, T
        super().__init__(kind)


class Skip(Exception):
    """cannot tell without splitting the partition"""


class Decoder:
    """What the data mean under the specification.  With fork=False only what the
    partition already determines is used; undetermined questions raise Skip."""

    def __init__(self, S, src, L, strict, fork=True, problems=None, cap=64, collect=False, nested_strict=False):
        self.S, self.I, self.src, self.L, self.strict, self.fork = S, S.I, src, L, strict, fork
        self.problems = problems if problems is not None else []
        self.cap = cap
        self.collect = collect
        self.nested_strict = nested_strict
        self.depth = 0

    def q(self, f, *a):
        if self.fork:
            return f(*a)
        from absint.core import Fork
        self.I.entail = True
        try:
            return f(*a)
        except Fork:
            raise Skip()
        finally:
            self.I.entail = False

    def need(self, pos, n, T=None):
        if not self.q(self.S.le, Lin.of(pos) + n, self.L):
            raise Bad("insufficient", T)

    def word(self, pos, n=32):
        return self.I.word(self.src, Lin.of(pos), n)

    def raw(self, pos, n):
        return self.I.mkbytes((("raw", self.src, Lin.of(pos), Lin.of(n)),))

    def scalar(self, T, pos):
        """static scalar"""
        k = T[0]
        if k == "op":
            self.need(pos, T[2], T)
            return self.raw(pos, T[2])
        self.need(pos, 32, T)
        if k in ("uint", "ufixed"):
            w = self.word(pos)
            if T[1] < 256 and self.q(self.S.ge, w, 1 << T[1]):
                raise Bad("padding", T)
            return w
        if k in ("int", "fixed"):
            w = self.word(pos)
            h = 1 << (T[1] - 1)
            if self.q(self.S.lt, w, h):
                return w
            if self.q(self.S.lt, w, W - h):
                raise Bad("padding", T)
            return w - W
        if k == "bool":
            w = self.word(pos)
            if self.q(self.S.ge, w, 2):
                raise Bad("bool", T)
            return w
        if k == "address":
            w = self.word(pos)
            if self.q(self.S.ge, w, 1 << 160):
                raise Bad("padding", T)
            return self.raw(Lin.of(pos) + 12, 20)
        if k == "bytesM":
            if T[1] < 32 and not self.q(self.S.eq, self.word(Lin.of(pos) + T[1], 32 - T[1]), 0):
                raise Bad("padding", T)
            return self.raw(pos, T[1])
        raise AssertionError(T)

    def value(self, T, pos):
        """the encoding of T starts at pos"""
        k = T[0]
        S = self.S
        if k == "op" and T[2] is None:           # the opaque dynamic leaf of the harness: 32 bytes
            self.need(pos, 32, T)
            return self.raw(pos, 32)
        if k in ("bytes", "string"):
            self.need(pos, 32, T)
            n = self.word(pos)
            start = Lin.of(pos) + 32
            if self.strict or self.nested_strict and self.depth > 1:
                q, r = self.I.divmod_lin(self.I.norm(n + 31), 32)
                self.need(start, q * 32, T)
                p = self.I.norm(q * 32 - n)
                if self.q(S.gt, p, 0) and not self.q(self.I.all_fill, ("raw", self.src, self.I.norm(start + n), p), 0):
                    raise Bad("strpad", T)
            else:
                self.need(start, n, T)
            b = self.raw(start, n)
            if k == "string":
                from absint.core import NativeError
                from absint.models import decode_text
                try:
                    t = self.q(decode_text, self.I, b, "utf-8", "strict")
                except NativeError:
                    raise Bad("utf8", T)
                return t
            return b
        if k == "tuple":
            return self.seq(list(T[1]), pos)
        if k == "arr":
            if T[2] is not None:
                return self.seq([T[1]] * T[2], pos)
            self.need(pos, 32, T)
            return self.seq(T[1], Lin.of(pos) + 32, self.I.norm(self.word(pos)))
        return self.scalar(T, pos)

    def static(self, T, pos):
        if T[0] == "tuple":
            out = []
            for t in T[1]:
                out.append(self.static(t, pos))
                pos = Lin.of(pos) + ssize(t)
            return out
        if T[0] == "arr":
            out = []
            for i in range(T[2]):
                out.append(self.static(T[1], Lin.of(pos) + i * ssize(T[1])))
            return out
        return self.scalar(T, pos)

    def elems(self, ts, n):
        if n is None:
            yield from ts
            return
        for i in range(self.cap + 1):
            if not self.q(self.S.gt, n, i):
                return
            if i == self.cap:
                raise Imprecise("element count beyond the bound")
            yield ts

    def seq(self, ts, base, n=None):
        self.depth += 1
        try:
            return self.seq_(ts, base, n)
        finally:
            self.depth -= 1

    def seq_(self, ts, base, n=None):
        """container whose heads start at base (ts: the types; or one type and the count n); every
        problem of the heads is collected before anything is followed, since which one is
        reported is not specified"""
        base = Lin.of(base)
        pos = base
        end = base + (sum(map(hsize, ts)) if n is None else n * hsize(ts))
        out, probs, unknown = [], [], False
        it = self.elems(ts, n)
        while True:
            try:
                t = next(it)
            except StopIteration:
                break
            except Skip:
                unknown = True
                break
            try:
                if dyn(t):
                    self.need(pos, 32, t)
                    off = self.word(pos)
                    at = self.I.norm(base + off)
                    if self.q(self.S.lt, at, end) or self.q(self.S.ge, at, self.L):
                        raise Bad("pointer", t)
                    out.append((t, at))
                else:
                    out.append((None, self.static(t, pos)))
            except Bad as e:
                probs.append(e)
                if e.kind == "insufficient":
                    break
                if not self.fork:
                    break
                if not self.collect:
                    raise
            except Skip:
                unknown = True
                out.append(None)
            pos = pos + hsize(t)
        if probs:
            self.problems.extend(probs)
            raise probs[0]
        res = []
        for o in out:
            if o is None:
                res.append(None)
            elif o[0] is None:
                res.append(o[1])
            else:
                try:
                    res.append(self.value(o[0], o[1]))
                except Skip:
                    unknown = True
                    res.append(None)
                except Bad as e:
                    if e not in self.problems:
                        self.problems.append(e)
                    if not self.collect:
                        raise
                    probs.append(e)
        if probs:
            raise probs[0]
        if unknown:
            raise Skip()
        return res
