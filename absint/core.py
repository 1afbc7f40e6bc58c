"""Abstract values and transfer functions (integers, bytes, text, decimals)."""
import decimal
from fractions import Fraction

from .lin import Imprecise, Infeasible, Lin, Store, Sym

MAXSIZE = 2**63 - 1


def _minlen(x):
    return (x.bit_length() + 7) // 8 or 1


class Val:
    __slots__ = ()


class SInt(Val):
    __slots__ = ("lin",)

    def __init__(self, lin):
        self.lin = lin

    def __repr__(self):
        return f"<{self.lin}>"


class SMono(Val):
    """f(|v|) for a non-decreasing f: what bit_length() and friends give."""
    __slots__ = ("v", "f", "d")

    def __init__(self, v, f, d):
        self.v, self.f, self.d = v, f, d

    def __repr__(self):
        return f"<{self.d}({self.v})>"


class SComp(SMono):
    """k - f(|v|) for a non-decreasing f."""
    __slots__ = ("k",)

    def __init__(self, m, k):
        self.v, self.f, self.d, self.k = m.v, m.f, f"{k}-{m.d}", k


class SFloat(Val):
    """A finite float / Fraction of unknown value."""
    __slots__ = ("lin", "kind")

    def __init__(self, lin, kind="float"):
        self.lin, self.kind = lin, kind

    def __repr__(self):
        return f"<{self.kind} {self.lin}>"


class SDec(Val):
    """A finite decimal.Decimal equal to num * 10**exp."""
    __slots__ = ("num", "exp")

    def __init__(self, num, exp):
        self.num, self.exp = num, exp

    def __repr__(self):
        return f"<Decimal ({self.num})E{self.exp}>"


class SBytes(Val):
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs

    def __repr__(self):
        return "<bytes " + fmt_segs(self.segs) + ">"


def fmt_segs(segs):
    out = []
    for s in segs:
        if s[0] == "be":
            if s[1].is_const():
                b = s[1].c.to_bytes(s[2], "big")
                out.append(f"{b.hex() if len(b) <= 8 else b[:2].hex() + '..' + b[-3:].hex()}({s[2]})")
            else:
                out.append(f"be{s[2]}[{s[1]}]")
        elif s[0] == "min":
            out.append(f"bemin[{s[1]}]")
        elif s[0] == "zpad":
            out.append(f"zpad{s[2]}[{s[1]}]")
        elif s[0] == "fill":
            out.append(f"{s[1]:02x}*({s[2]})")
        else:
            out.append(f"{s[1]}[{s[2]}:+{s[3]}]")
    return " | ".join(out) or "empty"


class Tok:
    """A piece of unknown text."""
    __slots__ = ("name", "utf8", "addr", "ln", "src")

    def __init__(self, name, utf8=True, addr=None, ln=None, src=None):
        self.name, self.utf8, self.addr, self.ln, self.src = name, utf8, addr, ln, src

    def __repr__(self):
        return f"{{{self.name}}}"


class SStr(Val):
    """Concatenation of str constants, ('int', Lin) renderings and Toks."""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = pieces

    def __repr__(self):
        return "<str " + "".join(p if isinstance(p, str) else repr(p) for p in self.pieces) + ">"


class SObj(Val):
    """A Python object of a given kind about which nothing else is known."""
    __slots__ = ("kind", "name")

    def __init__(self, kind, name=None):
        self.kind, self.name = kind, name or kind

    def __repr__(self):
        return f"<{self.name}>"


class Unknown(Val):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<unknown {self.why}>"


class NativeError(Exception):
    """A built-in operation raised; the interpreter turns it into an abstract exception."""

    def __init__(self, cls, *args):
        self.cls, self.a = cls, args
        super().__init__(cls, *args)


class Fork(Exception):
    pass


class Path:
    """State of one partition (trace)."""

    def __init__(self, decisions):
        self.store = Store()
        self.dec = decisions
        self.ptr = 0
        self.trace = []
        self.words = {}
        self.atoms = {}
        self.fills = []
        self.events = []
        self.reads = []
        self.imprecise = []
        self.fuel = 400000


class Dom:
    """Transfer functions; `self.p` is the current Path."""

    def __init__(self):
        self.p = Path([])
        self.entail = False

    # ---------------------------------------------------------------- partitioning
    def loc(self):
        return None

    def choose(self, n, why):
        p = self.p
        if self.entail:
            raise Fork(why)
        if p.ptr < len(p.dec):
            k = p.dec[p.ptr][0]
        else:
            k = 0
            p.dec.append([0, n])
        p.ptr += 1
        p.trace.append((why, k, self.loc()))
        return k

    def vague(self, why):
        """Record that this partition was entered over-approximately."""
        if self.entail:
            raise Fork(why)
        self.p.imprecise.append((why, self.loc()))

    def is_ge0(self, lin, strict=False):
        st = self.p.store
        d = st.ge0(lin, strict)
        if d is None:
            k = self.choose(2, f"{lin} {'>' if strict else '>='} 0")
            if k == 0:
                st.assume_ge0(lin, strict)
                return True
            st.assume_ge0(-lin, not strict)
            return False
        return d

    def is_eq0(self, lin):
        st = self.p.store
        d = st.eq0(lin)
        if d is None:
            k = self.choose(2, f"{lin} == 0")
            if k == 0:
                st.assume_eq0(lin)
                return True
            st.assume_neq0(lin)
            return False
        return d

    def atom(self, key, why, pre=None):
        """A memoised unknown truth value."""
        if key in self.p.atoms:
            return self.p.atoms[key]
        k = self.choose(2, why)
        self.p.atoms[key] = k == 0
        return k == 0

    def norm(self, lin):
        return self.p.store.norm(lin)

    # ---------------------------------------------------------------- integers
    def lin(self, v):
        if isinstance(v, SInt):
            return v.lin
        if isinstance(v, bool):
            return Lin({}, int(v))
        if isinstance(v, int):
            return Lin({}, v)
        raise Imprecise(f"not an integer: {v!r}")

    def mkint(self, lin):
        if not isinstance(lin, Lin):
            return lin
        lin = self.norm(lin)
        return lin.c if not lin.t else SInt(lin)

    def is_int(self, v):
        return isinstance(v, (int, SInt))

    def divmod_lin(self, e, m):
        """Quotient and remainder of a linear form by a positive constant."""
        st = self.p.store
        for _ in range(64):
            e = self.norm(e)
            q, r = {}, {}
            for s, k in e.t.items():
                a, b = divmod(k, m)
                if b * 2 > m:
                    a, b = a + 1, b - m
                if a:
                    q[s] = a
                if b:
                    r[s] = b
            cq, cr = divmod(e.c, m)
            R = Lin(r, cr)
            Q = Lin(q, cq)
            lo, hi = st.rng(R)
            if lo is not None and hi is not None:
                a, b = lo // m, hi // m
                if a == b:
                    return Q + a, R - m * a
                if b - a <= 3 and all((st.bounds(s)[1] or 0) - (st.bounds(s)[0] or 0) < m for s in r):
                    for k in range(a, b):
                        # R < (k+1)*m ?
                        if self.is_ge0(Lin({}, (k + 1) * m - 1) - R):
                            return Q + k, R - m * k
                    return Q + b, R - m * b
            # split a symbol
            cand = []
            for s, k in r.items():
                if not s.integer:
                    continue
                lo1, hi1 = st.bounds(s)
                step = m // abs(k) if m % abs(k) == 0 else None
                if step and step > 1 and (lo1 is None or hi1 is None or hi1 - lo1 >= step or lo1 // step != hi1 // step):
                    cand.append((s, step))
            if not cand:
                raise Imprecise(f"division of {e} by {m}")
            s, step = max(cand, key=lambda x: x[1])
            self.split_sym(s, step)
        raise Imprecise("division does not settle")

    def split_sym(self, s, m):
        st = self.p.store
        lo, hi = st.bounds(s)
        q = st.fresh(f"{s.name}/{_short(m)}", None if lo is None else lo // m, None if hi is None else hi // m)
        r = st.fresh(f"{s.name}%{_short(m)}", 0, m - 1)
        st._subst(s, Lin({q: m, r: 1}, 0))
        lo, hi = st.bounds(q)
        if lo is not None and lo == hi:
            st._subst(q, Lin({}, lo), keep_bounds=False)

    def and_const(self, B, m):
        """B & m, run by run of the mask's one bits"""
        if m < 0:
            return B - self.and_const(B, ~m)
        out, sh, runs = Lin({}, 0), 0, 0
        while m:
            z = (m & -m).bit_length() - 1
            m >>= z
            sh += z
            w = (~m & (m + 1)).bit_length() - 1     # length of the run of ones
            runs += 1
            if runs > 16:
                raise Imprecise("mask")
            Q = self.divmod_lin(B, 1 << sh)[0] if sh else B
            out = out + self.divmod_lin(Q, 1 << w)[1] * (1 << sh)
            m >>= w
            sh += w
        return out

    def int_binop(self, op, a, b):
        if isinstance(a, (SMono,)) or isinstance(b, SMono):
            return self.mono_binop(op, a, b)
        A, B = self.lin(a), self.lin(b)
        A, B = self.norm(A), self.norm(B)
        if op == "+":
            return self.mkint(A + B)
        if op == "-":
            return self.mkint(A - B)
        if op == "*":
            if A.t and B.t:
                raise Imprecise("non-linear product")
            return self.mkint(A * B)
        if op in ("//", "%"):
            if B.t:
                if self.is_eq0(B):
                    raise NativeError("ZeroDivisionError", "integer division or modulo by zero")
                raise Imprecise("division by a symbolic amount")
            m = B.c
            if m == 0:
                raise NativeError("ZeroDivisionError", "integer division or modulo by zero")
            if m < 0:
                Q, R = self.divmod_lin(-A, -m)
                R = -R
            else:
                Q, R = self.divmod_lin(A, m)
            return self.mkint(Q if op == "//" else R)
        if op == "<<":
            if B.t:
                raise Imprecise("symbolic shift")
            if B.c < 0:
                raise NativeError("ValueError", "negative shift count")
            return self.mkint(A * (1 << B.c))
        if op == ">>":
            if B.t:
                raise Imprecise("symbolic shift")
            return self.mkint(self.divmod_lin(A, 1 << B.c)[0])
        if op == "**":
            if not B.t and B.c == 0:
                return 1
            if not B.t and B.c == 1:
                return self.mkint(A)
            raise Imprecise("symbolic power")
        if op == "&":
            if A.t and B.t:
                raise Imprecise("symbolic and")
            if A.t:
                A, B = B, A
            return self.mkint(self.and_const(B, A.c))
        if op in ("|", "^"):
            if A == B:
                return self.mkint(A) if op == "|" else 0
            for X, Y in ((A, B), (B, A)):
                lo, hi = self.p.store.rng(Y)
                if lo is None or hi is None or lo < 0:
                    continue
                m = 1 << hi.bit_length()
                if self.norm(self.divmod_lin(X, m)[1]) == Lin({}, 0):
                    return self.mkint(X + Y)
            if not A.t or not B.t:
                if A.t:
                    A, B = B, A
                return self.mkint(B + A.c - self.and_const(B, A.c) * (1 if op == "|" else 2))
            raise Imprecise("bitwise operation")
        raise Imprecise(f"integer {op}")

    def mono_binop(self, op, a, b):
        if isinstance(b, SMono) and not isinstance(b, SComp) and isinstance(a, int) and op == "-":
            return SComp(b, a)
        if isinstance(a, SComp):
            a = self.resolve_mono(a)
        if isinstance(b, SComp):
            b = self.resolve_mono(b)
        if not isinstance(a, SMono) and not isinstance(b, SMono):
            return self.int_binop(op, a, b)
        if isinstance(a, SMono) and isinstance(b, int):
            f, k = a.f, b
            if op == "+":
                return SMono(a.v, lambda x: f(x) + k, f"{a.d}+{k}")
            if op == "-":
                return SMono(a.v, lambda x: f(x) - k, f"{a.d}-{k}")
            if op == "*" and k > 0:
                return SMono(a.v, lambda x: f(x) * k, f"{a.d}*{k}")
            if op == "//" and k > 0:
                return SMono(a.v, lambda x: f(x) // k, f"({a.d})//{k}")
            if op == ">>" and k >= 0:
                return SMono(a.v, lambda x: f(x) >> k, f"({a.d})>>{k}")
        if isinstance(b, SMono) and isinstance(a, int):
            if op == "+" or (op == "*" and a > 0):
                return self.mono_binop(op, b, a)
        if isinstance(a, SMono):
            a = self.resolve_mono(a)
        if isinstance(b, SMono):
            b = self.resolve_mono(b)
        return self.int_binop(op, a, b)

    def resolve_mono(self, m):
        """A bit length (or a number derived from one) made definite, by splitting on its value."""
        if isinstance(m, SComp):
            return m.k - self.resolve_mono(SMono(m.v, m.f, ""))
        lo, hi = self.p.store.rng(self.norm(m.v))
        if lo is None or hi is None:
            raise Imprecise("bit length of an unbounded number")
        top = m.f(max(abs(lo), abs(hi)))
        low = m.f(min(abs(lo), abs(hi)) if lo > 0 or hi < 0 else 0)
        if top - low > 300:
            raise Imprecise("too many bit lengths")
        while top > low:
            if self.mono_ge(m, top):
                break
            top -= 1
        return top

    def mono_ge(self, m, c):
        """m.f(|v|) >= c"""
        if isinstance(m, SComp):
            return not self.mono_ge(SMono(m.v, m.f, ""), m.k - c + 1)
        f = m.f
        top = 1 << 700
        if f(0) >= c:
            return True
        if f(top) < c:
            return False
        lo, hi = 0, top
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if f(mid) >= c:
                hi = mid
            else:
                lo = mid
        if self.is_ge0(m.v - hi):
            return True
        if self.is_ge0(-m.v - hi):
            return True
        return False

    def compare_int(self, op, a, b):
        if isinstance(a, SMono) or isinstance(b, SMono):
            if isinstance(b, SMono):
                if isinstance(a, SMono):
                    if a.d == b.d and self.norm(a.v) == self.norm(b.v):
                        return {"==": True, "!=": False, "<": False, "<=": True, ">": False, ">=": True}[op]
                    b = self.resolve_mono(b)
                    return self.compare_int(op, a, b)
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if not isinstance(b, int):
                return self.compare_int(op, self.resolve_mono(a), b)
            if op == ">=":
                return self.mono_ge(a, b)
            if op == "<":
                return not self.mono_ge(a, b)
            if op == ">":
                return self.mono_ge(a, b + 1)
            if op == "<=":
                return not self.mono_ge(a, b + 1)
            r = self.mono_ge(a, b) and not self.mono_ge(a, b + 1)
            return r if op == "==" else not r
        return self.compare_lin(op, self.lin(a), self.lin(b))

    def compare_lin(self, op, A, B):
        d = A - B
        if op == "==":
            return self.is_eq0(d)
        if op == "!=":
            return not self.is_eq0(d)
        if op == ">=":
            return self.is_ge0(d)
        if op == "<":
            return not self.is_ge0(d)
        if op == "<=":
            return self.is_ge0(-d)
        if op == ">":
            return not self.is_ge0(-d)
        raise Imprecise(op)

    # ---------------------------------------------------------------- bytes
    def mkbytes(self, segs):
        out = []
        for s in segs:
            if s[0] == "be":
                if s[2] == 0:
                    continue
                e = self.norm(s[1])
                if out and e.is_const() and out[-1][0] == "be" and out[-1][1].is_const():
                    p = out[-1]
                    out[-1] = ("be", Lin({}, (p[1].c << (8 * s[2])) + e.c), p[2] + s[2])
                else:
                    out.append(("be", e, s[2]))
            elif s[0] == "fill":
                n = self.norm(s[2])
                if n.is_const():
                    if n.c <= 0:
                        continue
                    if n.c <= 4096:
                        v = int.from_bytes(bytes([s[1]]) * n.c, "big")
                        if out and out[-1][0] == "be" and out[-1][1].is_const():
                            p = out[-1]
                            out[-1] = ("be", Lin({}, (p[1].c << (8 * n.c)) + v), p[2] + n.c)
                        else:
                            out.append(("be", Lin({}, v), n.c))
                        continue
                if out and out[-1][0] == "fill" and out[-1][1] == s[1]:
                    out[-1] = ("fill", s[1], out[-1][2] + n)
                else:
                    out.append(("fill", s[1], n))
            elif s[0] == "raw":
                n = self.norm(s[3])
                if n.is_const() and n.c == 0:
                    continue
                st = self.norm(s[2])
                if out and out[-1][0] == "raw" and out[-1][1] == s[1] and self.norm(out[-1][2] + out[-1][3]) == st:
                    out[-1] = ("raw", s[1], out[-1][2], self.norm(out[-1][3] + n))
                else:
                    out.append(("raw", s[1], st, n))
            elif s[0] == "zpad":
                out.append(s)
            else:
                e = self.norm(s[1])
                if out and out[-1][0] == "zpad" and self.norm(out[-1][1]) == e:
                    k = out.pop()[2]
                    if not self.is_ge0(e):
                        raise NativeError("OverflowError", "can't convert negative int to unsigned")
                    if k > 0 and not self.is_ge0(e - (1 << (8 * k))):
                        out.append(("be", e, k))
                        continue
                if e.is_const() and e.c >= 0:
                    n = (e.c.bit_length() + 7) // 8 or 1
                    out.append(("be", e, n))
                else:
                    out.append(("min", e))
        if not out:
            return b""
        if len(out) == 1 and out[0][0] == "be" and out[0][1].is_const():
            v = out[0][1].c
            return v.to_bytes(out[0][2], "big")
        return SBytes(tuple(out))

    def segs(self, b):
        if isinstance(b, (bytes, bytearray)):
            return (("be", Lin({}, int.from_bytes(b, "big")), len(b)),) if b else ()
        if isinstance(b, SBytes):
            return b.segs
        raise Imprecise(f"not bytes: {b!r}")

    def resolve_min(self, e):
        """A minimal-length big-endian number, with its length made definite."""
        e = self.norm(e)
        if not self.is_ge0(e):
            raise NativeError("OverflowError", "can't convert negative int to unsigned")
        st = self.p.store
        lo, hi = st.rng(e)
        nb = lambda x: (x.bit_length() + 7) // 8 or 1
        if hi is None:
            raise Imprecise("unbounded number rendered as bytes")
        a, b = nb(max(lo, 0)), nb(hi)
        n = b
        while n > a:
            if self.is_ge0(e - (1 << (8 * (n - 1)))):
                break
            n -= 1
        return ("be", e, n)

    def resolved(self, segs):
        if any(s[0] in ("min", "zpad") for s in segs):
            out = []
            for s in segs:
                if s[0] == "zpad":
                    n = s[2] - self.resolve_min(s[1])[2]
                    if n > 0:
                        out.append(("be", Lin({}, 0), n))
                else:
                    out.append(self.resolve_min(s[1]) if s[0] == "min" else s)
            return tuple(out)
        return segs

    def seg_len(self, s):
        return Lin({}, s[2]) if s[0] == "be" else s[2] if s[0] == "fill" else s[3]

    def blen(self, b):
        if isinstance(b, (bytes, bytearray)):
            return Lin({}, len(b))
        n = Lin({}, 0)
        for s in self.resolved(b.segs):
            n = n + self.seg_len(s)
        return self.norm(n)

    def bytes_len(self, b):
        if isinstance(b, SBytes) and len(b.segs) == 1 and b.segs[0][0] == "min":
            e = b.segs[0][1]
            return SMono(e, _minlen, "minlen")
        return self.mkint(self.blen(b))

    def concat(self, a, b):
        return self.mkbytes(self.segs(a) + self.segs(b))

    def repeat(self, b, n):
        if isinstance(b, SBytes):
            b = self.mkbytes(self.resolved(b.segs))
        if isinstance(n, SComp) and b == b"\0" and n.f is _minlen:
            return self.mkbytes((("zpad", n.v, n.k),))
        if isinstance(n, SMono):
            n = self.resolve_mono(n)
        if isinstance(n, int):
            if n <= 0:
                return b""
            if isinstance(b, bytes) and len(b) * n > 1 << 16:
                if len(b) == 1:
                    return self.mkbytes((("fill", b[0], Lin({}, n)),))
                raise Imprecise("huge repetition")
            if isinstance(b, bytes):
                return b * n
            if n > 600:
                raise Imprecise("huge repetition")
            return self.mkbytes(self.segs(b) * n)
        if isinstance(b, bytes) and len(set(b)) <= 1:
            if not b or not self.is_ge0(self.lin(n)):
                return b""
            return self.mkbytes((("fill", b[0], self.lin(n) * len(b)),))
        raise Imprecise("symbolic repetition")

    def split_bytes(self, segs, pos):
        """Split at position pos (0 <= pos <= total length known)."""
        left, rest = [], list(segs)
        rem = self.norm(pos)
        while rest:
            if rem.is_const() and rem.c == 0:
                break
            s = rest[0]
            n = self.norm(self.seg_len(s))
            if self.is_ge0(rem - n):
                left.append(s)
                rest.pop(0)
                rem = self.norm(rem - n)
                continue
            rem = self.norm(rem)
            if not rem.is_const() and s[0] == "be":
                for k in range(0, s[2]):
                    if self.is_eq0(rem - k):
                        rem = Lin({}, k)
                        break
                rem = self.norm(rem)
                if not rem.is_const():
                    raise Imprecise("slice position")
                if rem.c == 0:
                    break
            if s[0] == "be":
                k = rem.c
                q, r = self.divmod_lin(s[1], 1 << (8 * (s[2] - k)))
                left.append(("be", q, k))
                rest[0] = ("be", r, s[2] - k)
            elif s[0] == "fill":
                left.append(("fill", s[1], rem))
                rest[0] = ("fill", s[1], n - rem)
            else:
                left.append(("raw", s[1], s[2], rem))
                rest[0] = ("raw", s[1], s[2] + rem, n - rem)
            break
        return tuple(left), tuple(rest)

    def clamp_index(self, i, n, default):
        """Python slice index -> Lin in [0, n]."""
        if i is None:
            return default
        if isinstance(i, SMono):
            i = self.resolve_mono(i)
        e = self.lin(i)
        if not self.is_ge0(e):
            e = e + n
            if not self.is_ge0(e):
                return Lin({}, 0)
        if self.is_ge0(e - n):
            return n
        return e

    def slice_bytes(self, b, lo, hi):
        segs = self.resolved(self.segs(b))
        n = Lin({}, 0)
        for s in segs:
            n = n + self.seg_len(s)
        n = self.norm(n)
        a = self.clamp_index(lo, n, Lin({}, 0))
        z = self.clamp_index(hi, n, n)
        if not self.is_ge0(z - a, True):
            return b""
        _, right = self.split_bytes(segs, a)
        left, _ = self.split_bytes(right, self.norm(z - a))
        return self.mkbytes(left)

    def just(self, b, width, fill, right):
        """bytes.rjust / ljust"""
        if not (isinstance(fill, bytes) and len(fill) == 1):
            raise Imprecise("fill byte")
        segs = self.segs(b)
        if right and fill == b"\0" and len(segs) == 1 and segs[0][0] == "min" and isinstance(width, int):
            e = segs[0][1]
            if not self.is_ge0(e):
                raise NativeError("OverflowError", "can't convert negative int to unsigned")
            if width > 0 and self.is_ge0(Lin({}, (1 << (8 * width)) - 1) - e):
                return self.mkbytes((("be", e, width),))
            return b
        segs = self.resolved(segs)
        n = Lin({}, 0)
        for s in segs:
            n = n + self.seg_len(s)
        pad = self.lin(width) - n
        if not self.is_ge0(pad, True):
            return self.mkbytes(segs)
        f = (("fill", fill[0], pad),)
        return self.mkbytes(f + segs if right else segs + f)

    def const_len(self, segs):
        n = Lin({}, 0)
        for s in segs:
            n = n + self.seg_len(s)
        return self.norm(n)

    def word(self, src, start, n):
        """The integer held by the n bytes of byte source `src` at `start`."""
        start = self.norm(start)
        tab = self.p.words.setdefault(src, [])
        hits = []
        for i, (s, m, e) in enumerate(tab):
            d = self.norm(s - start)
            if d.is_const() and d.c < n and d.c + m > 0:
                hits.append((d.c, m, e, i))
        if not hits:
            f = self.known_fill(src, start, Lin({}, n))
            if f is not None:
                return Lin({}, int.from_bytes(bytes([f]) * n, "big"))
            sym = self.p.store.fresh(f"{src}[{start}:+{n}]", 0, (1 << (8 * n)) - 1)
            tab.append((start, n, Lin.sym(sym)))
            return Lin.sym(sym)
        hits.sort(key=lambda h: h[0])
        total, pos = Lin({}, 0), 0
        newparts = []
        done = []                      # (a, z, value) pieces covering [0, pos)

        def sub(e, d, m, a, z):
            """bytes [a, z) of the entry e covering [d, d+m)"""
            part = e
            if z < d + m:
                part = self.divmod_lin(part, 1 << (8 * (d + m - z)))[0]
            if a > d:
                part = self.divmod_lin(part, 1 << (8 * (z - a)))[1]
            return part

        for d, m, e, i in hits:
            if d > pos:
                sym = self.p.store.fresh(f"{src}[{start + pos}:+{d - pos}]", 0, (1 << (8 * (d - pos))) - 1)
                newparts.append((self.norm(start + pos), d - pos, Lin.sym(sym)))
                total = total + Lin.sym(sym) * (1 << (8 * (n - d)))
                done.append((pos, d, Lin.sym(sym)))
                pos = d
            # two entries that turned out to describe the same bytes must agree
            for a0, z0, v0 in list(done):
                a, z = max(d, a0), min(d + m, z0)
                if a < z:
                    x, y = sub(e, d, m, a, z), sub(v0, a0, z0 - a0, a, z)
                    self.p.store.assume_eq0(self.norm(x - y))
            a, z = max(d, pos, 0), min(d + m, n)
            if a >= z:
                continue
            part = sub(e, d, m, a, z)
            total = total + part * (1 << (8 * (n - z)))
            done.append((a, z, part))
            pos = z
        if pos < n:
            sym = self.p.store.fresh(f"{src}[{start + pos}:+{n - pos}]", 0, (1 << (8 * (n - pos))) - 1)
            newparts.append((self.norm(start + pos), n - pos, Lin.sym(sym)))
            total = total + Lin.sym(sym)
        tab.extend(newparts)
        return self.norm(total)

    def to_int(self, b):
        """big-endian integer value"""
        segs = self.resolved(self.segs(b))
        total = Lin({}, 0)
        for s in segs:
            n = self.norm(self.seg_len(s))
            if not n.is_const():
                if len(segs) == 1 and s[0] in ("raw",):
                    if self.all_fill(s, 0):
                        return Lin({}, 0)
                    return Lin.sym(self.p.store.fresh("nonzero", 1))
                if len(segs) == 1 and s[0] == "fill" and s[1] == 0:
                    return Lin({}, 0)
                raise Imprecise("integer of bytes of unknown length")
            n = n.c
            if s[0] == "be":
                v = s[1]
            elif s[0] == "fill":
                v = Lin({}, int.from_bytes(bytes([s[1]]) * n, "big"))
            else:
                if n > 4096:
                    raise Imprecise("long integer")
                v = self.word(s[1], s[2], n)
            total = total * (1 << (8 * n)) + v
        return self.norm(total)

    def known_fill(self, src, start, n):
        """the byte that the region is known to consist of"""
        ge = self.p.store.ge0
        for src2, s, m, byte, yes in self.p.fills:
            if yes and src2 == src and ge(self.norm(start - s)) and ge(self.norm(s + m - start - n)):
                return byte

    def all_fill(self, raw, byte):
        n, src, start = self.norm(raw[3]), raw[1], self.norm(raw[2])
        if n.is_const() and n.c == 0:
            return True
        ge = self.p.store.ge0
        for src2, s, m, b2, yes in self.p.fills:
            if src2 != src:
                continue
            if yes:
                if ge(self.norm(start - s)) and ge(self.norm(s + m - start - n)):
                    return b2 == byte or not self.is_ge0(n - 1)
                if b2 != byte and ge(self.norm(m - 1)) and ge(self.norm(s - start)) and ge(self.norm(start + n - s - m)):
                    return False
            elif b2 == byte and ge(self.norm(s - start)) and ge(self.norm(start + n - s - m)):
                return False
        if n.is_const() and n.c <= 64:
            return self.is_eq0(self.word(src, start, n.c) - int.from_bytes(bytes([byte]) * n.c, "big"))
        if not self.is_ge0(n - 1):
            return True
        # bytes of the region that are already known
        for s, m, e in list(self.p.words.get(src, ())):
            if ge(self.norm(s - start)) and ge(self.norm(start + n - s - m)):
                if not self.is_eq0(self.norm(e) - int.from_bytes(bytes([byte]) * m, "big")):
                    return False
        n = self.norm(n)
        key = ("allfill", src, start.key(), n.key(), byte)
        fresh = key not in self.p.atoms
        r = self.atom(key, f"{src}[{start}:+{n}] all {byte:02x}")
        if fresh:
            self.p.fills.append((src, start, n, byte, r))
        return r

    def definite(self, b, cap=64):
        """bytes whose length is made definite (splits the state); b is bytes or SBytes"""
        if isinstance(b, bytes):
            return b
        out = []
        for s in self.resolved(b.segs):
            n = self.norm(self.seg_len(s))
            if not n.is_const():
                lo, hi = self.p.store.rng(n)
                if hi is None or hi - max(lo, 0) > cap:
                    raise Imprecise("bytes of unknown length")
                for k in range(max(int(lo), 0), int(hi) + 1):
                    if k == hi or self.is_eq0(n - k):
                        if k == hi:
                            self.p.store.assume_eq0(n - k)
                        break
                n = Lin({}, k)
                s = ("fill", s[1], n) if s[0] == "fill" else ("raw", s[1], s[2], n)
            out.append(s)
        return self.mkbytes(tuple(out))

    def order_bytes(self, op, a, b):
        """lexicographic order"""
        def length(x):
            return self.blen(x) if isinstance(x, SBytes) else Lin({}, len(x))
        la, lb = self.norm(length(a)), self.norm(length(b))
        if not la.is_const() and not lb.is_const():
            if la != lb:
                b = self.definite(b)
                lb = self.norm(length(b))
        if lb.is_const() and not la.is_const():
            m = lb.c if self.is_ge0(la - lb) else None
            if m is None:
                a = self.definite(a)
                la = self.norm(length(a))
        elif la.is_const() and not lb.is_const():
            m = la.c if self.is_ge0(lb - la) else None
            if m is None:
                b = self.definite(b)
                lb = self.norm(length(b))
        if la.is_const() and lb.is_const():
            m = min(la.c, lb.c)
        elif not la.is_const() and not lb.is_const():
            m = None
            if self.eq_bytes(a, b):
                return op in ("<=", ">=")
            raise Imprecise("ordering of byte strings of unknown length")
        if m > 4096:
            raise Imprecise("ordering of long byte strings")
        x = self.to_int(self.slice_bytes(a, 0, m)) if m else Lin({}, 0)
        y = self.to_int(self.slice_bytes(b, 0, m)) if m else Lin({}, 0)
        if not self.is_eq0(x - y):
            return self.compare_lin(op[0], x, y)
        return self.compare_lin(op, la, lb)

    def strip_bytes(self, b, chars, left, right):
        """bytes.strip with a known set of bytes; the run that is dropped consists of one repeated byte in the
        partitions analysed exactly, mixed runs are an over-approximation"""
        segs = self.resolved(self.segs(b))
        if not segs:
            return b""
        b = self.mkbytes(segs)
        if isinstance(b, bytes):
            return b.strip(chars) if left and right else b.lstrip(chars) if left else b.rstrip(chars)
        if left:
            b = self.strip_side(b, chars, True)
        if right and not (isinstance(b, bytes) and not b):
            b = self.strip_side(b, chars, False)
        return b

    def strip_side(self, b, chars, left):
        order = (lambda x: x) if left else (lambda x: x[::-1])
        segs = list(order(list(self.segs(b))))
        keep = lambda rest: self.mkbytes(tuple(order(rest)))
        while segs:
            s = segs[0]
            n = self.norm(self.seg_len(s))
            if s[0] == "be" and s[1].is_const():
                v = s[1].c.to_bytes(s[2], "big")
                w = v.lstrip(chars) if left else v.rstrip(chars)
                if w:
                    return keep(list(self.segs(w)) + segs[1:])
                segs.pop(0)
                continue
            if s[0] == "fill":
                if s[1] not in chars and self.is_ge0(n - 1):
                    return keep(segs)
                segs.pop(0)
                continue
            if s[0] == "be":
                r = f"be{len(self.p.words)}@{s[1]}"
                self.p.words.setdefault(r, []).append((Lin({}, 0), s[2], s[1]))
                s = ("raw", r, Lin({}, 0), Lin({}, s[2]))
            done = False
            for c in chars:
                if self.all_fill(s, c):
                    done = True
                    break
            if done:
                segs.pop(0)
                continue
            # not one repeated byte of the set: nothing dropped / a repeated run dropped / something else
            src, start = s[1], s[2]
            edge = self.word(src, start if left else self.norm(start + n - 1), 1)
            hit = next((c for c in chars if self.is_eq0(edge - c)), None)
            if hit is None:
                return keep(segs)
            if n.is_const() and n.c <= 1:
                segs.pop(0)
                continue
            if n.is_const() and n.c <= 40:
                # walk inwards while the same byte repeats
                k = 1
                while k < n.c:
                    e = self.word(src, self.norm(start + k if left else start + n - 1 - k), 1)
                    if not self.is_eq0(e - hit):
                        if any(self.is_eq0(e - c) for c in chars if c != hit):
                            self.vague("a mixed run of stripped bytes")
                        break
                    k += 1
                z = Lin({}, k)
                if k == n.c:
                    segs.pop(0)
                    continue
            else:
                z = Lin.sym(self.p.store.fresh("run", 1))
                self.p.store.assume_ge0(n - 1 - z)
                run = start if left else self.norm(start + n - z)
                self.p.fills.append((src, run, z, hit, True))
                e = self.word(src, self.norm(start + z if left else start + n - 1 - z), 1)
                for c in (hit,) + tuple(c for c in chars if c != hit):
                    if self.is_eq0(e - c):
                        if c == hit:
                            raise Infeasible()      # the run is maximal
                        self.vague("a mixed run of stripped bytes")
                        break
            rest = ("raw", src, self.norm(start + z) if left else start, self.norm(n - z))
            return keep([rest] + segs[1:])
        return b""

    def eq_bytes(self, a, b):
        sa, sb = self.resolved(self.segs(a)), self.resolved(self.segs(b))
        la, lb = self.const_len(sa), self.const_len(sb)
        if not self.is_eq0(la - lb):
            return False
        return self.eq_segs(list(sa), list(sb))

    def eq_segs(self, sa, sb):
        sa, sb = list(sa), list(sb)
        pairs = []
        while sa and sb:
            x, y = sa[0], sb[0]
            nx, ny = self.norm(self.seg_len(x)), self.norm(self.seg_len(y))
            if nx.is_const() and nx.c == 0:
                sa.pop(0)
                continue
            if ny.is_const() and ny.c == 0:
                sb.pop(0)
                continue
            d = self.norm(nx - ny)
            if d.is_const() and d.c == 0:
                pairs.append((x, y))
                sa.pop(0)
                sb.pop(0)
                continue
            # short constant runs: compare as one integer when both sides regroup
            if self.is_ge0(d, True):
                l, r = self.split_bytes([x], ny)
                sa[0:1] = list(l) + list(r)
            elif self.is_eq0(d):
                pairs.append((x, y))
                sa.pop(0)
                sb.pop(0)
            else:
                l, r = self.split_bytes([y], nx)
                sb[0:1] = list(l) + list(r)
        rest = sa or sb
        for s in rest:
            n = self.norm(self.seg_len(s))
            if not (n.is_const() and n.c == 0) and not self.is_eq0(n):
                return False
        for x, y in pairs:
            if not self.eq_pair(x, y):
                return False
        return True

    def eq_pair(self, x, y):
        if x[0] == "raw" and y[0] == "raw":
            if x[1] == y[1] and self.norm(x[2] - y[2]) == Lin({}, 0):
                return True
        n = self.norm(self.seg_len(x))
        if x[0] == "fill" and y[0] == "fill":
            return x[1] == y[1] or self.is_eq0(n)
        if x[0] == "raw" and y[0] == "fill":
            return self.all_fill(x, y[1])
        if y[0] == "raw" and x[0] == "fill":
            return self.all_fill(y, x[1])
        if x[0] == "be" and y[0] == "be" and x[1].is_const() and y[1].is_const():
            return x[1].c == y[1].c
        if n.is_const() and n.c <= 1 << 14:
            return self.is_eq0(self.to_int(SBytes((x,))) - self.to_int(SBytes((y,))))
        if self.entail:
            return False
        self.vague("comparison of unrelated byte strings")
        return self.choose(2, "byte strings equal") == 0

    # ---------------------------------------------------------------- decimals
    def dec_parts(self, v):
        """-> (Lin num, exp) of a finite decimal or integer"""
        if isinstance(v, SDec):
            return self.norm(v.num), v.exp
        if isinstance(v, decimal.Decimal):
            if not v.is_finite():
                raise Imprecise("non-finite")
            sign, digits, exp = v.as_tuple()
            n = int("".join(map(str, digits)) or "0")
            return Lin({}, -n if sign else n), exp
        if isinstance(v, (int, SInt)):
            return self.norm(self.lin(v)), 0
        raise Imprecise(f"not a number: {v!r}")

    def mkdec(self, num, exp):
        num = self.norm(num)
        if num.is_const() and num.c == int(num.c):
            n = int(num.c)
            return decimal.Decimal((1 if n < 0 else 0, tuple(int(c) for c in str(abs(n))), exp))
        return SDec(num, exp)

    def dec_align(self, a, b):
        (x, e), (y, f) = self.dec_parts(a), self.dec_parts(b)
        m = min(e, f)
        return x * 10 ** (e - m), y * 10 ** (f - m), m

    def dec_digits(self, num):
        lo, hi = self.p.store.rng(self.norm(num))
        if lo is None or hi is None:
            return None
        return len(str(int(max(abs(lo), abs(hi)))))

    def dec_round(self, v, prec, what):
        """Account for rounding of an arithmetic result to the active precision."""
        num, exp = self.dec_parts(v)
        if num.is_const():
            n = abs(int(num.c))
            while n and n % 10 == 0:
                n //= 10
            digits = len(str(n))
            if digits <= 1:
                return v
        else:
            # factor common powers of ten out of the coefficients
            n = num
            k = 0
            while all(isinstance(c, int) and c % 10 == 0 for c in n.t.values()) and isinstance(n.c, int) and n.c % 10 == 0:
                n = Lin({s: c // 10 for s, c in n.t.items()}, n.c // 10)
            digits = self.dec_digits(n)
        if prec is None:
            self.p.events.append(("ambient-decimal", what, self.loc()))
            return v
        if digits is None or digits > prec:
            self.p.events.append(("inexact-decimal", f"{what} needs {digits or 'unboundedly many'} digits, context has {prec}", self.loc()))
            if num.is_const():
                c = decimal.Context(prec=prec)
                return c.plus(v)
        return v

    def is_frac(self, num):
        return any(not s.integer for s in num.t)


def _short(m):
    return str(m) if m < 10000 else f"2^{m.bit_length() - 1}" if m & (m - 1) == 0 else hex(m)
