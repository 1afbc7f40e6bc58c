"""Linear integer forms and the relational constraint store (interval x convex polyhedra).

No solver is involved: entailment is decided by interval evaluation, and where an interval
does not settle it, by Fourier-Motzkin elimination over the (few) constraints connected to
the query, with integer tightening.
"""
from fractions import Fraction
from math import gcd, floor, ceil


class Infeasible(Exception):
    """The current partition is empty: drop it."""


class Imprecise(Exception):
    """The analysis cannot follow this construct exactly: the obligation is undecided."""


class Sym:
    __slots__ = ("name", "integer", "lo0", "hi0", "key")
    n = 0

    def __init__(self, name, lo=None, hi=None, integer=True):
        Sym.n += 1
        self.key = Sym.n
        self.name = name
        self.integer = integer
        self.lo0, self.hi0 = lo, hi

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.key < o.key


class Lin:
    """sum(coef * sym) + const; immutable."""
    __slots__ = ("t", "c", "_h")

    def __init__(self, t, c=0):
        self.t = t
        self.c = c
        self._h = None

    @staticmethod
    def sym(s):
        return Lin({s: 1}, 0)

    @staticmethod
    def of(x):
        return x if isinstance(x, Lin) else Lin({}, x)

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        t = dict(self.t)
        for s, k in o.t.items():
            n = t.get(s, 0) + k
            if n:
                t[s] = n
            else:
                t.pop(s, None)
        return Lin(t, self.c + o.c)

    __radd__ = __add__

    def __neg__(self):
        return Lin({s: -k for s, k in self.t.items()}, -self.c)

    def __sub__(self, o):
        return self + (-o if isinstance(o, Lin) else Lin({}, -o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if isinstance(k, Lin):
            if not k.t:
                k = k.c
            elif not self.t:
                return k * self.c
            else:
                raise Imprecise("non-linear product")
        if k == 0:
            return Lin({}, 0)
        return Lin({s: v * k for s, v in self.t.items()}, self.c * k)

    __rmul__ = __mul__

    def key(self):
        if self._h is None:
            self._h = (tuple(sorted((s.key, k) for s, k in self.t.items())), self.c)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        def big(n):
            if isinstance(n, int) and abs(n) > 1 << 20:
                sgn = "-" if n < 0 else ""
                a = abs(n)
                for d in (0, 1, -1):
                    b = a - d
                    if b & (b - 1) == 0:
                        return f"{sgn}(2^{b.bit_length() - 1}{'' if not d else ('+1' if d == 1 else '-1')})"
                return hex(n)
            return str(n)
        parts = []
        for s, k in sorted(self.t.items()):
            parts.append(f"{s}" if k == 1 else f"{big(k)}*{s}")
        if self.c or not parts:
            parts.append(big(self.c))
        return " + ".join(parts)


def _neg(x):
    return None if x is None else -x


class Store:
    """Facts about symbols on the current partition."""

    def __init__(self):
        self.sub = {}
        self.lo = {}
        self.hi = {}
        self.slo = set()   # strict lower bound (non-integer symbols)
        self.shi = set()
        self.facts = []    # (Lin, strict): Lin >= 0 or Lin > 0
        self.neq = []      # Lin != 0
        self.version = 0

    # -- symbols -------------------------------------------------------------------
    def bounds(self, s):
        return self.lo.get(s, s.lo0), self.hi.get(s, s.hi0)

    def fresh(self, name, lo=None, hi=None, integer=True, strict=False):
        s = Sym(name, lo, hi, integer)
        if strict:
            self.slo.add(s)
            self.shi.add(s)
        return s

    def norm(self, e):
        if not self.sub or not e.t:
            return e
        for s in e.t:
            if s in self.sub:
                break
        else:
            return e
        r = Lin({}, e.c)
        for s, k in e.t.items():
            if s in self.sub:
                r = r + self.norm(self.sub[s]) * k
            else:
                r = r + Lin({s: k}, 0)
        return r

    def rng(self, e):
        """(lo, hi) of a normalised form; None = unbounded."""
        lo = hi = e.c
        for s, k in e.t.items():
            a, b = self.bounds(s)
            if k < 0:
                a, b = b, a
            lo = None if (lo is None or a is None) else lo + k * a
            hi = None if (hi is None or b is None) else hi + k * b
        return lo, hi

    def all_int(self, e):
        return all(s.integer and isinstance(k, int) for s, k in e.t.items()) and isinstance(e.c, int)

    def _strict_rng(self, e):
        """is lo (hi) attained?  returns (lo_open, hi_open)"""
        lo_o = hi_o = False
        for s, k in e.t.items():
            a_o, b_o = s in self.slo, s in self.shi
            if k < 0:
                a_o, b_o = b_o, a_o
            lo_o |= a_o
            hi_o |= b_o
        return lo_o, hi_o

    # -- decisions -----------------------------------------------------------------
    def ge0(self, e, strict=False):
        """True/False/None: is e >= 0 (e > 0 if strict) on the whole partition?"""
        e = self.norm(e)
        if strict and self.all_int(e):
            e, strict = e - 1, False
        lo, hi = self.rng(e)
        lo_o, hi_o = self._strict_rng(e)
        if lo is not None and (lo > 0 or (lo == 0 and (not strict or lo_o))):
            return True
        if hi is not None and (hi < 0 or (hi == 0 and (strict or hi_o))):
            return False
        if len(e.t) == 1 and not self._touches(e):
            return None
        if self._refuted([(-e, not strict)]):
            return True
        if self._refuted([(e, strict)]):
            return False
        return None

    def eq0(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        if self.all_int(e):
            g = 0
            for k in e.t.values():
                g = gcd(g, k)
            if e.c % g:
                return False
        lo, hi = self.rng(e)
        lo_o, hi_o = self._strict_rng(e)
        if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
            return False
        if hi is not None and (hi < 0 or (hi == 0 and hi_o)):
            return False
        for n in self.neq:
            n = self.norm(n)
            if n == e or n == -e:
                return False
            # proportional forms
            if len(n.t) == len(e.t) and set(n.t) == set(e.t):
                s = next(iter(e.t))
                f = Fraction(n.t[s], e.t[s])
                if e * f == n or (Lin({k: v * f for k, v in e.t.items()}, e.c * f)).key() == n.key():
                    return False
        if not e.t:
            return e.c == 0
        a = self.ge0(e)
        if a is False:
            return False
        b = self.ge0(-e)
        if b is False:
            return False
        if a and b:
            return True
        return None

    def _touches(self, e):
        for f, _ in self.facts:
            for s in self.norm(f).t:
                if s in e.t:
                    return True
        return False

    # -- assumptions ---------------------------------------------------------------
    def assume_ge0(self, e, strict=False):
        e = self.norm(e)
        if strict and self.all_int(e):
            e, strict = e - 1, False
        d = self.ge0(e, strict)
        if d is True:
            return
        if d is False:
            raise Infeasible()
        if len(e.t) == 1:
            (s, k), = e.t.items()
            self._bound(s, k, e.c, strict)
        elif not strict and self.ge0(-e) is True:
            self.assume_eq0(e)
            return
        else:
            self.facts.append((e, strict))
        self._recheck_neq()
        if len(e.t) > 1 and self._refuted([]):
            raise Infeasible()

    def _bound(self, s, k, c, strict):
        # k*s + c >= 0
        lo, hi = self.bounds(s)
        v = Fraction(-c, 1) / k
        if k > 0:
            b = ceil(v) if s.integer else v
            if lo is None or b > lo or (b == lo and strict):
                self.lo[s] = b
                if not s.integer:
                    (self.slo.add if strict else self.slo.discard)(s)
        else:
            b = floor(v) if s.integer else v
            if hi is None or b < hi or (b == hi and strict):
                self.hi[s] = b
                if not s.integer:
                    (self.shi.add if strict else self.shi.discard)(s)
        lo, hi = self.bounds(s)
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (s in self.slo or s in self.shi))):
            raise Infeasible()
        if lo is not None and lo == hi and s.integer:
            self._subst(s, Lin({}, lo), keep_bounds=False)

    def _subst(self, s, e, keep_bounds=True):
        lo, hi = self.bounds(s)
        self.sub[s] = e
        self.facts = [(self.norm(f), st) for f, st in self.facts]
        nf = []
        for f, st in self.facts:
            if f.t:
                nf.append((f, st))
            elif f.c < 0 or (st and f.c <= 0):
                raise Infeasible()
        self.facts = nf
        if keep_bounds:
            if lo is not None:
                self.assume_ge0(e - lo, s in self.slo)
            if hi is not None:
                self.assume_ge0(Lin({}, hi) - e, s in self.shi)
        single = [(f, st) for f, st in self.facts if len(f.t) == 1]
        if single:
            self.facts = [(f, st) for f, st in self.facts if len(f.t) != 1]
            for f, st in single:
                f = self.norm(f)
                if f.t:
                    (y, k), = f.t.items()
                    self._bound(y, k, f.c, st)
                elif f.c < 0 or (st and f.c == 0):
                    raise Infeasible()

    def assume_eq0(self, e):
        e = self.norm(e)
        d = self.eq0(e)
        if d is True:
            return
        if d is False:
            raise Infeasible()
        cand = [s for s, k in e.t.items() if k in (1, -1)]
        if cand:
            # prefer to eliminate the youngest symbol
            s = max(cand)
            k = e.t[s]
            rest = Lin({x: v for x, v in e.t.items() if x is not s}, e.c)
            self._subst(s, rest * (-k))
        elif len(e.t) == 1:
            (s, k), = e.t.items()
            v = Fraction(-e.c, 1) / k
            if s.integer:
                if v.denominator != 1:
                    raise Infeasible()
                v = int(v)
            self._subst(s, Lin({}, v))
        else:
            if len(e.t) == 2:
                (s1, k1), (s2, k2) = e.t.items()
                if s1.integer and s2.integer and e.c == 0 and isinstance(k1, int) and isinstance(k2, int):
                    g = gcd(k1, k2)
                    n = self.fresh(f"k{Sym.n}")
                    # k1*s1 + k2*s2 = 0  =>  s1 = (k2/g) n, s2 = -(k1/g) n
                    self._subst(s1, Lin({n: k2 // g}, 0))
                    self._subst(s2, Lin({n: -(k1 // g)}, 0))
                    self._recheck_neq()
                    return
            self.facts.append((e, False))
            self.facts.append((-e, False))
        self._recheck_neq()
        if self._refuted([]):
            raise Infeasible()

    def assume_neq0(self, e):
        e = self.norm(e)
        d = self.eq0(e)
        if d is False:
            return
        if d is True:
            raise Infeasible()
        self.neq.append(e)
        self._recheck_neq()

    def _recheck_neq(self):
        if not self.neq:
            return
        changed = True
        while changed:
            changed = False
            for i, n in enumerate(self.neq):
                m = self.norm(n)
                if not m.t:
                    if m.c == 0:
                        raise Infeasible()
                    del self.neq[i]
                    changed = True
                    break
                lo, hi = self.rng(m)
                if self.all_int(m):
                    if lo is not None and lo == 0:
                        del self.neq[i]
                        self.assume_ge0(m - 1)
                        changed = True
                        break
                    if hi is not None and hi == 0:
                        del self.neq[i]
                        self.assume_ge0(-m - 1)
                        changed = True
                        break

    # -- Fourier-Motzkin -----------------------------------------------------------
    def _refuted(self, extra):
        """Are the facts (connected to `extra`, or all) plus `extra` contradictory?"""
        cons = []
        facts = [(self.norm(f), st) for f, st in self.facts]
        ex = [(self.norm(f), st) for f, st in extra]
        if ex:
            syms = set()
            for f, _ in ex:
                syms |= set(f.t)
            used = [False] * len(facts)
            grow = True
            while grow:
                grow = False
                for i, (f, st) in enumerate(facts):
                    if not used[i] and any(s in syms for s in f.t):
                        used[i] = True
                        n = len(syms)
                        syms |= set(f.t)
                        grow = True
            facts = [f for i, f in enumerate(facts) if used[i]]
        else:
            syms = set()
            for f, _ in facts:
                syms |= set(f.t)
        cons = [(dict(f.t), f.c, st) for f, st in facts + ex]
        for s in syms:
            lo, hi = self.bounds(s)
            if lo is not None:
                cons.append(({s: 1}, -lo, s in self.slo))
            if hi is not None:
                cons.append(({s: -1}, hi, s in self.shi))
        return _fm(cons)


def _tight(t, c, st):
    if all(s.integer and isinstance(k, int) for s, k in t.items()) and t:
        g = 0
        for k in t.values():
            g = gcd(g, k)
        if st:
            if isinstance(c, int):
                c -= 1
            else:
                c = ceil(c) - 1 if c == int(c) else floor(c)
            st = False
        if g > 1:
            t = {s: k // g for s, k in t.items()}
            c = floor(Fraction(c, g))
        elif not isinstance(c, int):
            c = floor(c)
    return t, c, st


def _fm(cons, limit=600):
    """True if the conjunction of  t.x + c >= 0 (> 0)  is contradictory."""
    work = {}
    def add(t, c, st):
        t = {s: k for s, k in t.items() if k}
        t, c, st = _tight(t, c, st)
        if not t:
            return c < 0 or (st and c == 0)
        key = tuple(sorted((s.key, k) for s, k in t.items()))
        old = work.get(key)
        if old is None or c < old[1] or (c == old[1] and st):
            work[key] = (t, c, st)
        return False
    for t, c, st in cons:
        if add(t, c, st):
            return True
    while work:
        syms = {}
        for t, c, st in work.values():
            for s, k in t.items():
                p = syms.setdefault(s, [0, 0])
                p[k < 0] += 1
        s = min(syms, key=lambda x: (syms[x][0] * syms[x][1], x.key))
        pos = [w for w in work.values() if w[0].get(s, 0) > 0]
        neg = [w for w in work.values() if w[0].get(s, 0) < 0]
        work = {k: w for k, w in work.items() if s not in w[0]}
        for tp, cp, sp in pos:
            for tn, cn, sn in neg:
                a, b = tp[s], -tn[s]
                t = {}
                for x, k in tp.items():
                    if x is not s:
                        t[x] = k * b
                for x, k in tn.items():
                    if x is not s:
                        t[x] = t.get(x, 0) + k * a
                if add(t, cp * b + cn * a, sp or sn):
                    return True
        if len(work) > limit:
            return False
    return False
