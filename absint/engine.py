"""Exploration of the partitions of a scenario, verdicts and witnesses."""
import copy
import decimal
import os
import random
import sys
import time
import traceback

from .core import Fork, NativeError, Path, SBytes, SDec, SFloat, SInt, SMono, SObj, SStr, Tok, Unknown
from .interp import Interp, LoopCap
from .lin import Imprecise, Infeasible, Lin
from .objects import *
from .objects import HEAP

sys.setrecursionlimit(60000)


class Violation(Exception):
    def __init__(self, kind, msg, loc=None, **info):
        self.kind, self.msg, self.loc, self.info = kind, msg, loc, info
        super().__init__(msg)


class Out:
    """Outcome of an interpreted call."""
    __slots__ = ("ok", "val", "exc", "loc", "trace")

    def __init__(self, ok, val=None, exc=None, loc=None):
        self.ok, self.val, self.exc, self.loc = ok, val, exc, loc

    @property
    def cls(self):
        return None if self.ok else self.exc.cls.name

    def isa(self, name):
        return not self.ok and any(c.name == name for c in self.exc.cls.mro)

    def __repr__(self):
        return f"returns {self.val!r}" if self.ok else f"raises {self.cls}"


def fmt_loc(l):
    if not l:
        return "?"
    return f"{l[0]}:{l[1]} in {l[2] or '<module>'}"


# ---------------------------------------------------------------------------- witness
def witness(I, tries=1000):
    """A concrete assignment of the symbols consistent with everything assumed on this
    partition (interval bounds, linear facts, byte words), or None."""
    p = I.p
    budget = [tries]

    def syms(store):
        out, seen = [], set()

        def add(s):
            if s not in seen and s not in store.sub:
                seen.add(s)
                out.append(s)
        for tab in p.words.values():
            for st, n, e in tab:
                for s in store.norm(st).t:
                    add(s)
        for s in store.lo:
            add(s)
        for s in store.hi:
            add(s)
        for e in store.sub.values():
            for s in store.norm(e).t:
                add(s)
        for f, _ in store.facts:
            for s in store.norm(f).t:
                add(s)
        for f in store.neq:
            for s in store.norm(f).t:
                add(s)
        for tab in p.words.values():
            for st, n, e in tab:
                for s in store.norm(e).t:
                    add(s)
        return out

    def clone(st):
        c = copy.copy(st)
        c.sub, c.lo, c.hi = dict(st.sub), dict(st.lo), dict(st.hi)
        c.slo, c.shi = set(st.slo), set(st.shi)
        c.facts, c.neq = list(st.facts), list(st.neq)
        return c

    def cands(store, s):
        lo, hi = store.bounds(s)
        from fractions import Fraction
        out = []
        if s.integer:
            base = []
            if lo is not None:
                base += [lo, lo + 1]
            if hi is not None:
                base += [hi, hi - 1]
            base += [0, 1, 32, 64, 96, -1, 2, 3, 128, 160, 192, 33, 255, 256, 5, 7, 11, 1000, 4096]
            if lo is not None and hi is not None:
                base.append((lo + hi) // 2)
            seen = set()
            for v in base:
                if v in seen or (lo is not None and v < lo) or (hi is not None and v > hi):
                    continue
                seen.add(v)
                out.append(v)
            # prefer small numbers
            out.sort(key=lambda v: (abs(v) > 4096, 0))
        else:
            a = lo if lo is not None else 0
            b = hi if hi is not None else a + 1
            out = [Fraction(a + b) / 2, Fraction(a * 3 + b) / 4, Fraction(a + 3 * b) / 4]
        return out

    def check_words(store):
        for src, tab in p.words.items():
            mem = {}
            for st, n, e in tab:
                st, e = store.norm(st), store.norm(e)
                if not st.is_const() or not e.is_const():
                    return False
                v = int(e.c)
                if v < 0 or v >> (8 * n):
                    return False
                if n > 100000:
                    return False
                for i, b in enumerate(v.to_bytes(n, "big")):
                    k = st.c + i
                    if mem.setdefault(k, b) != b:
                        return False
        return True

    def go(store):
        todo = syms(store)
        if not todo:
            return store if check_words(store) else None
        s = todo[0]
        for v in cands(store, s):
            if budget[0] <= 0:
                return None
            budget[0] -= 1
            c = clone(store)
            try:
                c.assume_eq0(Lin({s: 1}, -v))
            except Infeasible:
                continue
            except Imprecise:
                continue
            r = go(c)
            if r is not None:
                return r
        return None
    try:
        return go(clone(p.store))
    except RecursionError:
        return None


def concretise(I, store, v):
    """Render an abstract value under a witness."""
    def ln(e):
        e = store.norm(e)
        for s in list(e.t):
            lo, hi = store.bounds(s)
            v = lo if lo is not None else hi if hi is not None else 0
            try:
                store.assume_eq0(Lin({s: 1}, -(v if not s.integer else int(v))))
            except (Infeasible, Imprecise):
                pass
        e = store.norm(e)
        if e.is_const():
            c = e.c
            return int(c) if c == int(c) else float(c)
        return repr(e)

    def go(v, d=0):
        if isinstance(v, SInt):
            return num(ln(v.lin))
        if isinstance(v, SDec):
            n = ln(v.num)
            return f"Decimal({n}E{v.exp})"
        if isinstance(v, SFloat):
            return f"{v.kind}({ln(v.lin)})"
        if isinstance(v, SBytes):
            out = []
            for s in v.segs:
                if s[0] == "be":
                    x = ln(s[1])
                    out.append(x.to_bytes(s[2], "big").hex() if isinstance(x, int) and 0 <= x < 1 << (8 * s[2]) else f"be{s[2]}[{x}]")
                elif s[0] == "fill":
                    out.append(f"{s[1]:02x}*{ln(s[2])}")
                elif s[0] == "raw":
                    a, n = ln(s[2]), ln(s[3])
                    w = [(ln(st), k, ln(e)) for st, k, e in I.p.words.get(s[1], [])]
                    ws = ", ".join(f"[{x}:+{k}]={num(e)}" for x, k, e in w)
                    out.append(f"{s[1]}[{a}:+{n}]" + (f" where {ws}" if ws and len(ws) < 600 else ""))
                else:
                    out.append(f"min[{ln(s[1])}]")
            return "bytes(" + " ".join(out) + ")"
        if isinstance(v, SStr):
            return repr(v)
        if isinstance(v, AList):
            return "[" + ", ".join(str(go(x, d + 1)) for x in v.items[:8]) + ("]" if len(v.items) <= 8 else f", ...{len(v.items)}]")
        if isinstance(v, tuple):
            return "(" + ", ".join(str(go(x, d + 1)) for x in v[:8]) + (",)" if len(v) <= 8 else f", ...{len(v)})")
        if isinstance(v, int) and not isinstance(v, bool):
            return num(v)
        return repr(v) if len(repr(v)) < 300 else repr(v)[:300] + "..."

    def num(n):
        if isinstance(n, int) and abs(n) > 1 << 40:
            for k in range(8, 260):
                for dlt in (-1, 0, 1):
                    if n == (1 << k) + dlt:
                        return f"2**{k}{'%+d' % dlt if dlt else ''}"
                    if n == -(1 << k) + dlt:
                        return f"-2**{k}{'%+d' % dlt if dlt else ''}"
            return hex(n) if abs(n) < 1 << 600 else f"<{n.bit_length()}-bit integer>"
        return n
    return go(v)


# ---------------------------------------------------------------------------- analysis
class Analysis:
    """The analysed tree, loaded once; scenarios are run against it from a frozen state."""

    def __init__(self, root="/repo", harness=None, modules=("eth_abi", "eth_abi.abi", "eth_abi.packed", "eth_abi.codec",
                                                            "eth_abi.registry", "eth_abi.grammar", "eth_abi.encoding",
                                                            "eth_abi.decoding", "eth_abi.exceptions", "eth_abi.base")):
        self.I = I = Interp(root)
        self.root = root
        self.mods = {}
        for m in modules:
            try:
                self.mods[m] = I.import_module(m)
            except AExc as e:
                raise RuntimeError(f"module {m} cannot be loaded: {e.obj.cls.name} {e.obj.attrs.get('args')} at {fmt_loc(e.loc)}")
            except (Imprecise, Infeasible, NativeError) as e:
                raise RuntimeError(f"module {m} cannot be analysed: {e} at {fmt_loc(I.loc())}")
        self.import_events = list(I.p.events)
        if I.decctx:
            self.import_events.append(("ambient-write", "the current decimal context is another one after the import", I.ctx_written or I.loc()))
            I.decctx = []
        if I.ambient is not None:
            for q, v in I.ambient.attrs.items():
                if q not in ("flags", "traps") and not isinstance(v, Unknown):
                    self.import_events.append(("ambient-write", f"{q} of the caller's decimal context is changed", I.loc()))
        for m in ("eth_abi.tools", "eth_abi.tools._strategies"):
            try:
                self.mods[m] = I.import_module(m)
            except (AExc, Imprecise, Infeasible, NativeError):
                pass                           # reported by the rules that need it
        if harness:
            self.h = I.run_source(harness, "harness", "<harness>")
        self.frozen = False

    def freeze(self):
        HEAP.rollback()
        HEAP.freeze()
        self.frozen = True

    def reset(self, dec):
        I = self.I
        HEAP.rollback()
        HEAP.log = None
        I.p = Path(dec)
        I.decctx = []
        I.ctx_written = None
        if I.ambient is not None:
            I.ambient.attrs.update(prec=SInt(Lin.sym(I.p.store.fresh("prec(context)", 1, 999999999999999999))), Emax=SInt(Lin.sym(I.p.store.fresh("Emax(context)", 0, 999999999999999999))),
                                   Emin=SInt(Lin.sym(I.p.store.fresh("Emin(context)", -999999999999999999, 0))))
        I.handling = []
        I.depth = 0
        I.entail = False
        I.node = None

    def explore(self, fn, max_paths=4000, max_s=30.0, soft=()):
        """Run fn(session) over all partitions. -> dict"""
        if not self.frozen:
            self.freeze()
        I = self.I
        res = {"paths": 0, "infeasible": 0, "cut": 0, "undecided": [], "violations": [], "known": [], "notes": {}, "complete": True}
        t0 = time.time()
        rnd = random.Random(1)
        work = [[]]
        while work:
            # worklist of partitions, taken in a fixed pseudo-random order so that an exhausted
            # budget leaves a spread-out sample rather than one corner
            i = rnd.randrange(len(work))
            work[i], work[-1] = work[-1], work[i]
            dec = work.pop()
            nfix = len(dec)
            self.reset(dec)
            S = Session(self)
            p = I.p
            try:
                fn(S)
                res["paths"] += 1
                if p.imprecise:
                    res["undecided"].append(("over-approximated: " + str(p.imprecise[0][0]), fmt_loc(p.imprecise[0][1])))
            except Infeasible:
                res["infeasible"] += 1
            except LoopCap:
                res["cut"] += 1
            except Violation as v:
                res["paths"] += 1
                if p.imprecise:
                    res["undecided"].append(("over-approximated: " + str(p.imprecise[0][0]), fmt_loc(p.imprecise[0][1])))
                else:
                    w = witness(I)
                    if w is None and v.kind in soft:
                        S.count("known-kind without witness")
                    elif w is None:
                        res["undecided"].append((f"no witness for: {v.msg}", fmt_loc(v.loc)))
                    else:
                        tr = [(why, k, fmt_loc(l)) for why, k, l in p.trace if l is None or not str(l[0]).startswith("<")][-14:]
                        inputs = {}
                        for n, x in S.inputs.items():
                            try:
                                inputs[n] = str(concretise(I, w, x))[:800]
                            except Exception as e:
                                inputs[n] = f"? ({e})"
                        res["violations"].append({"kind": v.kind, "msg": v.msg, "loc": fmt_loc(v.loc), "inputs": inputs,
                                                  "trace": tr, "tags": sorted(S.tags), **{k: str(x)[:400] for k, x in v.info.items()}})
            except Imprecise as e:
                res["paths"] += 1
                res["undecided"].append((str(e), fmt_loc(I.loc())))
            except Fork as e:
                res["paths"] += 1
                res["undecided"].append((f"fork {e}", fmt_loc(I.loc())))
            except AExc as e:
                res["paths"] += 1
                res["undecided"].append((f"uncaught {e.obj.cls.name} {e.obj.attrs.get('args')}", fmt_loc(e.loc)))
            except RecursionError:
                res["paths"] += 1
                res["undecided"].append(("recursion limit of the analyser", fmt_loc(I.loc())))
            except (NativeError,) as e:
                res["paths"] += 1
                res["undecided"].append((f"uncaught native {e}", fmt_loc(I.loc())))
            except Exception as e:                 # a bug of the analyser must not look like a verdict
                if os.environ.get("ABSINT_DEBUG"):
                    traceback.print_exc()
                res["paths"] += 1
                tb = traceback.extract_tb(e.__traceback__)[-1]
                res["undecided"].append((f"analyser: {type(e).__name__}: {e} [{os.path.basename(tb.filename)}:{tb.lineno}]", fmt_loc(I.loc())))
            for k, n in S.counts.items():
                res["notes"][k] = res["notes"].get(k, 0) + n
            for j in range(nfix, min(p.ptr, len(p.dec))):
                k, n = p.dec[j]
                for alt in range(n):
                    if alt != k:
                        work.append([list(x) for x in p.dec[:j]] + [[alt, n]])
            if work and (res["paths"] >= max_paths or time.time() - t0 > max_s):
                res["complete"] = False
                break
            if len(res["violations"]) >= 3 and soft:
                # kinds listed as soft (candidate known findings) do not end the exploration
                keep = [v for v in res["violations"] if v["kind"] in soft][:2]
                res["violations"] = keep + [v for v in res["violations"] if v["kind"] not in soft]
            if len([v for v in res["violations"] if v["kind"] not in soft]) >= 3:
                res["complete"] = False
                break
        self.reset([])
        return res


class Session:
    """What rule code uses inside one partition."""

    def __init__(self, A):
        self.A, self.I = A, A.I
        self.inputs = {}
        self.tags = set()
        self.counts = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def api(self, mod, name):
        m = self.A.mods.get(mod) or self.I.import_module(mod)
        if name not in m.ns:
            raise Imprecise(f"anchor {mod}.{name} is missing")
        return m.ns[name]

    def h(self, name):
        return self.A.h.ns[name]

    def call(self, f, *a, **k):
        I = self.I
        n = len(I.handling)
        ctx, amb = list(I.decctx), dict(I.ambient.attrs) if I.ambient is not None else {}
        try:
            return Out(True, I.call(f, list(a), k))
        except AExc as e:
            del I.handling[n:]
            return Out(False, exc=e.obj, loc=e.loc)
        except NativeError as e:
            del I.handling[n:]
            x = I.as_exc(e)
            return Out(False, exc=x.obj, loc=x.loc)
        finally:
            if len(ctx) != len(I.decctx) or any(x is not y for x, y in zip(ctx, I.decctx)):
                I.p.events.append(("ambient-write", "the current decimal context is another one after the call", I.ctx_written or I.loc()))
                I.decctx = ctx
            if I.ambient is not None:
                for q in amb:
                    if I.ambient.attrs.get(q) is not amb[q] and I.ambient.attrs.get(q) != amb[q]:
                        I.p.events.append(("ambient-write", f"{q} of the caller's decimal context is changed", I.ctx_written or I.loc()))
                I.ambient.attrs.clear()
                I.ambient.attrs.update(amb)

    def method(self, obj, name, *a, **k):
        try:
            f = self.I.getattr(obj, name)
        except AExc as e:
            return Out(False, exc=e.obj, loc=e.loc)
        return self.call(f, *a, **k)

    # inputs --------------------------------------------------------------------
    def inp(self, name, v):
        self.inputs[name] = v
        return v

    def sym(self, name, lo=None, hi=None, integer=True, strict=False):
        return Lin.sym(self.I.p.store.fresh(name, lo, hi, integer, strict))

    def int(self, name, lo=None, hi=None):
        return SInt(self.sym(name, lo, hi))

    def raw(self, name, n):
        n = n if isinstance(n, Lin) else Lin({}, n)
        return self.I.mkbytes((("raw", name, Lin({}, 0), n),))

    # spec-side predicates (split the partition where undecided) -------------------
    def ge(self, a, b):
        return self.I.is_ge0(Lin.of(a) - Lin.of(b))

    def gt(self, a, b):
        return self.I.is_ge0(Lin.of(a) - Lin.of(b), True)

    def le(self, a, b):
        return self.ge(b, a)

    def lt(self, a, b):
        return self.gt(b, a)

    def eq(self, a, b):
        return self.I.is_eq0(Lin.of(a) - Lin.of(b))

    def assume(self, ok):
        if not ok:
            raise Infeasible()

    def violate(self, kind, msg, out=None, **info):
        raise Violation(kind, msg, getattr(out, "loc", None) or self.last_loc(), **info)

    def last_loc(self):
        for why, k, l in reversed(self.I.p.trace):
            if l and str(l[0]).startswith("eth_abi"):
                return l
        return self.I.loc()
