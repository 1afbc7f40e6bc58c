"""Abstract interpreter over Python syntax trees.

Works on the source text of the analysed tree only: nothing of it is imported or executed.
Values are elements of the abstract domains in core.py or heap objects from objects.py;
conditions that the abstract state does not decide split the state (trace partitioning).
"""
import ast
import decimal
import os
from fractions import Fraction

from .core import (Dom, Fork, NativeError, Path, SBytes, SDec, SFloat, SInt, SMono, SObj, SStr, Tok,
                   Unknown, Val)
from .lin import Imprecise, Infeasible, Lin
from .objects import *
from .objects import HEAP
from .ops import Ops
from . import models

BRK, CNT = ("brk",), ("cnt",)
NOVAL = object()
PRIM = (int, str, bytes, float, type(None), decimal.Decimal, complex, Fraction, type(Ellipsis), type(NotImplemented))


class LoopCap(Exception):
    """A loop ran past the analysed number of iterations: this partition is cut."""


class FnInfo:
    __slots__ = ("is_gen", "locals", "globals_", "nonlocals")


def fn_info(node):
    i = getattr(node, "_info", None)
    if i is not None:
        return i
    i = FnInfo()
    loc, glo, non = set(), set(), set()
    gen = [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def tgt(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not comp:
                loc.add(n.name)
            for d in n.decorator_list:
                walk(d, comp)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.iter_child_nodes(n):
                walk(c, True)
            return
        if isinstance(n, ast.comprehension):
            walk(n.iter, True)
            for c in n.ifs:
                walk(c, True)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif not comp:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, (ast.For,)):
                tgt(n.target)
            elif isinstance(n, ast.withitem):
                if n.optional_vars:
                    tgt(n.optional_vars)
            elif isinstance(n, ast.ExceptHandler):
                if n.name:
                    loc.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    loc.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
                if n.name:
                    loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c, comp)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    i.is_gen = gen[0]
    i.locals = frozenset(loc - glo - non)
    i.globals_, i.nonlocals = frozenset(glo), frozenset(non)
    node._info = i
    return i


def has_yield(node):
    r = getattr(node, "_hy", None)
    if r is None:
        r = False
        stack = [node]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef, ast.GeneratorExp)):
                    stack.append(c)
        node._hy = r
    return r


def annotate(tree, file):
    def go(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                c._f, c._q = file, q
                go(c, f"{q}.{c.name}" if q else c.name)
            else:
                if hasattr(c, "lineno"):
                    c._f, c._q = file, q
                go(c, q)
    go(tree, "")


class Interp(Ops):
    def __init__(self, root):
        super().__init__()
        self.root = root                  # directory holding the analysed package(s)
        self.node = None
        self.modules = {}
        self.models = {}                  # name -> callable(I) -> AModule
        self.functions_seen = {}          # (file, qualname) -> lineno of functions interpreted
        self.lines = set()
        self.track = True
        self.loop_cap = 64
        self.depth = 0
        self.handling = []
        self.decctx = []                  # stack of (prec, ctxobj); empty = ambient
        self.ctx_written = None
        self.sources = {}                 # file -> source text
        self.digest = {}
        HEAP.loc = self.loc
        self.T = {}                       # built-in types
        self.abc_registered = {}
        models.install(self)
        self.ex = {
            ast.Constant: lambda n, e: n.value, ast.Name: self.x_name, ast.Attribute: self.x_attr,
            ast.Call: self.x_call, ast.BinOp: self.x_binop, ast.UnaryOp: self.x_unary, ast.BoolOp: self.x_boolop,
            ast.Compare: self.x_compare, ast.IfExp: self.x_ifexp, ast.Tuple: self.x_tuple, ast.List: self.x_list,
            ast.Dict: self.x_dict, ast.Set: self.x_set, ast.Subscript: self.x_subscript, ast.Slice: self.x_slice,
            ast.Lambda: self.x_lambda, ast.ListComp: self.x_listcomp, ast.SetComp: self.x_setcomp,
            ast.DictComp: self.x_dictcomp, ast.GeneratorExp: self.x_genexp, ast.JoinedStr: self.x_joined,
            ast.FormattedValue: self.x_formatted, ast.NamedExpr: self.x_named, ast.Starred: self.x_bad,
            ast.Yield: self.x_bad, ast.YieldFrom: self.x_bad, ast.Await: self.x_bad,
        }
        self.st = {
            ast.Expr: self.s_expr, ast.Assign: self.s_assign, ast.AugAssign: self.s_augassign,
            ast.AnnAssign: self.s_annassign, ast.Return: self.s_return, ast.If: self.s_if, ast.For: self.s_for,
            ast.While: self.s_while, ast.Try: self.s_try, ast.With: self.s_with, ast.Raise: self.s_raise,
            ast.FunctionDef: self.s_funcdef, ast.ClassDef: self.s_classdef, ast.Import: self.s_import,
            ast.ImportFrom: self.s_importfrom, ast.Pass: lambda n, e: None, ast.Break: lambda n, e: BRK,
            ast.Continue: lambda n, e: CNT, ast.Delete: self.s_delete, ast.Global: self.s_scope,
            ast.Nonlocal: self.s_scope, ast.Assert: self.s_assert, ast.Match: self.s_match,
        }

    # ------------------------------------------------------------------ locations
    def loc(self):
        n = self.node
        if n is None:
            return None
        return (getattr(n, "_f", "?"), getattr(n, "lineno", 0), getattr(n, "_q", ""))

    # ------------------------------------------------------------------ exceptions
    def exc_class(self, name):
        return self.T[name]

    def make_exc(self, name, *args):
        c = name if isinstance(name, AClass) else self.T[name]
        return AObj(c, {"args": tuple(args)})

    def prim_attr(self, o, name):
        return models.prim_attr(self, o, name)

    def type_attr(self, c, name):
        return models.type_attr(self, c, name)

    def prim_call(self, o, name, a, k):
        return models.prim_call(self, o, name, a, k)

    def throw_obj(self, obj):
        raise AExc(obj, self.loc())

    def throw(self, name, *args):
        raise AExc(self.make_exc(name, *args), self.loc())

    def as_exc(self, e):
        if isinstance(e, AExc):
            return e
        return AExc(self.make_exc(e.cls, *e.a), self.loc())

    # ------------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.modules:
            m = self.modules[name]
        elif name in self.models:
            m = self.models[name](self)
            self.modules[name] = m
        else:
            if "." in name:                    # a package is initialised before its submodules
                self.import_module(name.rpartition(".")[0])
            m = self.modules[name] if name in self.modules else self.load_source(name)
        if "." in name:
            parent, _, last = name.rpartition(".")
            pm = self.import_module(parent)
            if last not in pm.ns or not isinstance(pm.ns[last], AModule):
                if pm.ns.get(last) is None:
                    pm.ns[last] = m
        return m

    def find_source(self, name):
        rel = name.replace(".", "/")
        for p in (rel + "/__init__.py", rel + ".py"):
            f = os.path.join(self.root, p)
            if os.path.isfile(f):
                return f, p.endswith("__init__.py")
        return None, False

    def load_source(self, name):
        f, pkg = self.find_source(name)
        if f is None:
            top = name.split(".")[0]
            if self.find_source(top)[0] is None:
                # a library without a model: constants and pure functions on definite arguments only
                from .models import std
                m = AModule(name, missing=lambda n: std(name, n))
                self.modules[name] = m
                return m
            self.throw("ModuleNotFoundError", f"No module named '{name}'")
        with open(f, encoding="utf-8") as h:
            src = h.read()
        rel = os.path.relpath(f, self.root)
        return self.run_source(src, name, rel, pkg)

    def run_source(self, src, name, rel, pkg=False, inject=None):
        tree = ast.parse(src)
        annotate(tree, rel)
        self.sources[rel] = src
        m = AModule(name, file=rel)
        self.modules[name] = m
        env = Env(None, m, "module")
        env.vars = m.ns
        m.ns.update({"__name__": name, "__file__": rel, "__package__": name if pkg else name.rpartition(".")[0],
                     "__doc__": ast.get_docstring(tree)})
        if inject:
            m.ns.update(inject)
        if "." in name:
            parent, _, last = name.rpartition(".")
            self.import_module(parent)
        try:
            for st in tree.body:
                try:
                    self.block([st], env)
                except Imprecise as e:
                    # not understood: what the statement defines is unknown, the rest is analysed
                    names = [st.name] if isinstance(st, (ast.FunctionDef, ast.ClassDef)) else [x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
                    if not names:
                        raise
                    for x in names:
                        m.ns.setdefault(x, Unknown(str(e)))
        except BaseException:
            self.modules.pop(name, None)
            raise
        if "." in name:
            self.modules[parent].ns[last] = m
        return m

    def s_import(self, n, env):
        for a in n.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, env)
            else:
                self.store(a.name.split(".")[0], self.import_module(a.name.split(".")[0]), env)

    def s_importfrom(self, n, env):
        name = n.module or ""
        if n.level:
            pkg = env.module.ns["__package__"]
            for _ in range(n.level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        m = self.import_module(name)
        for a in n.names:
            if a.name == "*":
                names = m.ns.get("__all__")
                names = list(self.iterate(names)) if names is not None else [k for k in m.ns if not k.startswith("_")]
                for k in names:
                    self.store(k, m.ns[k], env)
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            elif self.find_source(f"{name}.{a.name}")[0] or f"{name}.{a.name}" in self.models:
                v = self.import_module(f"{name}.{a.name}")
            elif m.missing:
                v = m.missing(a.name)
            else:
                self.throw("ImportError", f"cannot import name '{a.name}' from '{name}'")
            self.store(a.asname or a.name, v, env)

    # ------------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            v = e.vars.get(name, NOVAL)
            if v is not NOVAL:
                return v
            if name in e.locals and name not in e.globals_ and e.kind == "func":
                self.throw("UnboundLocalError" if e is env else "NameError",
                           f"cannot access local variable '{name}' where it is not associated with a value")
            if name in e.globals_:
                e = None
                break
            e = e.parent
        if e is None and env.module is not None and name in env.module.ns:
            return env.module.ns[name]
        b = self.builtins.get(name, NOVAL)
        if b is NOVAL:
            self.throw("NameError", f"name '{name}' is not defined")
        return b

    def store(self, name, v, env):
        e = env
        if name in e.globals_:
            e.module.touch(name)
            e.module.ns[name] = v
            return
        while e.kind == "comp" and name not in e.locals:
            e = e.parent
        if name in e.nonlocals:
            e = e.parent
            while e is not None and not (e.kind != "class" and (name in e.vars or name in e.locals)):
                e = e.parent
            if e is None:
                raise Imprecise("nonlocal")
        if e.kind == "module":
            e.module.touch(name)
        elif e.serial <= HEAP.base:
            e.touch(name)
        e.vars[name] = v

    def s_scope(self, n, env):
        if env.kind == "module":
            return None
        return None

    # ------------------------------------------------------------------ statements
    def block(self, body, env):
        st = self.st
        p = self.p
        for s in body:
            self.node = s
            p.fuel -= 1
            if p.fuel < 0:
                raise Imprecise("analysis budget exhausted")
            r = st[type(s)](s, env)
            if r is not None:
                return r
        return None

    def ev(self, n, env):
        return self.ex[type(n)](n, env)

    def x_bad(self, n, env):
        raise Imprecise(f"expression {type(n).__name__}")

    def s_expr(self, n, env):
        if type(n.value) is not ast.Constant:
            self.ev(n.value, env)

    def s_assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def s_annassign(self, n, env):
        if env.kind == "class" and isinstance(n.target, ast.Name):
            ann = env.vars.setdefault("__annotations__", ADict())
            self.dset(ann, n.target.id, ast.unparse(n.annotation))
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)

    def s_augassign(self, n, env):
        t = n.target
        op = BINOPS[type(n.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.assign(t, self.iop(op, cur, self.ev(n.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(op, cur, self.ev(n.value, env)))
        else:
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.iop(op, cur, self.ev(n.value, env)))

    def iop(self, op, a, b):
        if isinstance(a, AList) and op == "+":
            a.touch("+=")
            a.items.extend(self.iterate(b))
            return a
        if isinstance(a, AList) and op == "*":
            a.touch("*=")
            a.items[:] = self.binop("*", a, b).items
            return a
        if isinstance(a, ASet) and not a.frozen and op == "|":
            a.touch("|=")
            for x in self.iterate(b):
                self.dset(a, x, None)
            return a
        if isinstance(a, ADict) and a.kind == "dict" and op == "|":
            a.touch("|=")
            for k, v in list(b.d.values()):
                self.dset(a, k, v)
            return a
        if isinstance(a, ABytearray) and op == "+":
            a.touch("+=")
            a.val = self.concat(a.val, self.as_bytes(b))
            return a
        if isinstance(a, AObj):
            f = a.cls.find("__i" + DUNDER[op][2:])
            if f is not None:
                return self.call(self.bind(f, a), [b], {})
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = v if isinstance(v, tuple) else None
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if vals is None:
                if not self.iterable(v):
                    self.throw("TypeError", f"cannot unpack non-iterable {self.typename(v)} object")
                vals = []
                for x in self.iterate(v):
                    vals.append(x)
                    if not star and len(vals) > n:
                        break
            if star:
                i = star[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    self.throw("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, AList(list(vals[i:len(vals) - after])), env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:] if after else []):
                    self.assign(e, x, env)
                return
            if len(vals) != n:
                self.throw("ValueError", "too many values to unpack" if len(vals) > n else
                           f"not enough values to unpack (expected {n}, got {len(vals)})")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        else:
            raise Imprecise("assignment target")

    def s_delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars:
                    self.throw("NameError", f"name '{t.id}' is not defined")
                if env.serial <= HEAP.base or env.kind == "module":
                    (env.module if env.kind == "module" else env).touch(t.id)
                del env.vars[t.id]
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            else:
                raise Imprecise("del")

    def s_return(self, n, env):
        return ("ret", None if n.value is None else self.ev(n.value, env), n)

    def s_if(self, n, env):
        return self.block(n.body if self.test(n.test, env) else n.orelse, env)

    def test(self, e, env):
        if type(e) is ast.UnaryOp and type(e.op) is ast.Not:
            return not self.test(e.operand, env)
        return self.truth(self.ev(e, env))

    def s_for(self, n, env):
        for v in self.iterate(self.ev(n.iter, env)):
            self.assign(n.target, v, env)
            r = self.block(n.body, env)
            if r is not None:
                if r is BRK:
                    return None
                if r is CNT:
                    continue
                return r
            self.node = n
        return self.block(n.orelse, env)

    def s_while(self, n, env):
        cnt = 0
        while True:
            self.node = n
            dec = self.p.ptr
            if not self.test(n.test, env):
                break
            if self.p.ptr != dec:
                cnt += 1
                if cnt > self.loop_cap:
                    raise LoopCap()
            else:
                cnt += 0.01
                if cnt > 100 * self.loop_cap:
                    raise LoopCap()
            r = self.block(n.body, env)
            if r is not None:
                if r is BRK:
                    return None
                if r is CNT:
                    continue
                return r
        return self.block(n.orelse, env)

    def s_assert(self, n, env):
        if not self.test(n.test, env):
            self.throw("AssertionError", *([self.ev(n.msg, env)] if n.msg else []))

    def s_raise(self, n, env):
        if n.exc is None:
            if not self.handling:
                self.throw("RuntimeError", "No active exception to reraise")
            raise self.handling[-1]
        v = self.ev(n.exc, env)
        if isinstance(v, AClass):
            v = self.call(v, [], {})
        self.node = n
        if not isinstance(v, AObj):
            self.throw("TypeError", "exceptions must derive from BaseException")
        if n.cause is not None:
            v.attrs["__cause__"] = self.ev(n.cause, env)
        raise AExc(v, self.loc())

    def match_handler(self, h, exc, env):
        if h.type is None:
            return True
        t = self.ev(h.type, env)
        for c in (t if isinstance(t, tuple) else (t,)):
            if isinstance(c, AClass):
                if c in exc.obj.cls.mro:
                    return True
            elif isinstance(c, (Unknown, Ext)):
                raise Imprecise("exception class")
        return False

    def s_try(self, n, env):
        ret = None
        try:
            try:
                ret = self.block(n.body, env)
            except (AExc, NativeError) as e:
                e = self.as_exc(e)
                ret = self.run_handlers(n, e, env)
            else:
                if ret is None:
                    ret = self.block(n.orelse, env)
        except (AExc, NativeError) as e:
            if n.finalbody:
                e = self.as_exc(e)
                r = self.block(n.finalbody, env)
                if r is not None:
                    return r
            raise e
        if n.finalbody:
            r = self.block(n.finalbody, env)
            if r is not None:
                return r
        return ret

    def run_handlers(self, n, e, env):
        for h in n.handlers:
            if self.match_handler(h, e, env):
                if h.name:
                    self.store(h.name, e.obj, env)
                self.handling.append(e)
                try:
                    return self.block(h.body, env)
                finally:
                    self.handling.pop()
                    if h.name:
                        env.vars.pop(h.name, None)
        raise e

    def enter(self, cm):
        f = self.cls_attr(cm, "__enter__")
        return self.call(f, [], {})

    def exit(self, cm, e):
        f = self.cls_attr(cm, "__exit__")
        if e is None:
            return self.call(f, [None, None, None], {})
        return self.call(f, [e.obj.cls, e.obj, None], {})

    def s_with(self, n, env, i=0):
        if i == len(n.items):
            return self.block(n.body, env)
        it = n.items[i]
        cm = self.ev(it.context_expr, env)
        v = self.enter(cm)
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            r = self.s_with(n, env, i + 1)
        except (AExc, NativeError) as e:
            e = self.as_exc(e)
            if self.truth(self.exit(cm, e)):
                return None
            raise e
        self.exit(cm, None)
        return r

    def s_match(self, n, env):
        v = self.ev(n.subject, env)
        for c in n.cases:
            if self.pat(c.pattern, v, env) and (c.guard is None or self.test(c.guard, env)):
                return self.block(c.body, env)
        return None

    def pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pat(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pat(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, AList)):
                return False
            items = list(v if isinstance(v, tuple) else v.items)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                i = star[0]
                post = len(p.patterns) - i - 1
                if len(items) < len(p.patterns) - 1:
                    return False
                mid = AList(items[i:len(items) - post])
                if not all(self.pat(q, x, env) for q, x in zip(p.patterns[:i], items)):
                    return False
                if p.patterns[i].name:
                    self.store(p.patterns[i].name, mid, env)
                return all(self.pat(q, x, env) for q, x in zip(p.patterns[i + 1:], items[len(items) - post:]))
            return len(items) == len(p.patterns) and all(self.pat(q, x, env) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, env)
            if not self.isinstance(v, c):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and c.py in (int, str, bytes, float, bool, tuple, list, dict):
                    return self.pat(p.patterns[0], v, env)
                raise Imprecise("positional class pattern")
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    x = self.getattr(v, a)
                except AExc:
                    return False
                if not self.pat(q, x, env):
                    return False
            return True
        raise Imprecise("pattern")

    # ------------------------------------------------------------------ definitions
    def s_funcdef(self, n, env):
        f = self.mkfunc(n, env, n.name)
        for d in reversed(n.decorator_list):
            dv = self.ev(d, env)
            self.node = n
            f = self.call(dv, [f], {})
        self.store(n.name, f, env)

    def mkfunc(self, n, env, name):
        a = n.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        penv = env
        while penv.kind == "class":
            penv = penv.parent
        q = f"{env.qual}.{name}" if env.qual else name
        return AFunc(n, penv, name, q, defaults, kwd, fn_info(n), env.module, env.cell)

    def x_lambda(self, n, env):
        return self.mkfunc(n, env, "<lambda>")

    def s_classdef(self, n, env):
        bases = []
        for b in n.bases:
            v = self.ev(b, env)
            if isinstance(v, (Ext,)):
                continue
            if isinstance(v, Unknown):
                raise Imprecise(f"base class {v!r}")
            if isinstance(v, AObj) and v.cls.find("__mro_entries__") is None:
                raise Imprecise("base class")
            bases.append(v)
        kws = {k.arg: self.ev(k.value, env) for k in n.keywords if k.arg}
        kws.pop("metaclass", None)
        cenv = Env(env, env.module, "class")
        cenv.qual = f"{env.qual}.{n.name}" if env.qual else n.name
        cell = [None]
        cenv.cell = cell
        doc = ast.get_docstring(n)
        cenv.vars["__doc__"] = doc
        self.block(n.body, cenv)
        cls = self.mkclass(n.name, bases, cenv.vars, env.module.name, cenv.qual)
        cell[0] = cls
        self.finish_class(cls, kws)
        c = cls
        for d in reversed(n.decorator_list):
            c = self.call(self.ev(d, env), [c], {})
        self.store(n.name, c, env)

    def mkclass(self, name, bases, ns, module="", qual=None):
        if not bases:
            bases = [self.T["object"]]
        try:
            cls = AClass(name, list(bases), ns, module=module)
        except TypeError:
            self.throw("TypeError", "Cannot create a consistent method resolution order (MRO)")
        cls.qualname = qual or name
        for b in cls.mro[1:]:
            if b.py is not None and b.py is not object and cls.py is None and b.py in (str, int, bytes, tuple, list, dict, float):
                cls.py = b.py
        if "__eq__" in ns and "__hash__" not in ns:
            ns["__hash__"] = None
        ab = []
        for c in cls.mro:
            for k, v in c.ns.items():
                if self.is_abstract(v):
                    if cls.find2(k)[1] is v:
                        ab.append(k)
        cls.abstract = tuple(ab)
        return cls

    def is_abstract(self, v):
        if isinstance(v, (AStatic, AClassM)):
            return self.is_abstract(v.fn)
        if isinstance(v, AProp):
            return v.get is not None and self.is_abstract(v.get)
        return isinstance(v, AFunc) and v.attrs.get("__isabstractmethod__") is True

    def finish_class(self, cls, kws):
        for k, v in list(cls.ns.items()):
            if isinstance(v, AProp) and v.cached:
                v.name = k
            elif isinstance(v, AObj):
                f = v.cls.find("__set_name__")
                if f is not None:
                    self.call(self.bind(f, v), [cls, k], {})
        for c in cls.mro[1:]:
            if "__init_subclass__" in c.ns:
                f = c.ns["__init_subclass__"]
                f = f.fn if isinstance(f, AClassM) else f
                self.call(f, [cls], kws)
                break

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        t = type(f)
        if t is AFunc:
            return self.call_func(f, args, kwargs)
        if t is ABound:
            return self.call(f.fn, [f.self] + list(args), kwargs)
        if t is Native:
            return f.fn(self, args, kwargs)
        if t is PrimMethod:
            return self.prim_call(f.self, f.name, args, kwargs)
        if t is AClass:
            return self.instantiate(f, args, kwargs)
        if t is AObj:
            m = f.cls.find("__call__")
            if m is None:
                self.throw("TypeError", f"'{f.cls.name}' object is not callable")
            return self.call(self.bind(m, f), args, kwargs)
        if t is ACache:
            return self.call_cache(f, args, kwargs)
        if t is APartial:
            return self.call_partial(f, args, kwargs)
        if t is AClassM or t is AStatic:
            return self.call(f.fn, args, kwargs)
        if isinstance(f, (Unknown, Ext)):
            raise Imprecise(f"call of {f!r}")
        if isinstance(f, SObj):
            self.throw("TypeError", f"'{f.kind}' object is not callable")
        self.throw("TypeError", f"'{self.typename(f)}' object is not callable")

    def call_partial(self, f, args, kwargs):
        a = list(f.args) + list(args)
        k = dict(f.kwargs)
        k.update(kwargs)
        if not f.curry:
            return self.call(f.fn, a, k)
        if isinstance(f.fn, AFunc):
            if self.missing_args(f.fn, a, k):
                return APartial(f.fn, a, k, True)
            return self.call(f.fn, a, k)
        raise Imprecise("curried call")

    def missing_args(self, f, args, kwargs):
        a = f.node.args
        pos = a.posonlyargs + a.args
        need = [x.arg for x in pos[:len(pos) - len(f.defaults)]]
        got = set(x.arg for x in pos[:len(args)]) | set(kwargs)
        return any(n not in got for n in need) or any(k.arg not in kwargs and k.arg not in f.kwdefaults for k in a.kwonlyargs)

    def bind_args(self, f, args, kwargs, env):
        a = f.node.args
        pos = a.posonlyargs + a.args
        v = env.vars
        n = len(args)
        np = len(pos)
        for x, val in zip(pos, args):
            v[x.arg] = val
        if n > np:
            if a.vararg:
                v[a.vararg.arg] = tuple(args[np:])
            else:
                self.throw("TypeError", f"{f.qualname}() takes {np} positional arguments but {n} were given")
        elif a.vararg:
            v[a.vararg.arg] = ()
        extra = None
        if kwargs:
            names = {x.arg for x in a.args} | {x.arg for x in a.kwonlyargs}
            for k, val in kwargs.items():
                if k in names:
                    if k in v:
                        self.throw("TypeError", f"{f.qualname}() got multiple values for argument '{k}'")
                    v[k] = val
                elif a.kwarg:
                    extra = extra or {}
                    extra[k] = val
                else:
                    self.throw("TypeError", f"{f.qualname}() got an unexpected keyword argument '{k}'")
        if n < np:
            nd = len(f.defaults)
            for i in range(n, np):
                x = pos[i].arg
                if x not in v:
                    j = i - (np - nd)
                    if j < 0:
                        self.throw("TypeError", f"{f.qualname}() missing required positional argument: '{x}'")
                    v[x] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in v:
                if x.arg not in f.kwdefaults:
                    self.throw("TypeError", f"{f.qualname}() missing required keyword-only argument: '{x.arg}'")
                v[x.arg] = f.kwdefaults[x.arg]
        if a.kwarg:
            d = ADict()
            for k, val in (extra or {}).items():
                self.dset(d, k, val)
            v[a.kwarg.arg] = d
        if pos:
            env.first = v.get(pos[0].arg)

    def call_func(self, f, args, kwargs):
        node = f.node
        env = Env(f.env, f.module, "func", f.info.locals, f.cell)
        env.globals_, env.nonlocals = f.info.globals_, f.info.nonlocals
        env.qual = f.qualname + ".<locals>"
        self.bind_args(f, args, kwargs, env)
        if self.track:
            self.functions_seen[(getattr(node, "_f", "?"), f.qualname)] = node.lineno
        if type(node) is ast.Lambda:
            return self.ev(node.body, env)
        if f.info.is_gen:
            return AIter(self.run_gen(node, env), "generator")
        self.depth += 1
        if self.depth > 600:
            self.depth -= 1
            raise Imprecise("recursion too deep")
        save = self.node
        try:
            r = self.block(node.body, env)
        finally:
            self.depth -= 1
        if r is None:
            self.node = save
            return None
        self.ret_node = r[2]
        self.node = save
        return r[1]

    def call_cache(self, c, args, kwargs):
        key = tuple(args)
        if kwargs:
            key = key + (c.store.serial,) + tuple(x for kv in kwargs.items() for x in kv)
        if c.typed:
            key = key + tuple(self.typeof(a) for a in args)
        hit, v = self.dget(c.store, key)
        self.cachewrite(c, "#hits" if hit else "#misses")
        if hit:
            if c.maxsize is not None:
                self.cachewrite(c)
                self.ddel(c.store, key)
                self.dset(c.store, key, v, cache=True)
            return v
        v = self.call(c.fn, args, kwargs)
        if c.maxsize == 0:
            return v
        self.cachewrite(c)
        self.dset(c.store, key, v, cache=True)
        if c.maxsize is not None:
            while len(c.store.d) > c.maxsize:
                del c.store.d[next(iter(c.store.d))]
        return v

    def cachewrite(self, c, count=None):
        log, HEAP.log = HEAP.log, None
        if count is None:
            c.store.touch("cache")
        else:
            c.touch(count)
            c.attrs[count] = c.attrs.get(count, 0) + 1
        HEAP.log = log

    def cache_info(self, c):
        from . import models
        t = self.T.get("CacheInfo")
        if t is None:
            t = self.T["CacheInfo"] = models.make_namedtuple(self, "CacheInfo", ["hits", "misses", "maxsize", "currsize"])
        return self.call(t, [c.attrs.get("#hits", 0), c.attrs.get("#misses", 0), c.maxsize, len(c.store.d) + len(c.store.uh)], {})

    def instantiate(self, cls, args, kwargs):
        if cls.make is not None:
            return cls.make(self, cls, args, kwargs)
        if cls is self.T["type"]:
            if len(args) == 1:
                return self.typeof(args[0])
            name, bases, ns = args
            c = self.mkclass(name, list(bases), {k: v for k, v in ns.d.values()})
            self.finish_class(c, {})
            return c
        if cls.abstract:
            self.throw("TypeError", f"Can't instantiate abstract class {cls.name}")
        new = cls.find("__new__")
        if new is not None:
            fn = new.fn if isinstance(new, AStatic) else new
            o = self.call(fn, [cls] + list(args), kwargs)
            if not (isinstance(o, AObj) and cls in o.cls.mro):
                return o
        else:
            o = self.alloc(cls, args, kwargs)
        init = cls.find("__init__")
        if init is not None:
            self.call(self.bind(init, o), args, kwargs)
        elif new is None and (args or kwargs) and cls.py is None and self.T["BaseException"] not in cls.mro:
            self.throw("TypeError", f"{cls.name}() takes no arguments")
        return o

    def alloc(self, cls, args, kwargs):
        o = AObj(cls)
        if self.T["BaseException"] in cls.mro:
            o.attrs["args"] = tuple(args)
        elif cls.py in (str, int, bytes, float, tuple):
            base = [c for c in cls.mro if c.make is not None and c.py is cls.py][0]
            o.native = base.make(self, base, args, {})
        elif cls.py in (list, dict):
            raise Imprecise(f"subclass of {cls.py.__name__}")
        return o

    def x_call(self, n, env):
        fn = n.func
        if type(fn) is ast.Name and fn.id == "super" and not n.args:
            c = env.cell
            e = env
            while e.kind == "comp":
                e = e.parent
            if c is None or c[0] is None:
                raise Imprecise("super()")
            return ASuper(c[0], e.first)
        f = self.ev(fn, env)
        args = []
        for a in n.args:
            if type(a) is ast.Starred:
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, ADict):
                    for kk, vv in d.d.values():
                        if kk in kwargs:
                            self.throw("TypeError", "multiple values for keyword argument")
                        kwargs[kk] = vv
                else:
                    raise Imprecise("** of a non-dict")
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        if type(f) is Native and f.name in ("locals", "globals", "vars", "eval", "exec"):
            raise Imprecise(f.name)
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------------ attributes
    def bind(self, v, obj):
        t = type(v)
        if t is AFunc or t is Native:
            return ABound(v, obj)
        if t is AStatic:
            return v.fn
        if t is AClassM:
            return ABound(v.fn, obj.cls if isinstance(obj, AObj) else obj)
        if t is AProp:
            return self.call(v.get, [obj], {})
        if t is ACache:
            return ABound(v, obj)
        if t is APartial and v.curry:
            return ABound(v, obj)
        if t is AObj and v.cls.find("__get__") is not None:
            return self.call(self.bind(v.cls.find("__get__"), v), [obj, obj.cls if isinstance(obj, AObj) else obj], {})
        return v

    def cls_attr(self, o, name):
        if isinstance(o, AObj):
            f = o.cls.find(name)
            if f is None:
                self.throw("TypeError" if name.startswith("__") else "AttributeError",
                           f"'{o.cls.name}' object does not support {name}")
            return self.bind(f, o)
        return self.getattr(o, name)

    def getattr(self, o, name, default=NOVAL):
        v = self.getattr0(o, name)
        if v is not NOVAL:
            return v
        if default is not NOVAL:
            return default
        self.throw("AttributeError", f"'{self.typename(o)}' object has no attribute '{name}'")

    def nsdict(self, o, ns):
        """the __dict__ of an object: a dictionary whose writes are writes to the object"""
        d = ADict()
        for k, v in ns.items():
            self.dset(d, k, v)
        d.owner = (o, ns)
        return d

    def getattr0(self, o, name):
        t = type(o)
        if t is AObj:
            cls = o.cls
            cv = NOVAL
            for c in cls.mro:
                if name in c.ns:
                    cv = c.ns[name]
                    break
            if type(cv) is AProp:
                if not cv.cached:
                    if cv.get is None:
                        return NOVAL
                    return self.call(cv.get, [o], {})
                if name in o.attrs:
                    return o.attrs[name]
                v = self.call(cv.get, [o], {})
                log, HEAP.log = HEAP.log, None
                o.touch(name)
                HEAP.log = log
                o.attrs[name] = v
                return v
            if name in o.attrs:
                return o.attrs[name]
            if cv is not NOVAL:
                return self.bind(cv, o)
            if name == "__class__":
                return cls
            if name == "__dict__":
                return self.nsdict(o, o.attrs)
            if name == "__doc__":
                return None
            if o.native is not None:
                r = self.getattr0(o.native, name)
                if r is not NOVAL:
                    return r
            if self.T["BaseException"] in cls.mro and name in ("__cause__", "__context__", "__traceback__", "__notes__"):
                return None
            if self.T["BaseException"] in cls.mro and name in ("with_traceback", "add_note"):
                return Native(name, lambda I, a, k: o)
            g = cls.find("__getattr__")
            if g is not None:
                return self.call(self.bind(g, o), [name], {})
            if name in ("__eq__", "__ne__", "__hash__", "__repr__", "__str__", "__init__", "__setattr__", "__init_subclass__",
                        "__new__", "__getattribute__", "__reduce__", "__reduce_ex__"):
                return self.object_method(o, name)
            return NOVAL
        if t is AClass:
            for c in o.mro:
                if name in c.ns:
                    v = c.ns[name]
                    if type(v) is AStatic:
                        return v.fn
                    if type(v) is AClassM:
                        return ABound(v.fn, o)
                    if type(v) is AObj and v.cls.find("__get__") is not None:
                        return self.call(self.bind(v.cls.find("__get__"), v), [None, o], {})
                    return v
            if name in ("__name__", "__qualname__"):
                return o.name if name == "__name__" else o.qualname
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__module__":
                return o.module
            if name == "__doc__":
                return None
            if name == "__dict__":
                return self.nsdict(o, o.ns)
            if name == "__class__":
                return self.T["type"]
            if name == "__abstractmethods__":
                return o.abstract
            if o.py is not None:
                return self.type_attr(o, name)
            if name in ("__init__", "__repr__", "__str__", "__eq__", "__hash__", "__setattr__", "__new__", "__init_subclass__", "mro"):
                return self.object_classmethod(o, name)
            return NOVAL
        if t is ASuper:
            obj = o.obj
            if isinstance(obj, AClass):
                mro, isobj = obj.mro, False
            elif isinstance(obj, AObj):
                mro, isobj = obj.cls.mro, True
            else:
                raise Imprecise("super")
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if type(v) is AClassM:
                        return ABound(v.fn, obj.cls if isobj else obj)
                    if not isobj and type(v) is AFunc:
                        return v
                    return self.bind(v, obj)
            if name == "__init__":
                return Native("object.__init__", lambda I, a, k: None)
            if name == "__init_subclass__":
                return Native("object.__init_subclass__", lambda I, a, k: None)
            if name == "__new__":
                return Native("object.__new__", lambda I, a, k: I.alloc(a[0], a[1:], k))
            if isobj:
                return self.object_method(obj, name)
            return NOVAL
        if t is AModule:
            v = o.ns.get(name, NOVAL)
            if v is NOVAL:
                if o.file and (self.find_source(f"{o.name}.{name}")[0] and f"{o.name}.{name}" in self.modules):
                    return self.modules[f"{o.name}.{name}"]
                if f"{o.name}.{name}" in self.models:
                    return self.import_module(f"{o.name}.{name}")
                if o.missing:
                    return o.missing(name)
                if name == "__dict__":
                    return self.nsdict(o, o.ns)
            return v
        if t is AFunc:
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.qualname
            if name == "__module__":
                return o.module.name
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__dict__":
                return self.nsdict(o, o.attrs)
            if name == "__defaults__":
                return tuple(o.defaults) or None
            if name == "__call__":
                return o
            if name == "__get__":
                return Native("__get__", lambda I, a, k: ABound(o, a[0]))
            if name == "__annotations__":
                return ADict()
            return NOVAL
        if t is ABound:
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.fn
            if name == "__call__":
                return o
            return self.getattr0(o.fn, name)
        if t is ACache:
            if name in o.attrs:
                return o.attrs[name]
            if name == "cache_clear":
                def clear(I, a, k):
                    I.cachewrite(o)
                    o.store.d.clear()
                    o.store.uh.clear()
                    log, HEAP.log = HEAP.log, None
                    o.touch("#hits")
                    o.attrs.pop("#hits", None)
                    o.attrs.pop("#misses", None)
                    HEAP.log = log
                return Native("cache_clear", clear)
            if name == "cache_info":
                return Native("cache_info", lambda I, a, k: I.cache_info(o))
            if name == "__wrapped__":
                return o.fn
            if name == "cache_parameters":
                raise Imprecise(name)
            if name == "__call__":
                return o
            return self.getattr0(o.fn, name)
        if t is Native:
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__call__":
                return o
            if name == "__doc__":
                return None
            return NOVAL
        if t is APartial:
            if name == "func":
                return o.fn
            if name == "args":
                return tuple(o.args)
            if name == "keywords":
                d = ADict()
                for k, v in o.kwargs.items():
                    self.dset(d, k, v)
                return d
            if o.curry:
                return self.getattr0(o.fn, name)
            if name == "__call__":
                return o
            return NOVAL
        if t is AProp:
            if name == "setter":
                return Native("setter", lambda I, a, k: AProp(o.get, a[0], o.dele))
            if name == "deleter":
                return Native("deleter", lambda I, a, k: AProp(o.get, o.set, a[0]))
            if name == "getter":
                return Native("getter", lambda I, a, k: AProp(a[0], o.set, o.dele))
            if name == "fget":
                return o.get
            return NOVAL
        if t is AStatic or t is AClassM:
            if name == "__func__" or name == "__wrapped__":
                return o.fn
            return self.getattr0(o.fn, name)
        if t is Ext:
            return Ext(f"{o.name}.{name}")
        if t is Unknown:
            raise Imprecise(f"attribute {name} of {o!r}")
        return self.prim_attr(o, name)

    def object_method(self, o, name):
        if name == "__eq__":
            return Native(name, lambda I, a, k: True if a[0] is o else NotImplemented)
        if name == "__ne__":
            return Native(name, lambda I, a, k: not I.eq(o, a[0]))
        if name == "__hash__":
            return Native(name, lambda I, a, k: id(o) >> 4)
        if name in ("__repr__", "__str__"):
            return Native(name, lambda I, a, k: f"<{o.cls.qualname} object>")
        if name == "__init__":
            return Native(name, lambda I, a, k: None)
        if name == "__setattr__":
            def sa(I, a, k):
                o.touch(a[0])
                o.attrs[a[0]] = a[1]
            return Native(name, sa)
        if name == "__getattribute__":
            return Native(name, lambda I, a, k: I.getattr(o, a[0]))
        if name == "__format__":
            return Native(name, lambda I, a, k: I.tostr(o))
        return NOVAL

    def object_classmethod(self, c, name):
        if name == "__new__":
            return Native(name, lambda I, a, k: I.alloc(a[0], a[1:], k))
        if name == "__init__":
            return Native(name, lambda I, a, k: None)
        if name == "mro":
            return Native(name, lambda I, a, k: AList(list(c.mro)))
        if name == "__setattr__":
            def sa(I, a, k):
                a[0].touch(a[1])
                a[0].attrs[a[1]] = a[2]
            return Native(name, sa)
        if name in ("__eq__", "__hash__", "__repr__", "__str__"):
            return Native(name, lambda I, a, k: I.call(I.object_method(a[0], name), a[1:], k))
        return NOVAL

    def setattr(self, o, name, v):
        t = type(o)
        if t is AObj:
            cv = o.cls.find(name)
            if type(cv) is AProp and not cv.cached:
                if cv.set is None:
                    self.throw("AttributeError", f"property '{name}' of '{o.cls.name}' object has no setter")
                self.call(cv.set, [o, v], {})
                return
            sa = o.cls.find("__setattr__")
            if sa is not None:
                self.call(self.bind(sa, o), [name, v], {})
                return
            o.touch(name)
            o.attrs[name] = v
        elif t is AClass:
            o.touch(name)
            o.ns[name] = v
        elif t is AModule:
            o.touch(name)
            o.ns[name] = v
        elif t is AFunc:
            o.touch(name)
            if name == "__name__":
                pass
            o.attrs[name] = v
        elif t is ACache:
            o.touch(name)
            o.attrs[name] = v
        elif t is Native:
            o.attrs[name] = v
        elif t is ABound:
            self.throw("AttributeError", f"'method' object has no attribute '{name}'")
        elif t in (Ext, Unknown):
            raise Imprecise("attribute assignment on an external object")
        else:
            self.throw("AttributeError", f"'{self.typename(o)}' object has no attribute '{name}'")

    def delattr(self, o, name):
        if isinstance(o, AObj) and name in o.attrs:
            o.touch(name)
            del o.attrs[name]
        elif isinstance(o, AClass) and name in o.ns:
            o.touch(name)
            del o.ns[name]
        else:
            self.throw("AttributeError", name)

    def x_name(self, n, env):
        v = env.vars.get(n.id, NOVAL)
        return v if v is not NOVAL else self.lookup(n.id, env)

    def x_attr(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    # ------------------------------------------------------------------ expressions
    def x_tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for e in es:
            if type(e) is ast.Starred:
                out.extend(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def x_list(self, n, env):
        return AList(self.elts(n.elts, env))

    def x_set(self, n, env):
        s = ASet()
        for v in self.elts(n.elts, env):
            self.dset(s, v, None)
        return s

    def x_dict(self, n, env):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, env)
                if not isinstance(o, ADict):
                    raise Imprecise("** in dict display")
                for kk, vv in list(o.d.values()):
                    self.dset(d, kk, vv)
            else:
                kk = self.ev(k, env)
                self.dset(d, kk, self.ev(v, env))
        return d

    def x_slice(self, n, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return ASlice(f(n.lower), f(n.upper), f(n.step))

    def x_subscript(self, n, env):
        return self.getitem(self.ev(n.value, env), self.ev(n.slice, env))

    def x_ifexp(self, n, env):
        return self.ev(n.body if self.test(n.test, env) else n.orelse, env)

    def x_boolop(self, n, env):
        is_and = type(n.op) is ast.And
        for e in n.values[:-1]:
            v = self.ev(e, env)
            if self.truth(v) != is_and:
                return v
        return self.ev(n.values[-1], env)

    def x_unary(self, n, env):
        if type(n.op) is ast.Not:
            return not self.test(n.operand, env)
        v = self.ev(n.operand, env)
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)]
        return self.unop(op, v)

    def x_named(self, n, env):
        v = self.ev(n.value, env)
        self.store(n.target.id, v, env)
        return v

    def x_binop(self, n, env):
        return self.binop(BINOPS[type(n.op)], self.ev(n.left, env), self.ev(n.right, env))

    def x_compare(self, n, env):
        left = self.ev(n.left, env)
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            v = self.compare(CMPOPS[type(op)], left, right)
            if len(n.ops) == 1:
                return v
            if not self.truth(v):
                return v
            left = right
        return v

    def x_joined(self, n, env):
        out = []
        for v in n.values:
            if type(v) is ast.Constant:
                out.append(v.value)
            else:
                out.append(self.x_formatted(v, env))
        return self.strcat(out)

    def x_formatted(self, n, env):
        v = self.ev(n.value, env)
        if n.conversion == 114:
            v = self.repr(v)
        elif n.conversion == 115:
            v = self.tostr(v)
        elif n.conversion == 97:
            v = self.repr(v)
        spec = self.x_joined(n.format_spec, env) if n.format_spec is not None else ""
        return self.format(v, spec)

    # comprehensions
    def comp(self, gens, i, env, leaf):
        if i == len(gens):
            yield leaf(env)
            return
        g = gens[i]
        for v in self.iterate(self.ev(g.iter, env)):
            self.assign(g.target, v, env)
            if all(self.test(c, env) for c in g.ifs):
                yield from self.comp(gens, i + 1, env, leaf)

    def comp_env(self, n, env):
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        e = Env(env, env.module, "comp", frozenset(names), env.cell)
        e.first = env.first
        e.qual = env.qual
        return e

    def x_listcomp(self, n, env):
        e = self.comp_env(n, env)
        return AList(list(self.comp(n.generators, 0, e, lambda x: self.ev(n.elt, x))))

    def x_setcomp(self, n, env):
        e = self.comp_env(n, env)
        s = ASet()
        for v in self.comp(n.generators, 0, e, lambda x: self.ev(n.elt, x)):
            self.dset(s, v, None)
        return s

    def x_dictcomp(self, n, env):
        e = self.comp_env(n, env)
        d = ADict()
        for k, v in self.comp(n.generators, 0, e, lambda x: (self.ev(n.key, x), self.ev(n.value, x))):
            self.dset(d, k, v)
        return d

    def x_genexp(self, n, env):
        e = self.comp_env(n, env)
        gens = n.generators
        first = self.ev(gens[0].iter, env)     # evaluated eagerly
        if not self.iterable(first):
            self.throw("TypeError", f"'{self.typename(first)}' object is not iterable")

        def go():
            for v in self.iterate(first):
                self.assign(gens[0].target, v, e)
                if all(self.test(c, e) for c in gens[0].ifs):
                    yield from self.comp(gens, 1, e, lambda x: self.ev(n.elt, x))
        return AIter(go(), "generator")

    # ------------------------------------------------------------------ generator bodies
    def run_gen(self, node, env):
        save = self.node
        r = yield from self.gblock(node.body, env)
        return None if r is None else r[1]

    def gblock(self, body, env):
        for s in body:
            if not has_yield(s):
                self.node = s
                self.p.fuel -= 1
                if self.p.fuel < 0:
                    raise Imprecise("analysis budget exhausted")
                r = self.st[type(s)](s, env)
            else:
                self.node = s
                r = yield from self.gstmt(s, env)
            if r is not None:
                return r
        return None

    def gyield(self, y, env):
        if type(y) is ast.Yield:
            v = None if y.value is None else self.ev(y.value, env)
            return (yield v)
        src = self.ev(y.value, env)
        if isinstance(src, AIter):
            return (yield from src.it)
        for v in self.iterate(src):
            yield v
        return None

    def gstmt(self, s, env):
        t = type(s)
        if t is ast.Expr and type(s.value) in (ast.Yield, ast.YieldFrom):
            yield from self.gyield(s.value, env)
            return None
        if t is ast.Assign and type(s.value) in (ast.Yield, ast.YieldFrom):
            v = yield from self.gyield(s.value, env)
            for x in s.targets:
                self.assign(x, v, env)
            return None
        if t is ast.Return and type(s.value) in (ast.Yield, ast.YieldFrom):
            v = yield from self.gyield(s.value, env)
            return ("ret", v, s)
        if t is ast.If:
            return (yield from self.gblock(s.body if self.test(s.test, env) else s.orelse, env))
        if t is ast.For:
            for v in self.iterate(self.ev(s.iter, env)):
                self.assign(s.target, v, env)
                r = yield from self.gblock(s.body, env)
                if r is BRK:
                    return None
                if r is not None and r is not CNT:
                    return r
                self.node = s
            return (yield from self.gblock(s.orelse, env))
        if t is ast.While:
            cnt = 0
            while True:
                self.node = s
                dec = self.p.ptr
                if not self.test(s.test, env):
                    break
                cnt += 1 if self.p.ptr != dec else 0.01
                if cnt > self.loop_cap:
                    raise LoopCap()
                r = yield from self.gblock(s.body, env)
                if r is BRK:
                    return None
                if r is not None and r is not CNT:
                    return r
            return (yield from self.gblock(s.orelse, env))
        if t is ast.Try:
            ret = None
            try:
                try:
                    ret = yield from self.gblock(s.body, env)
                except (AExc, NativeError) as e:
                    e = self.as_exc(e)
                    for h in s.handlers:
                        if self.match_handler(h, e, env):
                            if h.name:
                                self.store(h.name, e.obj, env)
                            self.handling.append(e)
                            try:
                                ret = yield from self.gblock(h.body, env)
                            finally:
                                self.handling.pop()
                            break
                    else:
                        raise e
                else:
                    if ret is None:
                        ret = yield from self.gblock(s.orelse, env)
            except (AExc, NativeError) as e:
                e = self.as_exc(e)
                if s.finalbody:
                    r = yield from self.gblock(s.finalbody, env)
                    if r is not None:
                        return r
                raise e
            if s.finalbody:
                r = yield from self.gblock(s.finalbody, env)
                if r is not None:
                    return r
            return ret
        if t is ast.With:
            return (yield from self.gwith(s, env, 0))
        raise Imprecise("yield inside an expression")

    def gwith(self, n, env, i):
        if i == len(n.items):
            return (yield from self.gblock(n.body, env))
        it = n.items[i]
        cm = self.ev(it.context_expr, env)
        v = self.enter(cm)
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            r = yield from self.gwith(n, env, i + 1)
        except (AExc, NativeError) as e:
            e = self.as_exc(e)
            if self.truth(self.exit(cm, e)):
                return None
            raise e
        self.exit(cm, None)
        return r


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
DUNDER = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "//": "__floordiv__", "%": "__mod__",
          "**": "__pow__", "<<": "__lshift__", ">>": "__rshift__", "|": "__or__", "&": "__and__", "^": "__xor__", "@": "__matmul__"}
