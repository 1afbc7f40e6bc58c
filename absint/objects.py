"""Heap objects of the abstract interpreter."""
import itertools

_serial = itertools.count(1)


class Heap:
    """Journal of writes, so that one interpreted base state can be reused by every partition."""

    def __init__(self):
        self.base = 0          # objects with serial <= base belong to the frozen base state
        self.journal = {}
        self.log = None        # write log: list of (obj, what, loc) or None
        self.loc = lambda: None

    def freeze(self):
        self.base = next(_serial)
        self.journal = {}

    def rollback(self):
        for o, s in self.journal.values():
            o.restore(s)
        self.journal = {}


HEAP = Heap()


class Obj:
    __slots__ = ("serial",)

    def __init__(self):
        self.serial = next(_serial)

    def touch(self, what=""):
        h = HEAP
        if self.serial <= h.base and id(self) not in h.journal:
            h.journal[id(self)] = (self, self.snap())
        if h.log is not None:
            h.log.append((self, what, h.loc()))


class AObj(Obj):
    __slots__ = ("cls", "attrs", "native")

    def __init__(self, cls, attrs=None, native=None):
        self.serial = next(_serial)
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.native = native      # value of the built-in base type (str/int/tuple subclass)

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs.clear()
        self.attrs.update(s)

    def __repr__(self):
        return f"<{self.cls.name} object>"


class AClass(Obj):
    __slots__ = ("name", "qualname", "bases", "mro", "ns", "py", "check", "make", "module", "abstract", "keys")

    def __init__(self, name, bases, ns, py=None, check=None, make=None, module="builtins"):
        self.serial = next(_serial)
        self.name = self.qualname = name
        self.bases = bases
        self.ns = ns
        self.py = py              # built-in Python type this class stands for
        self.check = check        # extra isinstance hook (abstract base classes)
        self.make = make          # constructor model
        self.module = module
        self.abstract = ()
        self.mro = c3(self)

    def find(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def find2(self, name):
        for c in self.mro:
            if name in c.ns:
                return c, c.ns[name]
        return None, None

    def snap(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns.clear()
        self.ns.update(s)

    def __repr__(self):
        return f"<class {self.qualname}>"


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise TypeError("mro")
        out.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]


class AFunc(Obj):
    __slots__ = ("node", "env", "name", "qualname", "defaults", "kwdefaults", "info", "attrs", "module", "cell")

    def __init__(self, node, env, name, qualname, defaults, kwdefaults, info, module, cell):
        self.serial = next(_serial)
        self.node, self.env, self.name, self.qualname = node, env, name, qualname
        self.defaults, self.kwdefaults, self.info = defaults, kwdefaults, info
        self.attrs = {}
        self.module = module
        self.cell = cell

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs.clear()
        self.attrs.update(s)

    def __repr__(self):
        return f"<function {self.qualname}>"


class ABound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return f"<bound {self.fn!r} of {self.self!r}>"


class Native:
    """A modelled library function: fn(I, args, kwargs)."""
    __slots__ = ("name", "fn", "attrs")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.attrs = {}

    def __repr__(self):
        return f"<native {self.name}>"


class PrimMethod:
    __slots__ = ("name", "self")

    def __init__(self, name, self_):
        self.name, self.self = name, self_

    def __repr__(self):
        return f"<method {self.name} of {self.self!r}>"


class AProp:
    __slots__ = ("get", "set", "dele", "cached", "name")

    def __init__(self, get, set=None, dele=None, cached=False):
        self.get, self.set, self.dele, self.cached = get, set, dele, cached
        self.name = None


class AStatic:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class AClassM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ASuper:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class AModule(Obj):
    __slots__ = ("name", "ns", "missing", "file")

    def __init__(self, name, ns=None, missing=None, file=None):
        self.serial = next(_serial)
        self.name = name
        self.ns = {} if ns is None else ns
        self.missing = missing     # name -> value for attributes without a model
        self.file = file

    def snap(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns.clear()
        self.ns.update(s)

    def __repr__(self):
        return f"<module {self.name}>"


class AList(Obj):
    __slots__ = ("items",)

    def __init__(self, items=None):
        self.serial = next(_serial)
        self.items = [] if items is None else items

    def snap(self):
        return list(self.items)

    def restore(self, s):
        self.items[:] = s

    def __repr__(self):
        return repr(self.items)


class ADict(Obj):
    """ids -> (key, value); see Interp.key_id."""
    __slots__ = ("d", "uh", "kind", "default", "owner")

    def __init__(self, kind="dict"):
        self.owner = None          # (object, mapping): the namespace this dictionary is a view of
        self.serial = next(_serial)
        self.d = {}
        self.uh = {}
        self.kind = kind
        self.default = None

    def snap(self):
        return dict(self.d), {k: list(v) for k, v in self.uh.items()}

    def restore(self, s):
        self.d.clear()
        self.d.update(s[0])
        self.uh.clear()
        self.uh.update(s[1])

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.d.values()) + "}"


class ASet(ADict):
    __slots__ = ("frozen",)

    def __init__(self, frozen=False):
        super().__init__("set")
        self.frozen = frozen


class ABytearray(Obj):
    __slots__ = ("val", "kind")

    def __init__(self, val, kind="bytearray"):
        self.serial = next(_serial)
        self.val = val
        self.kind = kind

    def snap(self):
        return self.val

    def restore(self, s):
        self.val = s

    def __repr__(self):
        return f"{self.kind}({self.val!r})"


class ACache(Obj):
    """functools.cache / lru_cache wrapper."""
    __slots__ = ("fn", "store", "maxsize", "attrs", "typed")

    def __init__(self, fn, maxsize=None, typed=False):
        self.serial = next(_serial)
        self.fn = fn
        self.store = ADict()
        self.maxsize = maxsize
        self.typed = typed
        self.attrs = {}

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs.clear()
        self.attrs.update(s)

    def __repr__(self):
        return f"<cache of {self.fn!r}>"


class Ext:
    """A value of an external library that carries no behaviour we need (type hints and the like)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"


class ARange:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return f"range({self.start!r}, {self.stop!r}, {self.step!r})"


class ASlice:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class AIter:
    """An iterator over abstract values (host generator)."""
    __slots__ = ("it", "kind", "done")

    def __init__(self, it, kind="iterator"):
        self.it, self.kind = it, kind
        self.done = False


class AView:
    __slots__ = ("d", "kind")

    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class APartial:
    __slots__ = ("fn", "args", "kwargs", "curry")

    def __init__(self, fn, args, kwargs, curry=False):
        self.fn, self.args, self.kwargs, self.curry = fn, args, kwargs, curry


class Env(Obj):
    __slots__ = ("vars", "parent", "locals", "globals_", "nonlocals", "module", "cell", "fn", "first", "kind", "qual")

    def __init__(self, parent, module, kind, locals_=frozenset(), cell=None):
        self.serial = next(_serial)
        self.vars = {}
        self.parent = parent
        self.module = module
        self.kind = kind
        self.locals = locals_
        self.globals_ = ()
        self.nonlocals = ()
        self.cell = cell
        self.first = None
        self.qual = ""

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars.clear()
        self.vars.update(s)


class AExc(Exception):
    def __init__(self, obj, loc=None):
        self.obj = obj
        self.loc = loc
        super().__init__(obj)
