"""Model of the parsimonious PEG library: grammar text -> matcher, parse trees, NodeVisitor."""
import re

from .lin import Imprecise
from .objects import AClass, AList, AModule, ADict, AObj, Native

SRC = r'''
class ParseError(Exception):
    def __init__(self, text, pos=-1, expr=None):
        self.text = text
        self.pos = pos
        self.expr = expr
    def __str__(self):
        return "Rule didn't match at %s (column %s)." % (self.text[self.pos:self.pos + 20], self.column())
    def line(self):
        return self.text.count("\n", 0, self.pos) + 1
    def column(self):
        return self.pos + 1

class IncompleteParseError(ParseError):
    pass

class LeftRecursionError(ParseError):
    pass

class VisitationError(Exception):
    def __init__(self, exc, exc_class, node):
        self.original_class = exc_class
        super().__init__("%s" % exc_class.__name__)

class BadGrammar(Exception):
    pass

class UndefinedLabel(BadGrammar):
    pass

class Node:
    __slots__ = ["expr", "full_text", "start", "end", "children"]
    def __init__(self, expr, full_text, start, end, children=None):
        self.expr = expr
        self.full_text = full_text
        self.start = start
        self.end = end
        self.children = children or []
    @property
    def expr_name(self):
        return self.expr.name
    def __iter__(self):
        return iter(self.children)
    @property
    def text(self):
        return self.full_text[self.start:self.end]
    def __eq__(self, other):
        if not isinstance(other, Node):
            return NotImplemented
        return (self.expr == other.expr and self.full_text == other.full_text and self.start == other.start
                and self.end == other.end and self.children == other.children)

class RegexNode(Node):
    pass

class Expression:
    def parse(self, text, pos=0):
        return _parse(self, text, pos, True)
    def match(self, text, pos=0):
        return _parse(self, text, pos, False)

class Literal(Expression): pass
class Regex(Expression): pass
class Compound(Expression): pass
class Sequence(Compound): pass
class OneOf(Compound): pass
class Lookahead(Compound): pass
class Quantifier(Compound): pass

class Grammar:
    def __init__(self, rules="", **more_rules):
        if more_rules:
            _unsupported("custom grammar rules")
        self.rules, self.default_rule = _compile(rules)
    def default(self, rule_name):
        g = Grammar.__new__(Grammar)
        g.rules = self.rules
        g.default_rule = self.rules[rule_name]
        return g
    def parse(self, text, pos=0):
        return self.default_rule.parse(text, pos=pos)
    def match(self, text, pos=0):
        return self.default_rule.match(text, pos=pos)
    def __getitem__(self, name):
        return self.rules[name]
    def __contains__(self, name):
        return name in self.rules
    def keys(self):
        return self.rules.keys()
    def items(self):
        return self.rules.items()
    def values(self):
        return self.rules.values()

class NodeVisitor:
    grammar = None
    unwrapped_exceptions = ()
    def visit(self, node):
        method = getattr(self, 'visit_' + node.expr_name, self.generic_visit)
        try:
            return method(node, [self.visit(n) for n in node])
        except (VisitationError, UndefinedLabel):
            raise
        except Exception as exc:
            if isinstance(exc, self.unwrapped_exceptions):
                raise
            raise VisitationError(exc, type(exc), node) from exc
    def generic_visit(self, node, visited_children):
        raise NotImplementedError("no visitor method")
    def parse(self, text, pos=0):
        return self._parse_or_match(text, pos, 'parse')
    def match(self, text, pos=0):
        return self._parse_or_match(text, pos, 'match')
    def lift_child(self, node, children):
        first_child, = children
        return first_child
    def _parse_or_match(self, text, pos, method_name):
        if not self.grammar:
            raise RuntimeError("no grammar")
        return self.visit(getattr(self.grammar, method_name)(text, pos=pos))
'''

TOK = re.compile(r'''
  (?P<ws>(?:\s|\#[^\r\n]*)+)
 |(?P<regex>~\s*[rub]*(?:"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')[ilmsuxta]*)
 |(?P<lit>[rub]*(?:"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'))
 |(?P<label>[a-zA-Z_]\w*)
 |(?P<quant>[?*+]|\{\s*\d*\s*(?:,\s*\d*\s*)?\})
 |(?P<punct>[=/()&!])
''', re.X | re.S | re.I)


class PE:
    """A parsing expression."""
    n = 0

    def __init__(self, kind, **k):
        PE.n += 1
        self.id = PE.n
        self.kind = kind
        self.name = ""
        self.members = []
        self.obj = None
        self.__dict__.update(k)


def tokens(text):
    out, i = [], 0
    nl = True
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise ValueError(f"grammar text at {i}: {text[i:i + 20]!r}")
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
        i = m.end()
    return out


def compile_grammar(text):
    """-> (rules dict name -> PE (resolved), first rule)"""
    import ast
    t = tokens(text)
    pos = [0]

    def peek(k=0):
        return t[pos[0] + k] if pos[0] + k < len(t) else (None, None)

    def oneof():
        alts = [seq()]
        while peek() == ("punct", "/"):
            pos[0] += 1
            alts.append(seq())
        return alts[0] if len(alts) == 1 else PE("OneOf", members=alts)

    def seq():
        xs = []
        while True:
            k, v = peek()
            if k is None or (k == "punct" and v in "/)="):
                break
            if k == "label" and peek(1) == ("punct", "="):
                break
            xs.append(term())
        if not xs:
            raise ValueError("empty sequence")
        return xs[0] if len(xs) == 1 else PE("Sequence", members=xs)

    def term():
        k, v = peek()
        if k == "punct" and v in "&!":
            pos[0] += 1
            return PE("Lookahead", members=[term()], negativity=v == "!")
        a = atom()
        if peek()[0] == "quant":
            q = peek()[1]
            pos[0] += 1
            if q == "?":
                lo, hi = 0, 1
            elif q == "*":
                lo, hi = 0, float("inf")
            elif q == "+":
                lo, hi = 1, float("inf")
            else:
                b = q.strip("{} ")
                if "," in b:
                    x, y = b.split(",")
                    lo, hi = int(x) if x.strip() else 0, int(y) if y.strip() else float("inf")
                else:
                    lo = hi = int(b)
            return PE("Quantifier", members=[a], min=lo, max=hi)
        return a

    def atom():
        k, v = peek()
        pos[0] += 1
        if k == "lit":
            return PE("Literal", literal=ast.literal_eval(v))
        if k == "regex":
            v = v[1:].strip()
            m = re.match(r"""(?s)([rub]*)("(?:.*)"|'(?:.*)')([a-z]*)$""", v, re.I)
            body = m.group(2)
            s = ast.literal_eval("r" + body)
            fl = 0
            for c in m.group(3).lower():
                fl |= {"i": re.I, "l": 0, "m": re.M, "s": re.S, "u": re.U, "x": re.X, "t": 0, "a": re.A}[c]
            return PE("Regex", pattern=s, flags=fl, re=re.compile(s, fl))
        if k == "label":
            return PE("Ref", target=v)
        if (k, v) == ("punct", "("):
            e = oneof()
            if peek() != ("punct", ")"):
                raise ValueError("unbalanced parenthesis in grammar")
            pos[0] += 1
            return e
        raise ValueError(f"unexpected {v!r} in grammar")

    rules, first = {}, None
    while pos[0] < len(t):
        k, v = peek()
        if k != "label" or peek(1) != ("punct", "="):
            raise ValueError(f"rule expected at {v!r}")
        pos[0] += 2
        e = oneof()
        if e.kind != "Ref":
            e.name = v
        rules[v] = e
        first = first or v

    def deref(e, seen=()):
        while e.kind == "Ref":
            if e.target in seen or e.target not in rules:
                raise KeyError(e.target)
            seen += (e.target,)
            e = rules[e.target]
        return e

    done = set()

    def resolve(e):
        e = deref(e)
        if e.id not in done:
            done.add(e.id)
            e.members = [resolve(m) for m in e.members]
        return e
    rules = {n: resolve(e) for n, e in rules.items()}
    return rules, rules[first] if first else None


class Err:
    __slots__ = ("pos", "expr")

    def __init__(self):
        self.pos, self.expr = -1, None


class LeftRec(Exception):
    pass


BUSY = object()


def match(e, text, pos, cache, err):
    key = (e.id, pos)
    if key in cache:
        node = cache[key]
    else:
        cache[key] = BUSY
        node = cache[key] = match1(e, text, pos, cache, err)
    if node is BUSY:
        raise LeftRec()
    if node is None and pos >= err.pos and (e.name or err.expr is None or not err.expr.name):
        err.pos, err.expr = pos, e
    return node


def match1(e, text, pos, cache, err):
    k = e.kind
    if k == "Literal":
        return (e, pos, pos + len(e.literal), ()) if text.startswith(e.literal, pos) else None
    if k == "Regex":
        m = e.re.match(text, pos)
        return (e, pos, m.end(), ()) if m else None
    if k == "Sequence":
        p, ch = pos, []
        for m in e.members:
            n = match(m, text, p, cache, err)
            if n is None:
                return None
            ch.append(n)
            p = n[2]
        return (e, pos, p, tuple(ch))
    if k == "OneOf":
        for m in e.members:
            n = match(m, text, pos, cache, err)
            if n is not None:
                return (e, pos, n[2], (n,))
        return None
    if k == "Lookahead":
        n = match(e.members[0], text, pos, cache, err)
        return (e, pos, pos, ()) if (n is None) == e.negativity else None
    if k == "Quantifier":
        p, ch = pos, []
        while p < len(text) and len(ch) < e.max:
            n = match(e.members[0], text, p, cache, err)
            if n is None:
                break
            ch.append(n)
            if n[2] == p and len(ch) >= e.min:
                break
            p = n[2]
        if len(ch) >= e.min:
            return (e, pos, p, tuple(ch))
        return None
    raise AssertionError(k)


def module(I):
    ns = {}

    def compile_(I, a, k):
        if not isinstance(a[0], str):
            raise Imprecise("grammar text is not a constant")
        try:
            rules, first = compile_grammar(a[0])
        except ValueError as e:
            I.throw(ns["ParseError"], str(e))
        except KeyError as e:
            I.throw(ns["UndefinedLabel"], e.args[0])
        d = ADict()
        seen = {}

        def obj(e):
            if e.id in seen:
                return seen[e.id]
            o = e.obj = seen[e.id] = AObj(ns[e.kind], {"name": e.name}, native=None)
            o.attrs["$pe"] = e
            if e.kind in ("Sequence", "OneOf", "Lookahead", "Quantifier"):
                o.attrs["members"] = tuple(obj(m) for m in e.members)
            if e.kind == "Quantifier":
                o.attrs["min"], o.attrs["max"] = e.min, e.max
            if e.kind == "Literal":
                o.attrs["literal"] = e.literal
            if e.kind == "Lookahead":
                o.attrs["negativity"] = e.negativity
            return o
        for n, e in rules.items():
            I.dset(d, n, obj(e))
        I.peg_grammars = getattr(I, "peg_grammars", [])
        I.peg_grammars.append((rules, first))
        return (d, first.obj if first else None)

    def parse(I, a, k):
        eo, text, pos, full = a
        if isinstance(text, AObj) and isinstance(text.native, str):
            text = text.native
        if not isinstance(text, str) or not isinstance(pos, int):
            raise Imprecise("parse of text that is not a constant")
        e = eo.attrs["$pe"]
        err = Err()
        try:
            n = match(e, text, pos, {}, err)
        except LeftRec:
            I.throw_obj(I.call(ns["LeftRecursionError"], [text, -1, eo], {}))
        if n is None:
            I.throw_obj(I.call(ns["ParseError"], [text, err.pos, err.expr.obj if err.expr else None], {}))
        if full and n[2] < len(text):
            I.throw_obj(I.call(ns["IncompleteParseError"], [text, n[2], eo], {}))

        def mk(n):
            e, s, t, ch = n
            return AObj(ns["RegexNode" if e.kind == "Regex" else "Node"],
                        {"expr": e.obj, "full_text": text, "start": s, "end": t, "children": AList([mk(c) for c in ch])})
        return mk(n)

    def unsupported(I, a, k):
        raise Imprecise(f"unmodelled library feature: {a[0]}")
    m = I.run_source(SRC, "parsimonious", "<model parsimonious>", True,
                     {"_compile": Native("_compile", compile_), "_parse": Native("_parse", parse),
                      "_unsupported": Native("_unsupported", unsupported)})
    ns = m.ns
    sub = lambda n, names: AModule(f"parsimonious.{n}", {x: ns[x] for x in names})
    ns["nodes"] = sub("nodes", ["Node", "RegexNode", "NodeVisitor"])
    ns["expressions"] = sub("expressions", ["Expression", "Literal", "Regex", "Compound", "Sequence", "OneOf", "Lookahead", "Quantifier"])
    ns["exceptions"] = sub("exceptions", ["ParseError", "IncompleteParseError", "VisitationError", "BadGrammar", "UndefinedLabel", "LeftRecursionError"])
    ns["grammar_mod"] = sub("grammar", ["Grammar"])
    ns["grammar"] = ns["grammar_mod"]
    return m
