"""Scenarios, properties, known findings and facts harvested from the analysed source."""
import ast
import fnmatch
import os


class Scn:
    def __init__(self, name, fn, key=None, max_paths=4000, max_s=20.0, weight=1.0, direct=None, soft=()):
        self.name, self.fn, self.key, self.max_paths, self.max_s, self.weight = name, fn, key or name, max_paths, max_s, weight
        self.direct, self.soft = direct, soft

    def run(self, A, max_s):
        A.I.loop_cap = 64
        if self.direct is not None:
            return self.direct(A)
        return A.explore(self.fn, self.max_paths, max_s, self.soft)


class Prop:
    def __init__(self, id, title, build, rule, explanation, assumptions=(), quick_s=420, thorough_s=840):
        self.id, self.title, self.build, self.rule, self.explanation = id, title, build, rule, explanation
        self.assumptions = list(assumptions) or DEFAULT_ASSUMPTIONS
        self.quick_s, self.thorough_s = quick_s, thorough_s


DEFAULT_ASSUMPTIONS = [
    "the models of built-in types, the standard library, eth_utils and parsimonious used by the analyser are faithful",
    "inputs are drawn from the value classes of rules/values.py; byte lengths and integers are unbounded within them",
]


class Ctx:
    def __init__(self, A, root, tier):
        self.A, self.root, self.tier = A, root, tier
        self.thorough = tier == "thorough"
        self.consts, strs = harvest(root)
        from . import values
        values.EXTRA_TEXT[:] = [x for t in strs if isinstance(t, str) for x in values.seeded_text(t)]
        values.EXTRA_BYTES[:] = [x for t in strs if isinstance(t, bytes) for x in (t, b"a" + t, t + b"a", t + t)]

    def counts(self, cap=300, base=(0, 1, 2, 3), newcap=0):
        """element counts worth trying: small ones and those around integer constants of the source
        (up to newcap for constants the source did not always have)"""
        out = set(base)
        for c in self.consts:
            if 3 < c <= (cap if c in USUAL else max(cap, newcap)):
                out |= {c - 1, c, c + 1}
        return sorted(out)

    def wide(self, cap=1100, usual=33):
        """numbers of components worth trying in one tuple, argument list or static array: around every constant of
        the source, also where the constant is a number of bytes"""
        out = set()
        for c in self.consts:
            if c in USUAL:
                if 3 < c <= usual:
                    out |= {c - 1, c, c + 1}
            elif c > 3:
                out |= {c - 1, c, c + 1} | ({c // 32 - 1, c // 32, c // 32 + 1, c // 32 + 2} if c >= 64 else set())
        return sorted(n for n in out if 3 < n <= cap)

    def sizes(self, lo=3):
        """numbers of any magnitude around the constants of the source (for sizes written in type strings)"""
        return sorted({n for c in self.consts for n in (c - 1, c, c + 1) if n > lo})

    def depths(self, lo=4, hi=10, cap=40):
        """nesting depths worth trying (an array opens two frames per level)"""
        out = set(range(lo, hi))
        for c in self.consts:
            if 3 < c <= cap:
                out |= {c // 2, c // 2 + 1, c, c + 1}
        return sorted(k for k in out if k >= lo)


# integer constants that occur in the source for reasons unrelated to element counts
USUAL = {0, 1, 2, 3, 5, 8, 10, 20, 32, 79, 80, 255, 256, 999, 4096}


# literals that occur in the source for reasons unrelated to contents
USUAL_TEXT = {"", " ", "(", ")", "()", "'", ",", ", ", ".", "...", ":", ": ", "<", ">", "|", "x", "[", "]", "].", ")\\b", "\\b(", "utf-8", "utf8", "big"}


def harvest(root):
    """integer constants, and short text and byte literals that look like contents rather than words or messages"""
    out, strs = set(), set()
    for d, ds, fs in os.walk(os.path.join(root, "eth_abi")):
        for f in fs:
            if f.endswith(".py"):
                try:
                    t = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                except (SyntaxError, OSError):
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.BinOp):
                        v = fold(n)
                        if v is not None and v not in (160,):
                            out.add(v)
                    if isinstance(n, ast.Constant):
                        v = n.value
                        if isinstance(v, int) and not isinstance(v, bool):
                            out.add(v)
                        elif isinstance(v, bytes) and 0 < len(v) <= 40 and v not in (b"\x00", b"\x01", b"\xff"):
                            strs.add(v)
                        elif isinstance(v, str) and len(v) <= 12 and v not in USUAL_TEXT and not any(c.isalnum() and c.isascii() for c in v) and " " not in v.strip(" ") and not _surr(v):
                            strs.add(v)
    return sorted(out), sorted(strs, key=repr)[:24]


def fold(n):
    """the value of a constant integer expression such as 2**16 or 32 * 40"""
    if isinstance(n, ast.Constant):
        return n.value if isinstance(n.value, int) and not isinstance(n.value, bool) else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = fold(n.operand)
        return None if v is None else -v
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if a is None or b is None:
            return None
        o = type(n.op)
        try:
            if o in (ast.Pow, ast.LShift):
                return (a ** b if o is ast.Pow else a << b) if 0 <= b <= 300 and abs(a) <= 300 else None
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b}.get(o, lambda: None)()
        except (ZeroDivisionError, ValueError):
            return None
    return None


def _surr(v):
    return any(0xD800 <= ord(c) < 0xE000 for c in v)


class Known:
    def __init__(self, key, what):
        self.key, self.what = key, what

    def matches(self, k):
        return fnmatch.fnmatchcase(k, self.key)


def load_known(path):
    """lines: `known: property=<id> key=<pattern> <what>`; `fixed:` lines suppress nothing"""
    out = {}
    try:
        lines = open(path).read().splitlines()
    except OSError:
        return out
    for l in lines:
        if l.startswith("known: "):
            p = l.split(None, 3)
            out.setdefault(p[1].split("=", 1)[1], []).append(Known(p[2].split("=", 1)[1], p[3]))
    return out
