"""Ruby values in Python, and the text the interpreter prints for them."""
import math
import re


class Sym(str):
    __slots__ = ()

    def __repr__(self):
        return ":" + str(self)


class RStr:
    """A mutable Ruby string."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "RStr(%r)" % self.s


class RArr:
    """A mutable Ruby array with identity."""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


class Rng:
    __slots__ = ("b", "e", "x")

    def __init__(self, b, e, x=False):
        self.b, self.e, self.x = b, e, x


class Raw(str):
    """Text to be used as it is (inspect of an object known otherwise)."""
    __slots__ = ()


class RHash:
    """Insertion ordered map; keys by `eql`."""

    def __init__(self, pairs=(), identity=False):
        self.d = {}
        self.identity = identity
        for k, v in pairs:
            self[k] = v

    def kk(self, k):
        return ("id", id(k)) if self.identity and isinstance(k, (RStr, RArr, RHash, Rng)) else eqlkey(k)

    def __setitem__(self, k, v):
        kk = self.kk(k)
        if kk in self.d:
            self.d[kk] = (self.d[kk][0], v)
        else:
            self.d[kk] = (k, v)

    def get(self, k, default=None):
        e = self.d.get(self.kk(k))
        return default if e is None else e[1]

    def has(self, k):
        return self.kk(k) in self.d

    def delete(self, k):
        e = self.d.pop(self.kk(k), None)
        return None if e is None else e[1]

    def items(self):
        return list(self.d.values())

    def keys(self):
        return [k for k, _ in self.d.values()]

    def values(self):
        return [v for _, v in self.d.values()]

    def __len__(self):
        return len(self.d)

    def copy(self):
        h = RHash((), self.identity)
        h.d = dict(self.d)
        return h


def eqlkey(v):
    if v is None or v is True or v is False:
        return ("c", v)
    if isinstance(v, Sym):
        return ("y", str(v))
    if isinstance(v, str):
        return ("s", str(v))
    if isinstance(v, RStr):
        return ("s", v.s)
    if isinstance(v, int):
        return ("i", v)
    if isinstance(v, float):
        return ("f", v.hex())
    if isinstance(v, (list, tuple)):
        return ("a",) + tuple(eqlkey(x) for x in v)
    if isinstance(v, RArr):
        return ("a",) + tuple(eqlkey(x) for x in v.a)
    if isinstance(v, RHash):
        return ("h", frozenset((eqlkey(k), eqlkey(x)) for k, x in v.items()))
    if isinstance(v, Rng):
        return ("r", eqlkey(v.b), eqlkey(v.e), v.x)
    return ("o", id(v))


ESC = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\a": "\\a", "\b": "\\b", "\v": "\\v",
       "\f": "\\f", "\x1b": "\\e"}


def ins_str(s):
    out = []
    for i, c in enumerate(s):
        if c in ESC:
            out.append(ESC[c])
        elif c == "#" and s[i + 1:i + 2] in ("{", "$", "@"):
            out.append("\\#")
        elif ord(c) < 32:
            out.append("\\x%02X" % ord(c))
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


OPNAMES = {"+", "-", "*", "/", "%", "**", "==", "!=", "===", "=~", "!~", "<=>", "<", "<=", ">", ">=", "!", "~", "+@", "-@", "[]", "[]=",
           "<<", ">>", "&", "|", "^", "`"}


def sym(s):
    """Symbol#inspect"""
    s = str(s)
    return ":" + s if s in OPNAMES or re.fullmatch(r"(?:@@?|\$)?[^\W\d]\w*|[^\W\d]\w*[?!=]?", s, re.A) else ":" + ins_str(s)


def fl(x):
    """Float#to_s: the shortest digits that read back, in Ruby's notation."""
    if x != x:
        return "NaN"
    if math.isinf(x):
        return "Infinity" if x > 0 else "-Infinity"
    if x == 0:
        return "0.0"    # the interpreter has no negative zero
    m, e = ("%.16e" % x).split("e")
    for p in range(17):
        m, e = ("%.*e" % (p, x)).split("e")
        if float(m + "e" + e) == x:
            break
    e = int(e)
    neg, digits = m.startswith("-"), m.replace("-", "").replace(".", "").rstrip("0") or "0"
    if -4 <= e < 16:
        if e < 0:
            t = "0." + "0" * (-e - 1) + digits
        else:
            d = digits.ljust(e + 1, "0")
            t = d[:e + 1] + "." + (d[e + 1:] or "0")
    else:
        t = "%s.%se%s%02d" % (digits[0], digits[1:] or "0", "-" if e < 0 else "+", abs(e))
    return "-" + t if neg else t


def ins(v):
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, Sym):
        return sym(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return fl(v)
    if isinstance(v, str):
        return ins_str(v)
    if isinstance(v, RStr):
        return ins_str(v.s)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(ins(x) for x in v) + "]"
    if isinstance(v, RArr):
        return "[" + ", ".join(ins(x) for x in v.a) + "]"
    if isinstance(v, RHash):
        return "{" + ", ".join("%s=>%s" % (ins(k), ins(x)) for k, x in v.items()) + "}"
    if isinstance(v, Rng):
        return ins(v.b) + ("..." if v.x else "..") + ins(v.e)
    raise TypeError(repr(v))


def lit(v):
    """Source text of a value."""
    if isinstance(v, Sym):
        s = str(v)
        return ":" + s if s.replace("_", "a").isalnum() and not s[0].isdigit() and s.isascii() else ":" + slit(s)
    if isinstance(v, float):
        if v != v:
            return "(0.0/0.0)"
        if math.isinf(v):
            return "(1.0/0.0)" if v > 0 else "(-1.0/0.0)"
        r = repr(v)
        if v == 0 and math.copysign(1, v) < 0:
            return "(0.0 * -1)"
        if "e" in r and "." not in r:
            r = r.replace("e", ".0e")
        r = r.replace("e+", "e")
        return "(%s)" % r if v < 0 else r
    if isinstance(v, bool) or v is None:
        return ins(v)
    if isinstance(v, int):
        return "(%d)" % v if v < 0 else str(v)
    if isinstance(v, str):
        return slit(v)
    if isinstance(v, RStr):
        return slit(v.s)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    if isinstance(v, RArr):
        return "[" + ", ".join(lit(x) for x in v.a) + "]"
    if isinstance(v, RHash):
        return "{" + ", ".join("%s=>%s" % (lit(k), lit(x)) for k, x in v.items()) + "}"
    if isinstance(v, Rng):
        return "(%s%s%s)" % (lit(v.b), "..." if v.x else "..", lit(v.e))
    raise TypeError(repr(v))


def slit(s):
    out = []
    for c in s:
        if c in ESC:
            out.append(ESC[c])
        elif c == "#":
            out.append("\\#")
        elif ord(c) < 32:
            out.append("\\x%02x" % ord(c))
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


class RErr(Exception):
    """A Ruby exception in a model."""

    def __init__(self, cls):
        Exception.__init__(self, cls)
        self.cls = cls


def guarded(f):
    """-> '=inspect' or '!Class'"""
    try:
        return "=" + ins(f())
    except RErr as e:
        return "!" + e.cls
