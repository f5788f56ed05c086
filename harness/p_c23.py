"""C23: identity, sharing and copies, against a model of the object graph."""
import re
from core import PRELUDE, Case
from rb import Sym, ins_str

PRE = PRELUDE + r"""
class P
  attr_accessor :x, :y
  def initialize(x = nil, y = nil)
    @x = x
    @y = y
  end
  def inspect
    "P(#{@x.inspect},#{@y.inspect})"
  end
  def xs
    [@x, @y]
  end
end
class Q < P
  attr_accessor :z
  def inspect
    "Q(#{@x.inspect},#{@y.inspect},#{@z.inspect})"
  end
end
class E < P
  def ==(o)
    o.is_a?(E) && @x == o.x
  end
  def inspect
    "E(#{@x.inspect},#{@y.inspect})"
  end
end
S = Struct.new(:a, :b) do
  def inspect
    "S(#{a.inspect},#{b.inspect})"
  end
end
class T < Struct.new(:a, :b)
  def inspect
    "T(#{a.inspect},#{b.inspect})"
  end
end
class MA < Array
  attr_accessor :m
end
class MH < Hash
  attr_accessor :m
end
class MS < String
  attr_accessor :m
end
module X1
  def x1
    :x1
  end
end
module X2
  def x2
    :x2
  end
end
def same(x)
  x
end
def opt(x, y = x)
  y
end
def rest(*a)
  a
end
def kw(**k)
  k
end
def blk(x)
  yield x
end
def sing(o, n)
  o.respond_to?(n) ? o.send(n) : nil
end
"""


class N:
    """A heap object."""
    __slots__ = ("kind", "cls", "d", "iv", "sing", "ext")

    def __init__(self, kind, cls, d, iv=None, sing=None, ext=()):
        self.kind, self.cls, self.d = kind, cls, d
        self.iv = iv or {}
        self.sing = sing or {}
        self.ext = tuple(ext)

    def kids(self):
        if self.kind == "arr":
            k = list(self.d)
        elif self.kind == "hash":
            k = [v for _, v in self.d.values()]
        elif self.kind == "struct":
            k = list(self.d)
        else:
            k = []
        return k + list(self.iv.values())

    def copy(self, clone):
        d = self.d
        d = list(d) if isinstance(d, list) else dict(d) if isinstance(d, dict) else d
        return N(self.kind, self.cls, d, dict(self.iv), dict(self.sing) if clone else {}, self.ext if clone else ())


def arr(l):
    return N("arr", "Array", list(l))


def st(s):
    return N("str", "String", s)


def reaches(a, b):
    """b is a or reachable from a"""
    seen = set()
    todo = [a]
    while todo:
        x = todo.pop()
        if x is b:
            return True
        if isinstance(x, N) and id(x) not in seen:
            seen.add(id(x))
            todo += x.kids()
    return False


def size(x, depth=0):
    if not isinstance(x, N):
        return 1
    if depth > 8:
        return 1000
    return 1 + sum(size(k, depth + 1) for k in x.kids())


def ins(x):
    if x is None:
        return "nil"
    if x is True:
        return "true"
    if x is False:
        return "false"
    if isinstance(x, Sym):
        return ":" + x
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return ins_str(x)
    if isinstance(x, tuple):
        return "%s%s%s" % (ins(x[1]), "..." if x[3] else "..", ins(x[2]))
    if x.kind == "str":
        return ins_str(x.d)
    if x.kind == "arr":
        return "[" + ", ".join(ins(e) for e in x.d) + "]"
    if x.kind == "hash":
        return "{" + ", ".join(hk(k) + "=>" + ins(v) for k, v in x.d.values()) + "}"
    if x.kind == "struct":
        return "%s(%s,%s)" % (x.cls, ins(x.d[0]), ins(x.d[1]))
    if x.cls == "Q":
        return "Q(%s,%s,%s)" % tuple(ins(x.iv.get(k)) for k in ("x", "y", "z"))
    return "%s(%s,%s)" % (x.cls, ins(x.iv.get("x")), ins(x.iv.get("y")))


def hk(k):
    return ins(k)


def lit(k):
    return ins(k)


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


class Unk(Exception):
    """the model does not say"""


def eq(a, b):
    if a is b:
        return True
    if not isinstance(a, N) or not isinstance(b, N):
        if isinstance(a, N) and a.cls == "E" or isinstance(b, N):
            return False
        return eqi(a, b)
    if a.kind == "obj":
        if a.cls == "E":
            return b.cls == "E" and eq(a.iv.get("x"), b.iv.get("x"))
        return False
    if a.kind != b.kind:
        return False
    if a.kind == "str":
        return a.d == b.d
    if a.kind == "arr":
        return len(a.d) == len(b.d) and all(eq(p, q) for p, q in zip(a.d, b.d))
    if a.kind == "hash":
        if set(a.d) != set(b.d):
            return False
        for k in a.d:
            p, q = a.d[k][1], b.d[k][1]
            if not eq(p, q):
                return False
        return True
    raise Unk     # structs


def has_obj(x):
    return isinstance(x, N) and (x.kind in ("obj", "struct") or any(has_obj(k) for k in x.kids()))


def eqi(a, b):
    if num(a) and num(b):
        return a == b
    return type(a) is type(b) and a == b


def eql(a, b):
    if a is b:
        return True
    if not isinstance(a, N) or not isinstance(b, N):
        if isinstance(a, N) or isinstance(b, N):
            return False
        return type(a) is type(b) and a == b
    if a.kind != b.kind:
        return False
    if a.kind in ("obj", "struct"):
        return False
    if a.kind == "str":
        return a.d == b.d
    if a.kind == "arr":
        return len(a.d) == len(b.d) and all(eql(p, q) for p, q in zip(a.d, b.d))
    return set(a.d) == set(b.d) and all(eql(a.d[k][1], b.d[k][1]) for k in a.d)


def equal(a, b):
    if isinstance(a, N) or isinstance(b, N):
        return a is b
    if isinstance(a, tuple):
        raise Unk
    if isinstance(a, int) and not isinstance(a, bool) and not -2 ** 62 <= a < 2 ** 62:
        raise Unk
    if isinstance(a, float):
        raise Unk
    return type(a) is type(b) and a == b


class Prog:
    def __init__(self, r):
        self.r = r
        self.src, self.out = [], []
        self.vars = {}
        self.names = ["a", "b", "c", "d", "$g", "@i", "e", "f"]
        self.tags = set()
        self.n = 0

    # -- values
    def imm(self):
        r = self.r
        return r.choice((None, True, False, r.randint(-9, 9), r.randint(0, 3), Sym(r.choice("pqr")), 1.5, 2.0, 2 ** 70,
                         ("r", r.randint(0, 3), r.randint(2, 5), r.random() < .5)))

    def key(self):
        r = self.r
        return r.choice((r.randint(0, 4), Sym(r.choice("pqr")), r.choice("xyz"), None, 1.0))

    def value(self, depth=2):
        """-> (source, model)"""
        r = self.r
        k = r.random()
        if self.vars and k < 0.45:
            s, m, _ = self.path()
            return s, m
        if k < 0.6 or depth == 0:
            v = self.imm()
            if isinstance(v, tuple):
                return "(%s)" % ins(v), v
            return ins(v), v
        return self.new(depth)

    def new(self, depth=2):
        r = self.r
        k = r.random()
        if k < 0.25:
            s = r.choice(("", "ab", "hello", "héλ", "a" * 30))
            if r.random() < 0.2:
                return "MS.new(%s)" % ins_str(s), N("str", "MS", s)
            return ins_str(s), st(s)
        if k < 0.55:
            es = [self.value(depth - 1) for _ in range(r.choice((0, 1, 2, 2, 3, 5)))]
            if r.random() < 0.12:
                return "(MA.new << 1)", N("arr", "MA", [1])
            return "[%s]" % ", ".join(e[0] for e in es), arr(e[1] for e in es)
        if k < 0.75:
            d, ss = {}, []
            for _ in range(r.randint(0, 3)):
                kk = self.key()
                if (type(kk), kk) in d:
                    continue
                s, m = self.value(depth - 1)
                d[(type(kk), kk)] = (kk, m)
                ss.append("%s => %s" % (lit(kk), s))
            if r.random() < 0.12:
                return "MH.new", N("hash", "MH", {})
            return ("{%s}" % ", ".join(ss)), N("hash", "Hash", d)
        if k < 0.88:
            c = r.choice("PQE")
            a, b = self.value(depth - 1), self.value(depth - 1)
            return "%s.new(%s, %s)" % (c, a[0], b[0]), N("obj", c, None, {"x": a[1], "y": b[1]})
        c = r.choice("ST")
        if r.random() < 0.3:
            a = self.value(depth - 1)
            return "%s.new(%s)" % (c, a[0]), N("struct", c, [a[1], None])
        a, b = self.value(depth - 1), self.value(depth - 1)
        return "%s%s" % (c, r.choice(("[%s, %s]", ".new(%s, %s)")) % (a[0], b[0])), N("struct", c, [a[1], b[1]])

    # -- places
    def path(self, want=None, tries=12):
        """-> (source, model, store or None) of something reachable"""
        r = self.r
        for _ in range(tries):
            n = r.choice(sorted(self.vars))
            s, m = n, self.vars[n]
            d = 0
            while isinstance(m, N) and r.random() < 0.5 and d < 4:
                nx = self.step(s, m)
                if nx is None:
                    break
                s, m = nx
                d += 1
            if want is None or (isinstance(m, N) and (m.kind in want)):
                return s, m, None
        return None

    def step(self, s, m):
        r = self.r
        o = []
        if m.kind == "arr" and m.d:
            i = r.randrange(len(m.d))
            o.append((r.choice(("%s[%d]" % (s, i), "%s[%d]" % (s, i - len(m.d)), "%s.at(%d)" % (s, i))), m.d[i]))
            o.append((s + ".first", m.d[0]))
            o.append((s + ".last", m.d[-1]))
        elif m.kind == "hash" and m.d:
            k, v = r.choice(list(m.d.values()))
            o.append(("%s[%s]" % (s, lit(k)), v))
            o.append(("%s.fetch(%s)" % (s, lit(k)), v))
        elif m.kind == "obj":
            k = r.choice("xy" + ("z" if m.cls == "Q" else ""))
            o.append(("%s.%s" % (s, k), m.iv.get(k)))
            o.append(("%s.instance_variable_get(:@%s)" % (s, k), m.iv.get(k)))
        elif m.kind == "struct":
            i = r.randrange(2)
            o.append(("%s.%s" % (s, "ab"[i]), m.d[i]))
        if m.cls in ("MA", "MH", "MS"):
            o.append((s + ".m", m.iv.get("m")))
        return r.choice(o) if o else None

    # -- sharing
    def through(self, s):
        """an expression that yields the same object"""
        r = self.r
        k = r.randint(0, 13)
        if k == 0:
            return "same(%s)" % s
        if k == 1:
            return "opt(%s)" % s
        if k == 2:
            return "rest(1, %s)[1]" % s
        if k == 3:
            return "kw(k: %s)[:k]" % s
        if k == 4:
            return "blk(%s) { |w| w }" % s
        if k == 5:
            return "[%s].first" % s
        if k == 6:
            return "{1 => %s}[1]" % s
        if k == 7:
            return "lambda { |w| w }.call(%s)" % s
        if k == 8:
            return "[%s].map { |w| w }[0]" % s
        if k == 9:
            return "(true && %s)" % s
        if k == 10:
            return "P.new(%s).xs[0]" % s
        if k == 11:
            return "(false || %s)" % s
        if k == 12:
            return "[1, %s].dup.last" % s
        return "(if true then %s else 1 end)" % s

    def set(self, n, src, m):
        self.src.append("%s = %s" % (n, src))
        self.vars[n] = m

    def emit(self, src, expect):
        self.src.append("v(%s)" % src)
        self.out.append("=" + expect)

    # -- copies
    def copy(self):
        r = self.r
        p = self.path(("arr", "str", "hash", "obj", "struct"))
        if p is None:
            return None
        s, m, _ = p
        k = r.random()
        if m.kind in ("obj", "struct") or k < 0.3:
            cl = r.random() < 0.5
            self.tags.add("clone" if cl else "dup")
            if r.random() < 0.2:
                return ("%s.send(:%s)" % (s, "clone" if cl else "dup")), m.copy(cl)
            return "%s.%s" % (s, "clone" if cl else "dup"), m.copy(cl)
        self.tags.add("copy " + m.kind)
        if m.kind == "arr":
            d = m.d
            n = len(d)
            i, j = sorted((r.randint(0, n), r.randint(0, n)))
            o = [("%s + []" % s, d), ("[] + %s" % s, d), ("%s[0..-1]" % s, d), ("%s[%d, %d]" % (s, i, j - i), d[i:j]),
                 ("%s[%d...%d]" % (s, i, j), d[i:j]), ("%s.map { |w| w }" % s, d),
                 ("%s.select { |w| true }" % s, d), ("%s.reject { |w| false }" % s, d), ("%s.reverse" % s, d[::-1]),
                 ("[*%s]" % s, d), ("[*%s, 1]" % s, d + [1]), ("%s.compact" % s, [x for x in d if x is not None]),
                 ("rest(*%s)" % s, d), ("rest(*%s, 2)" % s, d + [2]), ("%s.drop(%d)" % (s, i), d[i:]), ("%s.partition { |w| true }[0]" % s, d),
                 ("lambda { |*w| w }.call(*%s)" % s, d), ("%s.filter { |w| true }" % s, d), ("%s.zip(%s).map { |w| w[1] }" % (s, s), d), 
                 ]
            if m.cls == "Array":
                o += [("%s * 1" % s, d), ("%s * 2" % s, d * 2)]
            e, l = r.choice(o)
            return "(%s)" % e, arr(l)
        if m.kind == "str":
            d = m.d
            n = len(d)
            i, j = sorted((r.randint(0, n), r.randint(0, n)))
            o = [("%s + ''" % s, d), ("'' + %s" % s, d), ('"#{%s}"' % s, d), ("%s[0..-1]" % s, d), ("%s[%d, %d]" % (s, i, j - i), d[i:j]), ("%s * 1" % s, d),
                 ("String.new(%s)" % s, d), ("%s.to_sym.to_s" % s, d), ("%s.sub(/zzz/, '')" % s, d), ("%s.gsub('q', 'q')" % s, d),
                 ("%s.tr('q', 'q')" % s, d), ("%s.chars.join" % s, d), ("%s.ljust(1)" % s, d if d else " ")]
            e, l = r.choice(o)
            return "(%s)" % e, st(l)
        d = dict(m.d)
        o = [("%s.merge({})" % s, d), ("%s.select { |w, x| true }" % s, d), ("%s.reject { |w, x| false }" % s, d), ("{}.merge(%s)" % s, d)]
        if d and all(isinstance(k, Sym) for k, _ in d.values()):
            o += [("kw(**%s)" % s, d)] * 3
        k = r.random()
        if k < 0.2:
            return "%s.values" % s, arr(x[1] for x in d.values())
        e, l = r.choice(o)
        return e, N("hash", "Hash", dict(l))

    # -- mutations: -> (statement with %s for the receiver, model action, returns self?)
    def mutation(self, m):
        r = self.r

        def val():
            for _ in range(5):
                s, x = self.value(1)
                if not reaches(x, m) and size(x) < 25:
                    return s, x
            return "7", 7
        if m.cls in ("MA", "MH", "MS") and r.random() < 0.2:
            s, x = val()
            return "%%s.m = %s" % s, lambda: m.iv.__setitem__("m", x), False
        if m.kind == "arr":
            d = m.d
            n = len(d)
            k = r.randint(0, 13)
            if k <= 2 or n == 0:
                s, x = val()
                return r.choice(("%%s << %s", "%%s.push(%s)")) % s, lambda: d.append(x), True
            i = r.randrange(n)
            if k == 3:
                s, x = val()
                return "%%s[%d] = %s" % (r.choice((i, i - n)), s), lambda: d.__setitem__(i, x), False
            if k == 4:
                return "%s.pop", lambda: d.pop(), False
            if k == 5:
                return "%s.shift", lambda: d.pop(0), False
            if k == 6:
                s, x = val()
                return "%%s.unshift(%s)" % s, lambda: d.insert(0, x), True
            if k == 7:
                return "%s.reverse!", lambda: d.reverse(), True
            if k == 8:
                s, x = val()
                return "%%s.concat([%s, 3])" % s, lambda: d.extend([x, 3]), True
            if k == 9:
                return "%s.map! { |w| w }", lambda: None, True
            if k == 10 and r.random() < 0.4:
                return "%s.clear", lambda: d.clear(), True
            if k == 11:
                s, x = val()
                j = r.randint(i, n)

                def f():
                    d[i:j] = [x]
                return "%%s[%d, %d] = [%s]" % (i, j - i, s), f, False
            if k == 12:
                s, x = val()

                def f():
                    d[:] = [x] * n
                return "%%s.fill(%s)" % s, f, True
            s, x = val()

            def f():
                if n + 1 >= 0:
                    d.append(None)
                    d.append(x)
            return "%%s[%d] = %s" % (n + 1, s), f, False
        if m.kind == "str":
            k = r.randint(0, 5)
            if k <= 2 or not m.d:
                t = r.choice(("x", "é", "long text 0123456789012345"))

                def f():
                    m.d += t
                return r.choice(("%%s << %s", "%%s.concat(%s)")) % ins_str(t), f, True
            if k == 3:
                t = r.choice(("x", "", "ÄÖ"))
                i = r.randrange(len(m.d))

                def f():
                    m.d = m.d[:i] + t + m.d[i + 1:]
                return "%%s[%d, 1] = %s" % (i, ins_str(t)), f, False
            if k == 4:
                def f():
                    m.d = "rep"
                return "%s.replace('rep')", f, True

            def f():
                m.d = m.d.replace("a", "bb")
            return "%s.gsub!('a', 'bb')", f, False
        if m.kind == "hash":
            d = m.d
            if r.random() < 0.6 or not d:
                k = self.key()
                s, x = val()

                def f():
                    kk = (type(k), k)
                    d[kk] = (d[kk][0] if kk in d else k, x)
                return "%%s[%s] = %s" % (lit(k), s), f, False
            if r.random() < 0.8:
                k = r.choice(list(d))
                return "%%s.delete(%s)" % lit(d[k][0]), lambda: d.pop(k), False
            return "%s.clear", lambda: d.clear(), True
        s, x = val()
        if m.kind == "obj":
            k = r.choice("xy" + ("z" if m.cls == "Q" else ""))
            return r.choice(("%%s.%s = %s" % (k, s), "%%s.instance_variable_set(:@%s, %s)" % (k, s))), lambda: m.iv.__setitem__(k, x), False
        i = r.randrange(2)
        return "%%s.%s = %s" % ("ab"[i], s), lambda: m.d.__setitem__(i, x), False

    def do_mutation(self):
        r = self.r
        p = self.path(("arr", "str", "hash", "obj", "struct"))
        if p is None:
            return
        s, m, _ = p
        st_, act, selfp = self.mutation(m)
        k = r.random()
        self.tags.add("mutate " + m.kind)
        if selfp and k < 0.3:
            n = r.choice(self.names)
            src = "%s = (%s)" % (n, st_.replace("%s", s, 1))
            self.src.append(src)
            act()
            self.vars[n] = m
            return
        st2 = st_.replace("%s", s, 1)
        w = st_.replace("%s", "w", 1)
        if k < 0.45 and not re.search(r"\bw\b", st_):
            src = r.choice(("blk(%s) { |w| %s }", "[%s].each { |w| %s }", "lambda { |w| %s }.call(%s)", "1.times { w = %s; %s }"))
            src = src % ((w, s) if src.startswith("lambda") else (s, w))
        else:
            src = st2
        self.src.append(src)
        act()

    def singleton(self):
        r = self.r
        p = self.path(("arr", "str", "hash", "obj"))
        if p is None:
            return
        _, m, _ = p
        # `def` needs a variable
        vs = [n for n in sorted(self.vars) if isinstance(self.vars[n], N) and self.vars[n].kind != "struct" and n[0] not in "$@"]
        if not vs:
            return
        n = r.choice(vs)
        m = self.vars[n]
        self.tags.add("singleton")
        if r.random() < 0.3:
            x = r.choice(("x1", "x2"))
            self.src.append("%s.extend(%s)" % (n, x.upper()))
            if x not in m.ext:
                m.ext += (x,)
            return
        k = r.choice(("s1", "s2"))
        self.n += 1
        v = self.n
        self.src.append("def %s.%s\n  %d\nend" % (n, k, v))
        m.sing[k] = v

    def probe(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            for n in r.sample(sorted(self.vars), min(len(self.vars), 3)):
                self.emit(n, ins(self.vars[n]))
            return
        if k < 0.58:
            p = self.path(("arr", "str", "hash", "obj"))
            if p:
                s, m, _ = p
                q = r.choice(("s1", "s2", "x1", "x2"))
                e = m.sing.get(q) if q[0] == "s" else (Sym(q) if q in m.ext else None)
                self.emit("sing(%s, :%s)" % (s, q), ins(e))
            return
        if k < 0.63:
            p = self.path(("arr", "str", "hash", "obj", "struct"))
            if p:
                self.emit("%s.class" % p[0], p[1].cls)
            return
        s1, a, _ = self.path()
        if r.random() < 0.15:
            s2, b = self.value()
        else:
            s2, b, _ = self.path()
        if r.random() < 0.3:
            s1 = self.through(s1)
        o = r.randint(0, 9)
        try:
            if o == 0:
                self.emit("%s.equal?(%s)" % (s1, s2), ins(equal(a, b)))
            elif o == 1:
                self.emit("%s.object_id == %s.object_id" % (s1, s2), ins(equal(a, b)))
            elif o == 2:
                self.emit("%s == %s" % (s1, s2), ins(eq(a, b)))
            elif o == 3:
                self.emit("[%s == %s, %s == %s]" % (s1, s2, s2, s1), "[%s, %s]" % (ins(eq(a, b)), ins(eq(b, a))))
            elif o == 4:
                self.emit("%s != %s" % (s1, s2), ins(not eq(a, b)))
            elif o == 5:
                self.emit("%s.eql?(%s)" % (s1, s2), ins(eql(a, b)))
            elif o == 6:
                self.emit("{%s => 1}.has_key?(%s)" % (s1, s2), ins(eql(a, b)))
            elif o == 7:
                self.emit("[%s, %s].uniq.size" % (s1, s2), "1" if eql(a, b) else "2")
            elif o == 8:
                self.emit("{%s => 1}.compare_by_identity.has_key?(%s)" % (s1, s2), ins(equal(a, b) and not (isinstance(a, N) and a.kind == "str")))
            else:
                self.emit("[[%s], 1] == [[%s], 1]" % (s1, s2), ins(eq(a, b)))
            self.tags.add("equal" if a is b else "eq")
        except Unk:
            pass

    def step_(self):
        r = self.r
        k = r.random()
        n = r.choice(self.names)
        if not self.vars or k < 0.12:
            s, m = self.new()
            if size(m) < 40:
                self.set(n, s, m)
        elif k < 0.25:
            s, m, _ = self.path()
            self.set(n, self.through(s) if r.random() < 0.6 else s, m)
            self.tags.add("share")
        elif k < 0.5:
            c = self.copy()
            if c and size(c[1]) < 60:
                self.set(n, *c)
        elif k < 0.83:
            self.do_mutation()
        elif k < 0.9:
            self.singleton()
        else:
            # containers of something that exists
            s, m, _ = self.path()
            o = r.randint(0, 4)
            if size(m) > 30:
                return
            if o == 0:
                self.set(n, "[%s, %s]" % (s, s), arr([m, m]))
            elif o == 1:
                self.set(n, "Array.new(2, %s)" % s, arr([m, m]))
            elif o == 2:
                self.set(n, "[%s] * 3" % s, arr([m, m, m]))
            elif o == 3:
                self.set(n, "Array.new(2) { %s.dup }" % s, arr([m.copy(False) if isinstance(m, N) else m for _ in range(2)]))
            else:
                self.set(n, "P.new(%s, %s)" % (s, s), N("obj", "P", None, {"x": m, "y": m}))
        self.probe()


def gen(r):
    p = Prog(r)
    for n in ("a", "b"):
        s, m = p.new()
        p.set(n, s, m)
    for _ in range(r.choice((6, 12, 20, 30))):
        p.step_()
    for n in sorted(p.vars):
        p.emit(n, ins(p.vars[n]))
    live = [n for n in sorted(p.vars) if isinstance(p.vars[n], N)]
    if live:
        ids = {id(p.vars[n]) for n in live}
        p.emit("[%s].uniq.size" % ", ".join(n + ".object_id" for n in live), str(len(ids)))
    return p


def fresh(src, out, i):
    """locals must not leak from case to case"""
    return Case("def c23_%d\n%s\nend\nc23_%d" % (i, "\n".join(src), i), out, (), "raw")


CLS = r"""
%(c)s = Class.new(P) do
  X%(i)d = 1
end
"""


def classes(r, i):
    """Copies of classes and modules: their methods, constants, variables and mixins are their own."""
    names = []
    model = {}      # name -> (methods, consts, singleton, ivars, mixins, super)
    src, out = [], []
    n = 0

    def new(nm, sup=None):
        model[nm] = {"m": {}, "s": {}, "k": {}, "i": {}, "x": [], "sup": sup}
        names.append(nm)
    c = "C%dA" % i
    src.append("class %s\nend" % c)
    new(c)

    def find(nm, tab, key):
        while nm:
            if key in model[nm][tab]:
                return model[nm][tab][key]
            if tab == "m":
                for x in reversed(model[nm]["x"]):
                    if key == x:
                        return Sym(x)
            nm = model[nm]["sup"]
        return None
    for st_ in range(r.randint(5, 18)):
        k = r.random()
        nm = r.choice(names)
        n += 1
        if k < 0.2 and len(names) < 6:
            c = "C%d%s" % (i, "ABCDEFG"[len(names)])
            src.append("%s = %s.%s" % (c, nm, r.choice(("dup", "clone"))))
            o = model[nm]
            model[c] = {"m": dict(o["m"]), "s": dict(o["s"]), "k": dict(o["k"]), "i": dict(o["i"]), "x": list(o["x"]), "sup": o["sup"]}
            names.append(c)
        elif k < 0.28 and len(names) < 6:
            c = "C%d%s" % (i, "ABCDEFG"[len(names)])
            src.append("class %s < %s\nend" % (c, nm))
            new(c, nm)
        elif k < 0.5:
            m = r.choice(("f", "g"))
            src.append(r.choice(("class %s\n  def %s\n    %d\n  end\nend", "%s.class_eval do\n  def %s\n    %d\n  end\nend")) % (nm, m, n))
            model[nm]["m"][m] = n
        elif k < 0.6:
            m = r.choice(("sf", "sg"))
            src.append("def %s.%s\n  %d\nend" % (nm, m, n))
            model[nm]["s"][m] = n
        elif k < 0.7:
            m = r.choice(("KA", "KB"))
            if m in model[nm]["k"]:
                continue
            src.append("%s::%s = %d" % (nm, m, n))
            model[nm]["k"][m] = n
        elif k < 0.82:
            m = r.choice(("@u", "@w"))
            src.append("%s.instance_variable_set(:%s, %d)" % (nm, m, n))
            model[nm]["i"][m] = n
        else:
            x = r.choice(("x1", "x2"))
            if find(nm, "m", x) is None:
                src.append("%s.include(%s)" % (nm, x.upper()))
                model[nm]["x"].append(x)
        for q in r.sample(names, min(2, len(names))):
            o = r.randint(0, 3)
            if o == 0:
                m = r.choice(("f", "g", "x1", "x2"))
                e = find(q, "m", m)
                src.append("v(sing(%s.new, :%s))" % (q, m))
            elif o == 1:
                m = r.choice(("sf", "sg"))
                e = find(q, "s", m)
                src.append("v(sing(%s, :%s))" % (q, m))
            elif o == 2:
                m = r.choice(("KA", "KB"))
                e = find(q, "k", m)
                src.append("v((begin; %s::%s; rescue NameError; nil; end))" % (q, m))
            else:
                m = r.choice(("@u", "@w"))
                e = model[q]["i"].get(m)
                src.append("v(%s.instance_variable_get(:%s))" % (q, m))
            out.append("=" + ins(e))
    return Case("\n".join(src), out, ("classes",), "raw")


def ids(r, i):
    """Ids of live objects stay the same and differ, however much garbage there is."""
    n = r.randint(5, 60)
    kinds = ["Object.new", "'s'", "[]", "{}", "(1..2)", "P.new", "1.5e300", "2**80", "/x/", "lambda { }", "S[1, 2]", "Class.new", ":sym%d", "%d"]
    es = []
    for j in range(n):
        k = r.choice(kinds)
        es.append(k % j if "%d" in k else k)
    src = "l = []\n"
    for e in es:
        if r.random() < 0.3:
            src += "%d.times { |j| [j, j.to_s] }\n" % r.choice((1, 50, 2000))
        src += "l << (%s)\n" % e
    src += "a = l.map { |o| o.object_id }\n"
    src += "GC.start\n" if r.random() < 0.5 else "3000.times { |j| 'x' + j.to_s }\n"
    src += "b = l.map { |o| o.object_id }\nv(a == b)\n"
    # floats that do not fit a tagged value, symbols and integers of the same text are the same object or not: leave them out
    src += "c = l.reject { |o| o.is_a?(Float) }\nv(c.map { |o| o.object_id }.uniq.size == c.size)\n"
    src += "x = 0\nc.each { |o| c.each { |q| x += 1 if q.equal?(o) } }\nv(x == c.size)"
    return Case("def i23_%d\n%s\nend\ni23_%d" % (i, src, i), ["=true", "=true", "=true"], ("ids",), "raw")


POOL = ["nil", "true", "false", "0", "1", "-1", "1.0", "-1.0", "0.0", "2.5", "2**62", "2**64", "(2**64).to_f", "2.0**62", ":a", ":b", "'a'", "'b'", "''", "'a' * 30",
        "[]", "[1]", "[1.0]", "[[1], 'a']", "['a', :a]", "{}", "{1 => 2}", "{1.0 => 2}", "{1 => 2.0}", "{'a' => [1]}", "{:a => 'a'}", "(1..2)", "(1...2)",
        "(1..3)", "/a/", "/b/", "Object", "String", "P", "Kernel"]


def laws(r, i):
    """== symmetric and transitive, eql? implies ==, equal? implies eql?, over copies of builtin values."""
    ks = [r.choice(POOL) for _ in range(14)]
    src = "l = [%s]\n" % ", ".join(ks)
    src += r"""
bad = []
l.each_with_index do |a, i|
  l.each_with_index do |b, j|
    q = a == b
    bad << [:sym, a, b] if q != (b == a)
    bad << [:ne, a, b] if q == (a != b)
    e = a.eql?(b)
    bad << [:esym, a, b] if e != b.eql?(a)
    bad << [:eql, a, b] if e && !q
    bad << [:same, a, b] if a.equal?(b) && !e
    bad << [:key, a, b] if e != ({a => 1}.has_key?(b))
    bad << [:uniq, a, b] if ([a, b].uniq.size == 1) != e
    bad << [:nest, a, b] if ([a] == [b]) != q
    bad << [:neste, a, b] if [a].eql?([b]) != e
    bad << [:val, a, b] if ({1 => a} == {1 => b}) != q
    bad << [:incl, a, b] if [a].include?(b) != q
    bad << [:copy, a, b] if !a.is_a?(Module) && ((a.dup == b) != q || (a == b.clone) != q)
    l.each do |c|
      bad << [:trans, a, b, c] if q && b == c && a != c
    end
  end
end
v(bad)
"""
    return Case("def l23_%d\n%s\nend\nl23_%d" % (i, src, i), ["=[]"], ("laws",), "raw")


def check(chk):
    chk.rule = ("random programs that build graphs of strings, arrays, hashes, user objects, structs and instances of subclasses of builtin classes, share "
                "them through assignments, arguments, blocks, splats and containers, copy them in some sixty ways and mutate them; after every step "
                "printed values, identities, equalities and key equalities are compared with a model of the graph; histories of copied classes; "
                "uniqueness of object ids under garbage; laws of equality over builtin values; distinct by source text")
    chk.assumptions = ["no cyclic data; equality of Struct instances (not implemented) is not judged; user == of keys of hashes is not used"]
    r = chk.rng("graph")
    cases = []
    for i in range(chk.scale(9000, 120000)):
        p = gen(r)
        c = fresh(p.src, p.out, i)
        c.tags = tuple(sorted(p.tags))
        cases.append(c)
    cases += [classes(r, i) for i in range(chk.scale(1200, 16000))]
    cases += [ids(r, i) for i in range(chk.scale(150, 1500))]
    cases += [laws(r, i) for i in range(chk.scale(300, 3000))]
    chk.run(cases, size=60, prelude=PRE)
    cases = []
    for i in range(chk.scale(1500, 20000)):
        p = gen(r)
        c = fresh(p.src, p.out, i)
        c.tags = tuple(sorted(p.tags)) + ("forced collections",)
        cases.append(c)
    chk.run(cases, size=30, prelude=PRE, mon="gc=every:4,poison,stats")
