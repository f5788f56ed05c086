"""C24: assignments and case/when against a model of the store, with every receiver, index and value traced."""
import re
from core import PRELUDE, Case
from rb import RStr, Rng, Sym, ins, lit

PRE = PRELUDE + r"""
def t(k, x)
  puts "t#{k}"
  x
end
class O
  def initialize(n)
    @n = n
    @a = {}
  end
  def ga(x)
    puts "#{@n}.get#{x.inspect}"
    @a[x]
  end
  def sa(x, y)
    puts "#{@n}.set#{x.inspect}=#{y.inspect}"
    @a[x] = y
    :ignored
  end
  def a
    ga([:a])
  end
  def a=(x)
    sa([:a], x)
  end
  def b
    ga([:b])
  end
  def b=(x)
    sa([:b], x)
  end
  def [](*i)
    ga(i)
  end
  def []=(*i, x)
    sa(i, x)
  end
end
class M
  def initialize(n, l)
    @n = n
    @l = l
  end
  def inspect
    "M#{@n}"
  end
  def ===(x)
    puts "M#{@n}===#{x.inspect}"
    @l.include?(x)
  end
end
class Mv
  def initialize(n)
    @n = n
  end
  def ===(x)
    puts "Mv#{@n}"
    @n.even? ? x : nil
  end
end
"""


class Env:
    def __init__(self, r):
        self.r, self.out, self.vars, self.objs, self.decl = r, [], {}, {}, []
        self.n = 0

    def value(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return r.randint(0, 50)
        if k < 0.75:
            return None
        if k < 0.85:
            return r.choice((Sym("s"), False, True))
        return tuple(r.randint(0, 9) for _ in range(r.randint(0, 3)))

    def expr(self, depth=1):
        """-> (source, thunk)"""
        r = self.r
        k = r.random()
        if k < 0.3:
            v = self.value()
            return lit(v), lambda: v
        if k < 0.55:
            v, n = self.value(), r.randint(1, 99)

            def th():
                self.out.append("t%d" % n)
                return v
            return "t(%d, %s)" % (n, lit(v)), th
        if k < 0.8 and self.vars:
            n = r.choice(sorted(self.vars))
            return n, lambda: self.vars[n]
        if k < 0.9 and depth > 0:
            s, t = self.target()
            e, x = self.expr(depth - 1)

            def th():
                pl = t.prepare()
                v = x()
                t.store(pl, v)
                return v
            return "(%s = %s)" % (s, e), th
        s, t = self.target(read=True)
        return s, lambda: t.load(t.prepare())

    def newvar(self):
        self.n += 1
        k = self.r.random()
        return ("l%d" if k < 0.6 else "@i%d" if k < 0.8 else "$g%d") % self.n

    def target(self, read=False, plain=False):
        r = self.r
        k = r.random()
        if plain or k < 0.4:
            n = r.choice(sorted(self.vars)) if self.vars and (read or r.random() < 0.5) else None
            if n is None:
                n = self.newvar()
                if read or r.random() < 0.5:
                    v = self.value()
                    self.decl.append("%s = %s" % (n, lit(v)))
                    self.vars[n] = v
                    self.initial[n] = v
                else:
                    self.vars.setdefault(n, None)
                    if n[0] == "l":
                        self.decl.append("%s = nil" % n)
            return n, Var(self, n)
        # an object or an array, an index
        if k < 0.72:
            if self.objs and r.random() < 0.6:
                o = r.choice(sorted(self.objs))
            else:
                o = "o%d" % (len(self.objs) + 1)
                self.objs[o] = {}
                self.decl.append("%s = O.new(%s)" % (o, o[1:]))
            src, tr = self.maybe(o)
            if r.random() < 0.5:
                a = r.choice("ab")
                return "%s.%s" % (src, a), ObjT(self, o, tr, [], Sym(a))
            idx = [self.index() for _ in range(r.choice((1, 1, 1, 2)))]
            if r.random() < 0.2:
                idx.insert(r.randint(0, len(idx)), self.splat())
            return "%s[%s]" % (src, ", ".join(i[0] for i in idx)), ObjT(self, o, tr, idx, None)
        if r.random() < 0.6:
            arrs = [a for a in self.arrs]
            if not arrs or r.random() < 0.4:
                a = "y%d" % (len(arrs) + 1)
                self.arrs[a] = [r.randint(0, 9) for _ in range(r.randint(0, 4))]
                self.decl.append("%s = %s" % (a, lit(tuple(self.arrs[a]))))
                self.start[a] = list(self.arrs[a])
            else:
                a = r.choice(arrs)
            src, tr = self.maybe(a)
            s, it = self.index()
            return "%s[%s]" % (src, s), ArrT(self, a, tr, it)
        hs = [a for a in self.hashes]
        if not hs or r.random() < 0.4:
            a = "h%d" % (len(hs) + 1)
            self.hashes[a] = {}
            self.decl.append("%s = {}" % a)
        else:
            a = r.choice(hs)
        src, tr = self.maybe(a)
        s, it = self.index()
        return "%s[%s]" % (src, s), HashT(self, a, tr, it)

    def maybe(self, src):
        if self.r.random() < 0.35:
            n = self.r.randint(100, 199)
            return "t(%d, %s)" % (n, src), "t%d" % n
        return src, None

    def splat(self):
        """A splat among the indexes."""
        r = self.r
        v = tuple(r.randint(0, 4) for _ in range(r.randint(0, 3)))
        n = r.randint(300, 399)

        def th():
            self.out.append("t%d" % n)
            return list(v)
        return "*t(%d, %s)" % (n, lit(v)), th

    def index(self):
        r = self.r
        v = r.randint(0, 4)
        k = r.random()
        if k < 0.5:
            return str(v), lambda: v
        if k < 0.7:
            # a variable whose value changes
            n = "x%d" % r.randint(1, 2)
            if n not in self.vars:
                self.decl.append("%s = %d" % (n, v))
                self.vars[n] = v
                self.initial[n] = v
                self.ixs.add(n)

            def ix():
                x = self.vars[n]
                if not (isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 1000):
                    raise Bad()
                return x
            return n, ix
        n = r.randint(200, 299)

        def th():
            self.out.append("t%d" % n)
            return v
        return "t(%d, %d)" % (n, v), th


class Bad(Exception):
    pass


def family(r):
    """Class variables and constants under the assignment operators, set and not set before."""
    out, lines, env = [], [], {}
    names = ["@@a", "@@b", "A", "B", "$fam"]
    lines.append("$fam = nil")
    env["$fam"] = None
    for _ in range(r.randint(3, 9)):
        n, k, v = r.choice(names), r.randint(1, 99), r.choice((None, False, 1, 7, 7, 12))
        op = r.choice(("||=", "||=", "||=", "&&=", "+=", "="))
        val = "t(%d, %s)" % (k, lit(v))
        if n[0] in "AB" and op != "||=" and (op != "=" or n in env):
            op = "||="
        if op != "||=" and op != "=" and n not in env or op == "+=" and not (is_int(env[n]) and is_int(v)):
            op = "||="
        old = env.get(n)
        if op == "=" or op == "+=" or (op == "||=" and not truthy(old)) or (op == "&&=" and truthy(old)):
            out.append("t%d" % k)
            new = old + v if op == "+=" else v
            env[n] = new
            if n[0] in "AB" and False:
                pass
        res = env[n]
        if r.random() < 0.5:
            lines.append("v((%s %s %s))" % (n, op, val))
            out.append("=" + ins(res))
        else:
            lines.append("%s %s %s" % (n, op, val))
        if r.random() < 0.3:
            lines.append("v([%s])" % ", ".join(sorted(env)))
            out.append("=" + ins(tuple(env[x] for x in sorted(env))))
    body = "\n".join(lines)
    where = r.choice(("class", "module", "def", "sdef", "block"))
    consts = any(x in env for x in "AB")
    if where in ("def", "sdef") and consts:
        where = "class"
    head = {"class": "class Fam%s\n%s\nend", "module": "module Fam%s\n%s\nend", "def": "class Fam%s\ndef run\n%s\nend\nend\nFam%s.new.run",
            "sdef": "class Fam%s\ndef self.run\n%s\nend\nend\nFam%s.run", "block": "class Fam%s\n[1].each { |z|\n%s\n}\nend"}[where]
    u = "%d" % r.randint(0, 10 ** 12)
    src = head % ((u, body, u) if head.count("%s") == 3 else (u, body))
    return Case(src, out, ("family",), "top")


class Var:
    def __init__(self, e, n):
        self.e, self.n = e, n

    def prepare(self):
        return None

    def load(self, p):
        return self.e.vars[self.n]

    def store(self, p, v):
        self.e.vars[self.n] = v


class ObjT:
    def __init__(self, e, o, tr, idx, attr):
        self.e, self.o, self.tr, self.idx, self.attr = e, o, tr, idx, attr

    def prepare(self):
        if self.tr:
            self.e.out.append(self.tr)
        if self.attr:
            return (self.attr,)
        p = []
        for i in self.idx:
            x = i[1]()
            p += x if isinstance(x, list) else [x]
        return tuple(p)

    def load(self, p):
        self.e.out.append("%s.get%s" % (self.o[1:], ins(p)))
        return self.e.objs[self.o].get(p)

    def store(self, p, v):
        self.e.out.append("%s.set%s=%s" % (self.o[1:], ins(p), ins(v)))
        self.e.objs[self.o][p] = v


class ArrT:
    def __init__(self, e, a, tr, it):
        self.e, self.a, self.tr, self.it = e, a, tr, it

    def prepare(self):
        if self.tr:
            self.e.out.append(self.tr)
        return self.it()

    def load(self, i):
        x = self.e.arrs[self.a]
        return x[i] if i < len(x) else None

    def store(self, i, v):
        x = self.e.arrs[self.a]
        while len(x) <= i:
            x.append(None)
        x[i] = v


class HashT(ArrT):
    def load(self, i):
        return self.e.hashes[self.a].get(i)

    def store(self, i, v):
        self.e.hashes[self.a][i] = v


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "|": lambda a, b: a | b, "&": lambda a, b: a & b,
       "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b if 0 <= b < 64 else None}


def truthy(x):
    return x is not None and x is not False


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def assign_case(r):
    for _ in range(40):
        e = Env(r)
        e.arrs, e.hashes, e.start, e.initial, e.ixs = {}, {}, {}, {}, set()
        steps = [statement(e) for _ in range(r.randint(1, 4))]
        # run the model
        try:
            for n in list(e.vars):
                e.vars[n] = e.initial.get(n)
            for a in e.arrs:
                e.arrs[a] = list(e.start[a])
            for _, th in steps:
                th()
        except Bad:
            continue
        src = list(e.decl) + [s for s, _ in steps]
        exp = e.out
        for n in sorted(e.vars):
            src.append("v(%s)" % n)
            exp.append("=" + ins(e.vars[n]))
        for a in sorted(e.arrs):
            src.append("v(%s)" % a)
            exp.append("=" + ins(tuple(e.arrs[a])))
        for a in sorted(e.hashes):
            src.append("%s.each { |k, x| v([k, x]) }" % a)
            exp += ["=" + ins((k, x)) for k, x in e.hashes[a].items()]
        globs = [n for n in e.vars if n[0] == "$" and n not in e.initial] + [n for n in e.vars if n[0] == "@" and n not in e.initial]
        src = ["%s = nil" % n for n in globs] + src
        return Case("\n".join(src), exp, ("assignment",), r.choice(("top", "def", "block", "lambda")))
    return None


def statement(e):
    r = e.r
    use = r.random() < 0.4

    def wrap(src, th):
        if not use:
            return src, th

        def th2():
            e.out.append("=" + ins(th()))
        return "v((%s))" % src, th2
    k = r.random()
    if k < 0.2:
        s, t = e.target()
        x, xt = e.expr()

        def th():
            p = t.prepare()
            v = xt()
            t.store(p, v)
            return v
        return wrap("%s = %s" % (s, x), th)
    if k < 0.5:
        # op-assign
        plain = r.random() < 0.3
        s, t = e.target(plain=plain)
        x, xt = e.expr()
        op = r.choice(("||", "&&", "||", "&&", "+", "-", "*", "|", "&", "^"))

        def th():
            p = t.prepare()
            cur = t.load(p)
            if op in ("||", "&&"):
                if truthy(cur) == (op == "||"):
                    return cur
                v = xt()
            else:
                v = xt()
                if not (is_int(cur) and is_int(v)):
                    raise Bad()
                v = OPS[op](cur, v)
            t.store(p, v)
            return v
        return wrap("%s %s= %s" % (s, op, x), th)
    if k < 0.6:
        # chain
        ts = [e.target() for _ in range(r.randint(2, 3))]
        x, xt = e.expr()

        def th():
            ps = [t.prepare() for _, t in ts]
            v = xt()
            for (_, t), p in reversed(list(zip(ts, ps))):
                t.store(p, v)
            return v
        return wrap(" = ".join(s for s, _ in ts) + " = " + x, th)
    # multiple
    ts = [e.target() for _ in range(r.choice((2, 2, 2, 3, 3, 4)))]
    q = r.random()
    if q < 0.55:
        xs = [e.expr(0) for _ in range(r.choice((len(ts), len(ts), len(ts), r.randint(2, 5))))]
        if len(xs) < 2:
            xs.append(e.expr(0))
        src = ", ".join(x[0] for x in xs)

        def vals():
            v = [x[1]() for x in xs]
            return v, tuple(v)
    elif q < 0.7:
        # with splats
        parts, ths = [], []
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.6 or not parts:
                v = tuple(r.randint(0, 9) for _ in range(r.randint(0, 3)))
                n = r.randint(300, 399)
                if r.random() < 0.5:
                    parts.append("*t(%d, %s)" % (n, lit(v)))

                    def one(v=v, n=n):
                        e.out.append("t%d" % n)
                        return list(v)
                    ths.append(one)
                else:
                    parts.append("*" + lit(v))
                    ths.append(lambda v=v: list(v))
            else:
                s, x = e.expr(0)
                parts.append(s)
                ths.append(lambda x=x: [x()])
        src = ", ".join(parts)

        def vals():
            v = [y for x in ths for y in x()]
            return v, tuple(v)
    else:
        v = e.value() if r.random() < 0.3 else tuple(e.value() for _ in range(r.randint(0, 5)))
        n = r.randint(400, 499)
        src = "t(%d, %s)" % (n, lit(v))

        def vals():
            e.out.append("t%d" % n)
            return (list(v) if isinstance(v, tuple) else [v]), v

    def th():
        vs, val = vals()
        for i, (_, t) in enumerate(ts):
            p = t.prepare()
            t.store(p, vs[i] if i < len(vs) else None)
        return val
    return wrap(", ".join(s for s, _ in ts) + " = " + src, th)


# ---- case / when ----

SUBJ = [0, 1, 2, 3, 5, -1, 10, 100, 2 ** 40, 2 ** 64, 1.0, 2.5, -0.5, None, True, False, Sym("a"), Sym("b"), Sym("c")]
STRS = ["a", "b", "ab", "", "é", "abc"]


def teq(p, x, out):
    """p === x"""
    k = p[0]
    if k == "lit":
        y = p[1]
        if isinstance(y, RStr) or isinstance(x, RStr):
            return isinstance(y, RStr) and isinstance(x, RStr) and y.s == x.s
        if isinstance(y, (int, float)) and not isinstance(y, bool) and isinstance(x, (int, float)) and not isinstance(x, bool):
            return y == x
        if isinstance(y, (int, float)) and not isinstance(y, bool) or isinstance(x, (int, float)) and not isinstance(x, bool):
            return False
        return type(y) is type(x) and y == x
    if k == "range":
        lo, hi, ex = p[1]
        if isinstance(lo, int):
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                return False
            return lo <= x and (x < hi if ex else x <= hi)
        return isinstance(x, RStr) and lo <= x.s and (x.s < hi if ex else x.s <= hi)
    if k == "class":
        c = p[1]
        if c == "Integer":
            return is_int(x)
        if c == "Float":
            return isinstance(x, float)
        if c == "Numeric":
            return is_int(x) or isinstance(x, float)
        if c == "String":
            return isinstance(x, RStr)
        if c == "Symbol":
            return isinstance(x, Sym)
        if c == "NilClass":
            return x is None
        if c == "Array":
            return isinstance(x, tuple)
        if c == "Object":
            return True
        if c == "Comparable":
            return is_int(x) or isinstance(x, float) or isinstance(x, RStr)
    if k == "re":
        return (isinstance(x, (RStr, Sym))) and re.search(p[1], x.s if isinstance(x, RStr) else str(x)) is not None
    if k == "m":
        n, l = p[1]
        out.append("M%d===%s" % (n, ins(x)))
        return any(teq(("lit", y), x, out) for y in l)
    if k == "mv":
        out.append("Mv%d" % p[1])
        return p[1] % 2 == 0 and truthy(x)
    if k == "lam":
        n = p[1]
        out.append("L%d" % n)
        return is_int(x) and x > n
    if k == "expr":
        inner = p
        trace = []
        while inner[0] == "expr":
            trace.append("t%d" % inner[2])
            inner = inner[1]
        out += reversed(trace)
        return teq(inner, x, out)
    raise AssertionError(k)


def psrc(p):
    k = p[0]
    if k == "lit":
        return lit(p[1])
    if k == "range":
        lo, hi, ex = p[1]
        f = (lambda z: lit(z)) if isinstance(lo, int) else (lambda z: lit(RStr(z)))
        return "(%s%s%s)" % (f(lo), "..." if ex else "..", f(hi))
    if k == "class":
        return p[1]
    if k == "re":
        return "/%s/" % p[1]
    if k == "m":
        return "M.new(%d, %s)" % (p[1][0], lit(p[1][1]))
    if k == "mv":
        return "Mv.new(%d)" % p[1]
    if k == "lam":
        return "lambda { |x| puts 'L%d'; x.is_a?(Integer) && x > %d }" % (p[1], p[1])
    if k == "expr":
        return "t(%d, %s)" % (p[2], psrc(p[1]))


def subject(r, kind):
    if kind == "int":
        return r.choice(SUBJ[:10])
    if kind == "str":
        return RStr(r.choice(STRS))
    if kind == "sym":
        return r.choice(SUBJ[-3:])
    k = r.random()
    if k < 0.5:
        return r.choice(SUBJ)
    if k < 0.85:
        return RStr(r.choice(STRS))
    return tuple(r.randint(0, 2) for _ in range(r.randint(0, 2)))


def pattern(r, kind):
    if kind in ("int", "str", "sym") and r.random() < 0.93:
        return ("lit", subject(r, kind))
    k = r.random()
    if k < 0.3:
        return ("lit", subject(r, "any"))
    if k < 0.42:
        lo = r.randint(-3, 6)
        return ("range", (lo, lo + r.randint(0, 6), r.random() < 0.4))
    if k < 0.46:
        a, b = sorted((r.choice("abc"), r.choice("abcd")))
        return ("range", (a, b, r.random() < 0.4))
    if k < 0.58:
        return ("class", r.choice(("Integer", "Float", "Numeric", "String", "Symbol", "NilClass", "Array", "Object")))
    if k < 0.65:
        return ("re", r.choice(("a", "^b", "b$", "[x-z]", "^$", "é")))
    if k < 0.78:
        return ("m", (r.randint(1, 99), tuple(subject(r, "any") for _ in range(r.randint(0, 4)))))
    if k < 0.84:
        return ("mv", r.randint(1, 99))
    if k < 0.9:
        return ("lam", r.randint(-3, 12))
    return ("expr", pattern(r, kind), r.randint(500, 599))


def case_case(r):
    kind = r.choice(("int", "int", "str", "sym", "any", "any", "any"))
    dense = kind == "int" and r.random() < 0.6
    branches = []
    base = r.choice((0, 0, 1, -2, 100, 2 ** 31 - 2, 2 ** 40))
    for i in range(r.choice((1, 2, 3, 5, 9))):
        if dense:
            ps = [("lit", base + r.randint(0, 12)) for _ in range(r.randint(1, 3))]
            if r.random() < 0.05:
                ps.append(pattern(r, "any"))
        else:
            ps = [pattern(r, kind) for _ in range(r.choice((1, 1, 2, 3)))]
        branches.append(ps)
    els = r.random() < 0.6
    name = "k%d" % r.randint(0, 10 ** 9)
    use = r.choice(("value", "value", "stmt", "subjectless"))
    body = []
    empty = set(i for i in range(len(branches)) if r.random() < 0.08)
    then = r.random() < 0.3
    subj = r.choice(("x", "x", "t(1, x)", "(x)"))
    if use == "subjectless":
        body.append("case")
    else:
        body.append("case " + subj)
    for i, ps in enumerate(branches):
        if use == "subjectless":
            pl = ", ".join("(%s) === x" % psrc(p) for p in ps)
        else:
            pl = ", ".join(psrc(p) for p in ps)
        out = "" if i in empty else "puts 'B%d'\n" % i if use == "stmt" else "[%d]" % i
        if then and out:
            body.append("when %s then %s" % (pl, out.strip()))
        else:
            body.append("when %s\n  %s" % (pl, out))
    if els:
        body.append("else\n  " + ("puts 'E'" if use == "stmt" else ":e"))
    body.append("end")
    code = "\n".join(body)
    if use == "stmt":
        pre = "def %s(x)\n%s\nnil\nend" % (name, code)
    elif r.random() < 0.5:
        pre = "def %s(x)\nv(%s)\nend" % (name, code if r.random() < 0.0 else "(" + code + ")")
    else:
        pre = "def %s(x)\ny = %s\nv(y)\nend" % (name, code)
    calls, exp = [], []
    for _ in range(r.randint(4, 14)):
        if dense and r.random() < 0.8:
            x = base + r.randint(-3, 15)
            if r.random() < 0.15:
                x = r.choice((float(x), x + 2 ** 32, x - 2 ** 32, x + 2 ** 64, -x, RStr(str(x))))
        else:
            x = subject(r, kind if r.random() < 0.8 else "any")
        calls.append("%s(%s)" % (name, lit(x)))
        if subj.startswith("t(") and use != "subjectless":
            exp.append("t1")
        hit = None
        for i, ps in enumerate(branches):
            if any(teq(p, x, exp) for p in ps):
                hit = i
                break
        if use == "stmt":
            if hit is None:
                if els:
                    exp.append("E")
            elif hit not in empty:
                exp.append("B%d" % hit)
        else:
            exp.append("=" + (("[%d]" % hit if hit not in empty else "nil") if hit is not None else ":e" if els else "nil"))
    return Case("\n".join(calls), exp, ("case " + kind,), r.choice(("top", "def", "block")), pre=pre)


def check(chk):
    chk.rule = ("random plain, compound, chained and multiple assignments whose receivers, indexes, reads, writes and values print a trace, compared with a "
                "model of the store; random case expressions compared with the chain of === tests they stand for; distinct by source text")
    chk.assumptions = ["multiple assignment evaluates the right side first and then each target from left to right (the order of Ruby before 3.1)",
                       "splats and nested patterns among targets and in when are outside the implemented subset"]
    r = chk.rng("assign")
    chk.run([c for c in (assign_case(r) for _ in range(chk.scale(36000, 500000))) if c], size=80, prelude=PRE)
    r = chk.rng("case")
    chk.run([family(chk.rng("family%d" % i)) for i in range(chk.scale(3000, 40000))], size=100, prelude=PRE)
    chk.run([case_case(r) for _ in range(chk.scale(20000, 300000))], size=60, prelude=PRE)
