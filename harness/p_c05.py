"""C05: operators of user classes against a traced model; operators of builtin types against send."""
from core import PRELUDE, Case
from rb import Sym, ins, lit

BIN = ["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "==", "!=", "<", "<=", ">", ">=", "<=>", "===", "=~"]
OPASG = ["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^"]
NODEF = ["**", "^", "-@", "~"]      # these cannot be defined with def in this subset: method_missing answers them
UN = ["-", "~"]

PRE = PRELUDE + r"""
$n = 0
class T
  def initialize(t)
    @t = t
  end
  def tag
    @t
  end
  def inspect
    "<#{@t}>"
  end
  def val(op, *a)
    puts "#{@t}.#{op}(#{a.map { |x| x.inspect }.join(",")})"
    $n += 1
    case ($n * 7 + @t) % 5
    when 0
      nil
    when 1
      false
    when 2
      $n
    else
      T.new(100 + $n)
    end
  end
end
class T1 < T
""" + "".join("  def %s(o)\n    val(:%s, o)\n  end\n" % (o, o) for o in BIN if o not in NODEF + ["!="]) + r"""  def [](*a)
    val(:get, *a)
  end
  def []=(*a)
    val(:set, *a)
  end
  def a
    val(:a)
  end
  def a=(x)
    val(:a=, x)
  end
end
class T2 < T1
  def !=(o)
    val(:ne, o)
  end
end
class T3 < T
  def method_missing(n, *a)
    val(n, *a)
  end
end
class T4 < T1
  def +(o)
    puts "sup"
    super
  end
  def [](*a)
    puts "sup"
    super
  end
end
def t(x)
  puts "t#{x.inspect}"
  x
end
"""


class Obj:
    """A value of one of the user classes."""

    def __init__(self, cls, tag):
        self.cls, self.tag = cls, tag

    def __repr__(self):
        return "<%d>" % self.tag


def insp(x):
    if isinstance(x, Obj):
        return repr(x)
    return ins(x)


class Model:
    def __init__(self):
        self.n, self.out = 0, []

    def val(self, o, op, *a):
        self.out.append("%d.%s(%s)" % (o.tag, op, ",".join(insp(x) for x in a)))
        self.n += 1
        k = (self.n * 7 + o.tag) % 5
        if k == 0:
            return None
        if k == 1:
            return False
        if k == 2:
            return self.n
        return Obj("T", 100 + self.n)   # of class T: has no operators of its own

    def call(self, o, op, *a):
        c = o.cls
        name = {"[]": "get", "[]=": "set"}.get(op, op)
        if c == "T3":
            if op in ("==", "!=", "===", "<=>", "=~"):
                raise AssertionError
            return self.val(o, op, *a)
        if c == "T2" and op == "!=":
            return self.val(o, "ne", *a)
        if op == "!=":
            r = self.val(o, "==", *a)
            return r is None or r is False
        if c == "T4" and op in ("+", "[]"):
            self.out.append("sup")
        return self.val(o, name, *a)


def truthy(x):
    return x is not None and x is not False


class Gen:
    def __init__(self, r):
        self.r, self.m = r, Model()
        self.decl = []
        self.nv = 0

    def cls(self, op):
        r = self.r
        if op in NODEF:
            return "T3"
        if op in ("==", "!=", "===", "<=>", "=~"):
            return r.choice(("T1", "T2", "T4"))
        return r.choice(("T1", "T1", "T2", "T3", "T4"))

    def newobj(self, op):
        o = Obj(self.cls(op), self.r.randint(1, 60))
        return o, "%s.new(%d)" % (o.cls, o.tag)

    def var(self, src):
        k = self.r.random()
        self.nv += 1
        n = ("x%d" if k < 0.5 else "@x%d" if k < 0.75 else "$x%d") % self.nv
        self.decl.append("%s = %s" % (n, src))
        return n

    def recv(self, op):
        """-> (source, thunk giving the object)"""
        r = self.r
        o, s = self.newobj(op)
        k = r.random()
        if k < 0.45:
            return self.var(s), lambda: o
        if k < 0.6:
            return s, lambda: o

        def th():
            self.m.out.append("t" + insp(o))
            return o
        return "t(%s)" % s, th

    def arg(self, depth):
        r = self.r
        k = r.random()
        if k < 0.35:
            v = r.choice((0, 1, 2, -1, 7, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 62, 2 ** 70, None, True,
                          Sym("s"), 1.5))
            return lit(v), lambda: v
        if k < 0.5:
            v = r.choice((3, -4, None, Sym("q"), (1, 2)))
            return self.var(lit(v)), lambda: v
        if k < 0.65:
            v = r.choice((3, -4, None, Sym("q")))

            def th():
                self.m.out.append("t" + insp(v))
                return v
            return "t(%s)" % lit(v), th
        if k < 0.8:
            o, s = self.newobj("+")
            return self.var(s), lambda: o
        if depth > 0:
            s, th = self.expr(depth - 1)
            return "(%s)" % s, th
        return "5", lambda: 5

    def args(self, n, depth):
        return [self.arg(depth) for _ in range(n)]

    def expr(self, depth):
        r = self.r
        k = r.random()
        m = self.m
        if k < 0.6:
            op = r.choice(BIN)
            rs, rt = self.recv(op)
            as_, at = self.arg(depth)

            def th():
                o = rt()
                return m.call(o, op, at())
            return "%s %s %s" % (rs, op, as_), th
        if k < 0.68:
            op = r.choice(UN)
            rs, rt = self.recv("-@")
            return "%s(%s)" % (op, rs), lambda: m.call(rt(), "-@" if op == "-" else "~")
        if k < 0.84:
            rs, rt = self.recv("[]")
            n = r.choice((1, 1, 1, 0, 2, 3))
            args = self.args(n, depth)
            splat = None
            if r.random() < 0.2:
                splat = tuple(r.randint(0, 9) for _ in range(r.randint(0, 3)))

            def th():
                o = rt()
                a = [x[1]() for x in args]
                return m.call(o, "[]", *(a + list(splat or ())))
            parts = [x[0] for x in args]
            if splat is not None:
                parts.append("*" + self.var(lit(splat)))
            return "%s[%s]" % (rs, ", ".join(parts)), th
        if k < 0.92:
            # safe navigation
            if r.random() < 0.4:
                v = self.var("nil") if r.random() < 0.5 else "nil"
                if r.random() < 0.5:
                    return "(%s)&.foo(t(1))" % v, lambda: None
                return "(%s)&.foo" % v, lambda: None
            rs, rt = self.recv("+")
            if r.random() < 0.5:
                return "%s&.a" % rs, lambda: m.call(rt(), "a")
            as_, at = self.arg(depth)

            def th():
                o = rt()
                return m.call(o, "+", at())
            return "%s&.+(%s)" % (rs, as_), th
        # && || ! ternary
        if depth > 0:
            s1, t1 = self.expr(depth - 1)
            s2, t2 = self.expr(depth - 1)
            q = r.random()
            if q < 0.35:
                def th():
                    x = t1()
                    return t2() if truthy(x) else x
                return "(%s) && (%s)" % (s1, s2), th
            if q < 0.7:
                def th():
                    x = t1()
                    return x if truthy(x) else t2()
                return "(%s) || (%s)" % (s1, s2), th
            if q < 0.85:
                return "!(%s)" % s1, lambda: not truthy(t1())
            s3, t3 = self.expr(depth - 1)

            def th():
                return t2() if truthy(t1()) else t3()
            return "(%s) ? (%s) : (%s)" % (s1, s2, s3), th
        rs, rt = self.recv("a")
        return "%s.a" % rs, lambda: m.call(rt(), "a")

    def stmt(self, depth):
        """-> (list of source lines, thunk)"""
        r, m = self.r, self.m
        k = r.random()
        if k < 0.3:
            s, t = self.expr(depth)

            def th():
                m.out.append("=" + insp(t()))
            return ["v((%s))" % s], th
        if k < 0.42:
            s, t = self.expr(depth)
            return [s], t
        if k < 0.7:
            s, t = self.expr(depth)
            neg = r.random() < 0.3
            form = r.randint(0, 4)
            word = "unless" if neg else "if"

            def th():
                if truthy(t()) != neg:
                    m.out.append("Y")
                elif form in (0, 1):
                    m.out.append("N")
            if form == 0:
                return ["%s %s" % (word, s), "  puts 'Y'", "else", "  puts 'N'", "end"], th
            if form == 1:
                if neg:
                    return ["puts((%s) ? 'N' : 'Y')" % s], th
                return ["puts((%s) ? 'Y' : 'N')" % s], th
            if form == 2:
                return ["puts 'Y' %s %s" % (word, s)], th
            if form == 3:
                return ["%s %s" % ("until" if neg else "while", s), "  puts 'Y'", "  break", "end"], th
            return ["(%s) %s puts('Y')" % (s, "||" if neg else "&&")], th
        # compound and plain assignment
        kind = r.choice(("var", "attr", "idx", "idx"))
        asop = r.choice(("op", "op", "||", "&&", "="))
        op = r.choice(OPASG)
        use = r.random() < 0.5
        as_, at = self.arg(depth)
        if kind == "var":
            o, s = self.newobj(op)
            n = self.var(s)
            if asop == "op":
                src, th0 = "%s %s= %s" % (n, op, as_), (lambda: m.call(o, op, at()))
            elif asop == "||":
                src, th0 = "%s ||= %s" % (n, as_), (lambda: o)
            elif asop == "&&":
                src, th0 = "%s &&= %s" % (n, as_), at
            else:
                src, th0 = "%s = %s" % (n, as_), at
        else:
            rs, rt = self.recv("a")
            nav = kind == "attr" and r.random() < 0.25
            isnil = nav and r.random() < 0.4
            if isnil:
                rs, rt = self.var("nil"), (lambda: None)
            if kind == "attr":
                lhs, idx, get, put = "%s%s.a" % (rs, "&" if nav else ""), [], "a", "a="
            else:
                idx = self.args(r.choice((1, 1, 1, 2, 0)), depth - 1)
                lhs, get, put = "%s[%s]" % (rs, ", ".join(x[0] for x in idx)), "[]", "[]="
            src = "%s %s= %s" % (lhs, "" if asop == "=" else op if asop == "op" else asop, as_)
            if asop == "op":
                # the current value needs an operator of its own: use one that every value has
                src = "%s %s= %s" % (lhs, asop, as_)
                asop = "||"
                src = "%s ||= %s" % (lhs, as_)

            def th0():
                o = rt()
                if o is None:
                    return None
                i = [x[1]() for x in idx]
                if asop != "=":
                    cur = m.call(o, get, *i)
                    if truthy(cur) == (asop == "||"):
                        return cur
                v = at()
                m.call(o, put, *(i + [v]))
                return v
        if use:
            def th():
                m.out.append("=" + insp(th0()))
            return ["v((%s))" % src], th
        return [src], th0


def user_case(r):
    g = Gen(r)
    lines, ths = [], []
    for _ in range(r.randint(1, 4)):
        n0 = len(g.decl)
        s, t = g.stmt(r.choice((0, 1, 1, 2)))
        wrap = r.random()
        lines += g.decl[n0:]
        if wrap < 0.15:
            s = ["1.times do"] + s + ["end"]
        lines += s
        ths.append(t)
    if "$" in "".join(g.decl):
        pass
    g.m.n = 0
    for t in ths:
        t()
    return Case("$n = 0\n" + "\n".join(lines), g.m.out, ("traced",), r.choice(("top", "def", "block", "lambda")))


# ---- one call site, many types ----

def poly_case(r):
    """The same operator in one place gets operands of changing classes, and methods are redefined in between."""
    op = r.choice(("+", "-", "*", "<", ">=", "==", "!=", "<<", "&", "[]"))
    body = {"[]": "a[b]", "-@": "-a"}.get(op, "a %s b" % op)
    use = r.choice(("v((%s))", "if %s\n puts 'Y'\nelse\n puts 'N'\nend", "puts((%s) ? 'Y' : 'N')"))
    m = Model()
    pre = "class P%s < T1\nend\n" % "x"
    name = "f%d" % r.randint(0, 10 ** 9)
    pre = "def %s(a, b)\n%s\nend\n" % (name, use % body)
    out, calls = m.out, []
    cname = "Q%d" % r.randint(0, 10 ** 9)
    pre += "class %s < T1\nend\n" % cname
    defined = False
    for _ in range(r.randint(3, 10)):
        k = r.random()
        if k < 0.4:
            o = Obj(r.choice(("T1", "T2", "T4")), r.randint(1, 60))
            b = r.choice((1, 5, None))
            calls.append("%s(%s.new(%d), %s)" % (name, o.cls, o.tag, lit(b)))
            res = m.call(o, op, *(() if op == "-@" else (b,)))
        elif k < 0.55:
            o = Obj("T1", r.randint(1, 60))
            b = r.choice((1, 5, None))
            calls.append("%s(%s.new(%d), %s)" % (name, cname, o.tag, lit(b)))
            if defined:
                out.append("new%d" % defined)
                res = defined
            else:
                res = m.call(o, op, *(() if op == "-@" else (b,)))
        elif k < 0.7 and not (defined and r.random() < 0.5):
            defined = (defined or 0) + 1
            calls.append("class %s\n def %s%s\n puts 'new%d'\n %d\n end\nend" % (cname, op, "(o)" if op != "-@" else "", defined, defined))
            continue
        else:
            v = r.choice((1, 2.5, 2 ** 70, -3))
            w = r.choice((2, 4.5, 2 ** 65))
            try:
                res = {"+": lambda: v + w, "-": lambda: v - w, "*": lambda: v * w, "<": lambda: v < w, ">=": lambda: v >= w,
                       "==": lambda: v == w, "!=": lambda: v != w, "-@": lambda: -v,
                       "[]": lambda: (tuple([7, 8])[1]), "<<": lambda: (1, 2), "&": lambda: 5 & 4}[op]()
            except TypeError:
                continue
            if isinstance(res, float) and (isinstance(v, int) and abs(v) > 2 ** 60 or isinstance(w, int) and abs(w) > 2 ** 60):
                continue
            vs, ws = lit(v), lit(w)
            if op == "[]":
                vs, ws = "[7, 8]", "1"
            if op == "<<":
                vs, ws = "[1]", "2"
            if op == "&":
                vs, ws = "5", "4"
            calls.append("%s(%s, %s)" % (name, vs, ws))
        if use.startswith("v"):
            out.append("=" + insp(res))
        else:
            out.append("Y" if truthy(res) else "N")
    return Case("$n = 0\n" + "\n".join(calls), out, ("polymorphic",), "raw", pre=pre)


# ---- builtin operands: every form of the expression agrees with send ----

BV = ["0", "1", "-1", "2", "7", "-8", "3.5", "-0.5", "1e20", "2**62", "-(2**62)", "2**64", "-(2**70)", "4611686018427387903", "-4611686018427387904",
      "nil", "true", "false", ":a", ":b", "''", "'a'", "'ab'", "'é'", "[]", "[1]", "[1, 2]", "[nil]", "{}", "{1 => 2}", "{a: 1}", "(1..3)", "(1...3)",
      "('a'..'c')", "/a/", "Object", "Integer", "String", "Comparable", "O1", "O2", "2147483647", "-2147483648", "2147483648", "4294967295", "0x100000000",
      "64", "63", "-63", "Complex(1, 2)", "0.1", "1.0", "Math"]


def numeric(s):
    return s[0] in "-0123456789(" and ".." not in s or s.startswith("Complex")


def excluded(op, a, b):
    fa = "." in a and ".." not in a or "e" in a and a[0].isdigit()
    if op in ("/", "%") and (fa or a == "Math") and b in ("0", "0.1", "1.0"):
        return True     # division by zero of floats differs between operator and method (pinned by the test suite)
    if op in ("/", "%") and "." in b and numeric(a) or fa and op in ("/", "%"):
        return b in ("0", "-0.5") and False or b == "0"
    if op in ("==", "!=", "===") and numeric(a) and (not numeric(b) or b.startswith("Complex")):
        return True     # pinned: 4.0.==("") raises as a method
    if op in ("**", "<<", "*") and (("2**" in b or "(2**" in b or b in ("0x100000000", "4294967295", "2147483648", "2147483647",
                                                                         "4611686018427387903")) or b.endswith("e20")):
        return True     # results of absurd size
    if op == ">>" and b in ("-2147483648", "-4611686018427387904", "-(2**62)", "-(2**70)"):
        return True
    return False


def forms_case(r):
    op = r.choice(BIN + ["[]", "[]"])
    a, b = r.choice(BV), r.choice(BV)
    if r.random() < 0.5:
        # mostly operands of matching types
        same = [x for x in BV if numeric(x) == numeric(a) and (numeric(a) or x[0] == a[0])]
        b = r.choice(same)
    if op == "[]" and r.random() < 0.7:
        a, b = r.choice(("[1]", "[1, 2]", "{1 => 2}", "{a: 1}", "'ab'", "7", "2**64", "-(2**70)")), r.choice(BV[:9] + ["(1..3)", ":a", "64", "63", "4294967295"])
    if excluded(op, a, b):
        return None
    fresh = op == "<<" and (a[0] in "['" or a.startswith("{"))
    name = "n%d" % r.randint(0, 10 ** 9)
    call = "(a)[b]" if op == "[]" else None

    def ex(x, y):
        return "(%s)[%s]" % (x, y) if op == "[]" else "(%s) %s (%s)" % (x, op, y) if r.random() < 0.5 else "%s %s %s" % (x, op, y)
    ref = "(%s).send(:%s, %s)" % (a, op, b)
    forms = []
    val = [
        (["va = " + a, "vb = " + b], ex("va", "vb")),
        ([], ex("(%s)" % a, b)),
        (["va = " + a], ex("va", b)),
        (["vb = " + b], ex("(%s)" % a, "vb")),
        (["@ia = " + a, "$gb = " + b], ex("@ia", "$gb")),
        (["va = " + a, "vb = " + b], "[%s][0]" % ex("va", "vb")),
        (["va = " + a, "vb = " + b], "(%s)" % ex("va", "vb")),
        (["va = " + a, "vb = " + b, "vc = " + ex("va", "vb")], "vc"),
        (["va = " + a, "vb = " + b], "id1(%s)" % ex("va", "vb")),
        (["va = " + a, "vb = " + b, "q = lambda { %s }" % ex("va", "vb")], "q.call"),
        (["va = " + a, "vb = " + b, "q = proc { |m, n| %s }" % ex("m", "n")], "q.call(va, *[vb])"),
        (["va = id1(%s)" % a], ex("va", "id1(%s)" % b)),
        ([], ex("id1(%s)" % a, b)),
        ([], ex("ident(%s)" % a, "(%s)" % b)),
    ]
    if op in OPASG:
        val.append((["va = " + a, "vb = " + b, "va %s= vb" % op], "va"))
        val.append((["va = " + a], "(va %s= %s)" % (op, b)))
        val.append((["va = [" + a + "]", "va[0] %s= %s" % (op, b)], "va[0]"))
        val.append((["va = {k: " + a + "}", "va[:k] %s= %s" % (op, b)], "va[:k]"))
    e2 = ex("va", "vb")
    e3 = ex("va", b)
    cond = []
    for e in (e2, e3, ex("(%s)" % a, b)):
        cond += ["(if %s then 1 else 0 end)" % e, "(unless %s then 0 else 1 end)" % e, "(%s ? 1 : 0)" % ("(" + e + ")"),
                 "((%s) && 1 || 0)" % e, "(!(%s) ? 0 : 1)" % e, "(x = 0; x = 1 if %s; x)" % e,
                 "(x = 0; while %s; x = 1; break; end; x)" % e, "(x = 1; until %s; x = 0; break; end; x)" % e,
                 "(case when %s then 1 else 0 end)" % e]
    picks = r.sample(val, 5)
    cpicks = r.sample(cond, 4)
    src = ["puts w { %s }" % ref]
    for d, e in picks:
        src.append("puts w {\n%s\n%s }" % ("\n".join(d), e))
    src.append("puts w { (%s) ? 1 : 0 }" % ref)
    for e in cpicks:
        src.append("puts w {\nva = %s\nvb = %s\n%s }" % (a, b, e))

    def judge(ls):
        if len(ls) != len(picks) + len(cpicks) + 2:
            return "printed %d lines: %r" % (len(ls), ls[-1:])
        for i in range(len(picks)):
            if ls[1 + i] != ls[0]:
                return "%s: send gives %r, the expression %s gives %r" % (ref, ls[0], picks[i], ls[1 + i])
        k = len(picks) + 1
        for i in range(len(cpicks)):
            if ls[k + 1 + i] != ls[k]:
                return "%s: send is %r, the condition %s gives %r" % (ref, ls[k], cpicks[i], ls[k + 1 + i])
        if op == "!=" and "x" not in (ls[0][0], ls[k][0]) and ls[0] not in ("vtrue", "vfalse"):
            return "!= gives %r" % ls[0]
        return None
    return Case("\n".join(src), None, ("builtin forms", "op " + op), judge=judge)


PRE2 = PRELUDE + r"""
def w
  begin
    y = yield
    'v' + y.inspect
  rescue StandardError => e
    'x' + e.class.to_s
  end
end
def id1(x)
  x
end
class Object
  def ident(x)
    x
  end
end
class OO
  def initialize(x)
    @x = x
  end
  def inspect
    "O"
  end
end
O1 = OO.new(1)
O2 = OO.new(1)
"""


def check(chk):
    r = chk.rng("user")
    chk.run([user_case(r) for _ in range(chk.scale(16000))], size=120, prelude=PRE)
    r = chk.rng("poly")
    chk.run([poly_case(r) for _ in range(chk.scale(3000))], size=60, prelude=PRE)
    r = chk.rng("forms")
    chk.run([c for c in (forms_case(r) for _ in range(chk.scale(14000))) if c], size=100, prelude=PRE2)
    chk.rule = ("expressions over operators of user classes print every call with receiver and operands (trace compared with a model); operators on "
                "builtin operands are compared with send in all operand forms and uses")
    chk.assumptions.append("pinned by the test suite and excluded: == of a number with another type called as a method, float division by zero")
