"""C08: closures share the variables, self and block of the place where they were written, for as long as any of them lives."""
import ctl
from core import Case
from rb import Sym
from ctl import Env, Closure, Discard, RErr, Tok, Ctx, truthy

PRE = ctl.PRELUDE + r"""
def c8(a, i, x)
  f = a[i]
  f ? f.call(x) : :none
end
def y8(a, i, x)
  f = a[i]
  f ? pass1(x, &f) : :none
end
def m8(a, i, x)
  f = a[i]
  f ? [x, x].map(&f) : :none
end
def bget(a, i, n)
  b = a[i]
  return :none unless b
  return :nov unless b.local_variable_defined?(n)
  b.eval(n.to_s)
end
def bset(a, i, n, x)
  b = a[i]
  return :none unless b
  return :nov unless b.local_variable_defined?(n)
  $bx = x
  b.eval(n.to_s + " = $bx")
end
"""


class It(ctl.Interp):
    def n_ivar(self, n, c):
        return c.self_.get(n[1])

    def n_iasg(self, n, c):
        x = self.ev_(n[2], c)
        c.self_[n[1]] = x
        return x

    def n_iop(self, n, c):
        x = self.arith(n[2], c.self_.get(n[1]), self.ev_(n[3], c))
        c.self_[n[1]] = x
        return x

    def n_push(self, n, c):
        x = self.ev_(n[2], c)
        self.lst(n[1]).append(x)
        self.count("closure kept")
        return None

    def n_bind(self, n, c):
        self.lst(n[1]).append(c)
        self.count("binding")
        return None

    def lst(self, name):
        return self.g.setdefault(name, [])

    def n_c8(self, n, c):
        i = self.ev_(n[3], c)
        x = self.ev_(n[4], c)
        a = self.lst(n[2])
        if not isinstance(i, int) or isinstance(i, bool):
            raise RErr("TypeError", None)
        if not -len(a) <= i < len(a):
            return Sym("none")
        f = a[i]
        self.count("kept closure called")
        if n[1] == "m8":
            return [self.call_closure(f, [x]), self.call_closure(f, [x])]
        return self.call_closure(f, [x])

    def n_bget(self, n, c):
        a = self.lst(n[1])
        if n[2] >= len(a):
            return Sym("none")
        b = a[n[2]]
        self.count("binding read")
        e = b.env.find(n[3])
        return e.v[n[3]] if e else Sym("nov")

    def n_bset(self, n, c):
        x = self.ev_(n[4], c)
        a = self.lst(n[1])
        if n[2] >= len(a):
            return Sym("none")
        e = a[n[2]].env.find(n[3])
        self.count("binding write")
        if not e:
            return Sym("nov")
        e.v[n[3]] = x
        return x

    def n_ocall(self, n, c):
        args = [self.ev_(x, c) for x in n[3]]
        cl = self.mkblk(n[4], c)
        return self.with_block(cl, lambda: self.call(n[2], args, cl, self.objs[n[1]]))

    def n_selfcall(self, n, c):
        args = [self.ev_(x, c) for x in n[2]]
        cl = self.mkblk(n[3], c)
        return self.with_block(cl, lambda: self.call(n[1], args, cl, c.self_))

    def n_evalop(self, n, c):
        return self.n_op(("op",) + n[1:], c)


def text8(n):
    T = ctl.text
    k = n[0]
    if k == "ivar":
        return n[1]
    if k == "iasg":
        return "(%s = %s)" % (n[1], T(n[2]))
    if k == "iop":
        return "(%s %s= %s)" % (n[1], n[2], T(n[3]))
    if k == "push":
        return "(%s.push(%s); nil)" % (n[1], T(n[2]))
    if k == "bind":
        return "(%s.push(binding); nil)" % n[1]
    if k == "c8":
        return "%s(%s, %s, %s)" % (n[1], n[2], T(n[3]), T(n[4]))
    if k == "bget":
        return "bget(%s, %d, :%s)" % (n[1], n[2], n[3])
    if k == "bset":
        return "bset(%s, %d, :%s, %s)" % (n[1], n[2], n[3], T(n[4]))
    if k in ("ocall", "selfcall"):
        if k == "ocall":
            f, args, b = n[1] + "." + n[2], n[3], n[4]
        else:
            f, args, b = "self." + n[1], n[2], n[3]
        return f + "(" + ", ".join(T(x) for x in args) + ")" + ctl.blk(b)
    if k == "evalop":
        return 'eval("%s %s= %s")' % (n[1], n[2], T(n[3]))
    return None


ctl.EXTRA_TEXT.append(text8)


class G:
    def __init__(self, r, tag):
        self.r, self.t, self.n = r, tag, 0
        self.A, self.B = "$a" + tag, "$b" + tag
        self.meths = []
        self.allv = []

    def fresh(self, p="x"):
        self.n += 1
        x = "%s%d" % (p, self.n)
        self.allv.append(x)
        return x

    def atom(self, s):
        r = self.r
        vs = s["vars"]
        k = r.random()
        if vs and k < 0.6:
            return ("var", r.choice(vs[-7:]))
        if k < 0.75:
            return ("ivar", r.choice(("@p", "@q")))
        return ("lit", r.randint(0, 9))

    def num(self, s):
        r = self.r
        a = self.atom(s)
        return ("bin", r.choice("+-*"), a, ("lit", r.randint(1, 4))) if r.random() < 0.5 else a

    def idx(self, s):
        r = self.r
        return ("lit", r.randint(-2, 9))

    def expr(self, s, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3:
            return self.num(s)
        if k < 0.42:
            return ("c8", r.choice(("c8", "c8", "y8", "m8")), self.A, self.idx(s), self.num(s))
        if k < 0.5 and s["blk"]:
            return ("yield", [self.num(s)])
        if k < 0.56 and s["procs"]:
            return ("pcall", ("var", r.choice(s["procs"])), [self.num(s)])
        if k < 0.62:
            return ("bget", self.B, r.randint(0, 4), r.choice(self.allv[-12:] or ["x1"]))
        if k < 0.66:
            return ("bset", self.B, r.randint(0, 4), r.choice(self.allv[-12:] or ["x1"]), self.num(s))
        if k < 0.76 and self.meths and d > 1:
            m, ps = r.choice(self.meths)
            b = self.blk(s, d - 1) if r.random() < 0.6 else None
            if r.random() < 0.5:
                return ("selfcall", m, [self.num(s) for _ in ps], b)
            return ("ocall", r.choice(("$o1", "$o2")) + self.t, m, [self.num(s) for _ in ps], b)
        if k < 0.86 and d > 1:
            kind = r.choice(("map", "each", "inject", "times"))
            ps = [self.fresh() for _ in range(2 if kind == "inject" else 1)]
            s2 = self.inner(s, ps)
            arg = ("lit", r.randint(0, 3)) if kind == "times" else ("arr", [("lit", r.randint(0, 9)) for _ in range(r.randint(0, 3))])
            return ("native", kind, arg, (ps, self.stmts(s2, d - 1)))
        if k < 0.92:
            return ("call", "pass1", [self.num(s)], self.blk(s, d - 1))
        return ("arr", [self.num(s) for _ in range(r.randint(0, 2))])

    def inner(self, s, ps, **k):
        return dict(s, vars=s["vars"] + ps, procs=list(s["procs"]), depth=s["depth"] + 1, **k)

    def blk(self, s, d):
        ps = [self.fresh()]
        return (ps, self.stmts(self.inner(s, ps), d))

    def closure(self, s, d):
        r = self.r
        kind = r.choice(("lambda", "proc"))
        ps = [self.fresh()]
        s2 = self.inner(s, ps)
        body = self.stmts(s2, d - 1)
        if r.random() < 0.2:
            body.append(("return", self.num(s2)) if kind == "lambda" else ("next", self.num(s2)))
        return (kind, (ps, body))

    def stmts(self, s, d):
        n = self.r.choice((1, 2, 2, 3)) if d > 0 else self.r.choice((1, 1, 2))
        return [self.stmt(s, d) for _ in range(n)]

    def stmt(self, s, d):
        r = self.r
        k = r.random()
        xs = [x for x in s["vars"]]
        if k < 0.14 or not xs:
            e = self.num(s)
            x = self.fresh()
            s["vars"].append(x)
            return ("asg", x, e)
        if k < 0.36:
            return ("op", r.choice(xs[-7:]), r.choice("+-*"), ("lit", r.randint(1, 3)))
        if k < 0.42:
            return ("asg", r.choice(xs), self.expr(s, d - 1))
        if k < 0.47:
            return ("iop", r.choice(("@p", "@q")), r.choice("+-"), self.num(s))
        if k < 0.62 and d > 0 and s["depth"] < 5:
            return ("push", self.A, self.closure(s, d))
        if k < 0.67 and d > 0:
            c = self.closure(s, d)
            x = self.fresh("k")
            self.allv.pop()
            s["procs"].append(x)
            return ("asg", x, c)
        if k < 0.71:
            return ("bind", self.B)
        if k < 0.75:
            return ("evalop", r.choice(xs), r.choice("+-"), ("lit", r.randint(1, 9)))
        if k < 0.83 and d > 0:
            i = self.fresh("w")
            s["vars"].append(i)
            body = self.stmts(dict(s, procs=list(s["procs"])), d - 1)
            # what the body declares stays visible, but may be unset: keep to what was known before
            return ("seq", [("asg", i, ("lit", 0)),
                            ("while", ("bin", "<", ("op", i, "+", ("lit", 1)), ("lit", r.randint(1, 4))), True, body)])
        if k < 0.87 and d > 0:
            i = self.fresh("f")
            s["vars"].append(i)
            body = self.stmts(dict(s, procs=list(s["procs"])), d - 1)
            return ("for", i, ("arr", [("lit", r.randint(0, 9)) for _ in range(r.randint(0, 3))]), body)
        return ("v", self.expr(s, d))


def program(r, tag):
    g = G(r, tag)
    K = "K8" + tag
    src = "%s = []\n%s = []\nclass %s\ndef initialize(p)\n@p = p\n@q = 1\nend\n" % (g.A, g.B, K)
    bodies = {}
    for j in range(r.randint(2, 4)):
        m = "m%d" % j
        ps = [g.fresh("a") for _ in range(r.randint(0, 2))]
        s = {"vars": list(ps), "procs": [], "blk": r.random() < 0.6, "depth": 0}
        body = g.stmts(s, 3) + g.stmts(s, 2)
        if s["blk"]:
            body = [("if", ("given",), body, [("iop", "@q", "+", ("lit", 1))])]
        src += ctl.method(m, ps, ("seq", body))
        bodies[m] = (ps, ("seq", body))
        g.meths.append((m, ps))
    src += "end\n$o1%s = %s.new(2)\n$o2%s = %s.new(5)\n" % (tag, K, tag, K)
    it = It(bodies)
    it.fuel = 6000
    it.objs = {"$o1" + tag: {"@p": 2, "@q": 1}, "$o2" + tag: {"@p": 5, "@q": 1}}
    top = {"vars": [], "procs": [], "blk": False, "depth": 0}
    c = Ctx(Env(), None, Tok(), None, {})
    Discard.hit = False
    n = 0
    for j in range(r.randint(5, 14)):
        k = r.random()
        if k < 0.55 or j < 2:
            m, ps = r.choice(g.meths)
            b = g.blk(top, 1) if r.random() < 0.7 else None
            node = ("ocall", r.choice(("$o1", "$o2")) + tag, m, [("lit", r.randint(0, 9)) for _ in ps], b)
        elif k < 0.85:
            node = ("c8", r.choice(("c8", "y8", "m8")), g.A, ("lit", r.randint(-3, 9)), ("lit", r.randint(0, 9)))
        elif k < 0.95:
            node = ("bget", g.B, r.randint(0, 4), r.choice(g.allv))
        else:
            node = ("bset", g.B, r.randint(0, 4), r.choice(g.allv), ("lit", r.randint(10, 99)))
        src += "begin\nv(%s)\nrescue StandardError => e\nputs '!' + e.class.to_s\nend\n" % ctl.text(node)
        try:
            it.show(it.ev_(node, c))
        except RErr as e:
            it.out.append("!" + e.cls)
        if r.random() < 0.15:
            src += "GC.start\n"
        if Discard.hit:
            raise Discard
    for o in ("$o1", "$o2"):
        for iv in ("@p", "@q"):
            src += "v(%s.instance_variable_get(:%s))\n" % (o + tag, iv)
            it.show(it.objs[o + tag][iv])
    return src, it.out, it.ev


def gen(r, tag):
    while True:
        try:
            src, out, ev = program(r, tag)
        except (Discard, ctl.Jump):
            continue
        return Case(src, out, tuple(sorted(ev)), "raw")


FIXED = [
    # an orphan return
    ("def q1; proc { return 1 }; end\nbegin\nq1.call\nrescue LocalJumpError => e\nv(e.class)\nend\n", ["=LocalJumpError"]),
    ("def q2; lambda { [1].each { return 5 }; 6 }; end\nv([0, q2.call])\n", ["=[0, 5]"]),
    ("def q3(&b) b; end\ndef q4; x = 1; b = q3 { x += 1 }; b.call; b.call; x; end\nv(q4)\n", ["=3"]),
    ("def q5; a = []; 3.times { |i| j = i; a.push(lambda { j += 1 }) }; a; end\nx = q5\nv(x.map { |f| f.call })\nv(x.map { |f| f.call })\n", ["=[1, 2, 3]", "=[2, 3, 4]"]),
    ("def q6(n) n == 0 ? [] : (x = n; q6(n - 1).push(lambda { x += n })); end\nx = q6(4)\nv(x.map { |f| f.call })\nv(x.map { |f| f.call })\n", ["=[2, 4, 6, 8]", "=[3, 6, 9, 12]"]),
]


def check(chk):
    chk.rule = ("random classes whose methods create lambdas, procs, blocks and bindings that read and write the variables of nested scopes, keep them "
                "in global lists and call, yield to and evaluate in them while the scope is active and after it ended, with GC.start between; a "
                "reference interpreter with explicit environments gives every value; part of the programs run with a collection at every few "
                "safe points and freed memory poisoned; distinct by source text")
    chk.assumptions = ["lambdas are called with the right number of arguments"]
    r = chk.rng("prog")
    cases = [gen(r, "_%d" % i) for i in range(chk.scale(4000, 80000))]
    fixed = [Case(s, o, ("fixed",), "raw") for s, o in FIXED]
    chk.run(cases + fixed, size=20, prelude=PRE)
    cases = [gen(r, "_g%d" % i) for i in range(chk.scale(1200, 20000))]
    chk.run(cases, size=20, prelude=PRE, mon="gc=every:5,poison,stats")
