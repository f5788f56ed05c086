"""C15: fibers and enumerators run exactly as far as the next yield, and every value arrives once, at its destination."""
import sys
import threading

import ctl
from core import Case
from rb import Sym
from ctl import Closure, Ctx, Discard, Env, Jump, RErr, Scope, Tok

FEATS = (ctl.ALL - {"bare_raise", "fuse"})

PRE = ctl.PRELUDE + r"""
def rs(f, *a)
  v(f.resume(*a))
rescue FiberError => e
  puts "fe"
rescue StandardError => e
  puts "x " + e.class.to_s
end
def nx(e)
  v(e.next)
rescue StopIteration => e
  puts "stop"
rescue StandardError => e
  puts "x " + e.class.to_s
end
"""


class Kill(BaseException):
    pass


class Fib:
    """A fiber: a thread that runs only while it has been resumed."""

    def __init__(self, run):
        self.run, self.state = run, "created"
        self.sem, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.kill = False
        self.thread = None
        self.inbox = self.result = None
        self.saved = ([], 0)


class EnumV:
    def __init__(self, each):
        self.each = each          # each(blk): calls the iterating method with the block
        self.fib = None
        self.done = False


class It(ctl.Interp):
    def __init__(self, methods):
        ctl.Interp.__init__(self, methods)
        self.cur = None
        self.fibs = []
        self.order = []

    # -- fibers
    def resume(self, f, args):
        if f.state in ("running", "dead"):
            self.count("resume of a %s fiber" % f.state)
            raise RErr("FiberError", None)
        first = f.state == "created"
        f.state = "running"
        parent, keep = self.cur, (self.errs, self.depth)
        self.cur = Tok.cur = f
        self.errs, self.depth = f.saved
        f.inbox = args
        self.count("resume")
        if parent is not None:
            self.count("resume in a fiber")
        self.order.append(self.fibs.index(f))
        if first:
            f.thread = threading.Thread(target=self.body, args=(f,), daemon=True)
            f.thread.start()
        else:
            f.sem.release()
        f.back.acquire()
        Tok.cur = parent
        f.saved = (self.errs, self.depth)
        self.errs, self.depth = keep
        self.cur = parent
        what, x = f.result
        if what == "yield":
            f.state = "suspended"
            return x
        f.state = "dead"
        if what == "raise":
            raise x
        return x

    def body(self, f):
        try:
            f.result = ("end", f.run(f.inbox))
        except Kill:
            return
        except BaseException as e:
            f.result = ("raise", e)
        f.back.release()

    def fyield(self, x):
        f = self.cur
        if f is None:
            raise RErr("FiberError", None)
        self.count("yield from fiber")
        f.result = ("yield", x)
        f.back.release()
        f.sem.acquire()
        if f.kill:
            raise Kill
        a = f.inbox
        return a[0] if len(a) == 1 else None if not a else a

    def close(self):
        self.out = []
        self.fuel = -1
        for f in self.fibs:
            if f.state == "suspended":
                f.kill = True
                f.sem.release()
                f.thread.join()
                self.count("abandoned")

    def newfib(self, run):
        f = Fib(run)
        self.fibs.append(f)
        if len(self.fibs) > 60:
            raise Discard
        return f

    def n_fnew(self, n, c):
        cl = self.mkblk(n[2], c, "fiber")
        cl.tok.live = False

        def run(args):
            try:
                return self.call_closure(cl, args)
            except Jump:
                raise Discard
        self.g[n[1]] = self.newfib(run)
        return None

    def n_resume(self, n, c):
        f = self.g.get(n[1])
        args = [self.ev_(x, c) for x in n[2]]
        if f is None:
            raise RErr("NoMethodError", None)
        return self.resume(f, args)

    def n_rs(self, n, c):
        try:
            x = self.n_resume(n, c)
            self.show(x)
            return x
        except RErr as e:
            if "StandardError" not in ctl.HIER[e.cls]:
                raise
            self.out.append("fe" if e.cls == "FiberError" else "x " + e.cls)
            return None

    def n_fyield(self, n, c):
        args = [self.ev_(x, c) for x in n[1]]
        return self.fyield(args[0] if len(args) == 1 else None if not args else args)

    # -- enumerators
    def n_enew(self, n, c):
        args = [self.ev_(x, c) for x in n[3]]
        self.g[n[1]] = EnumV(lambda blk: self.call(n[2], args, blk, c.self_))
        return None

    def n_elist(self, n, c):
        kind, arg = n[2], self.ev_(n[3], c)

        def each(blk):
            y = lambda *a: self.call_closure(blk, list(a))
            if kind in ("times", "upto", "each", "flat", "range"):
                for x in (range(arg) if kind == "times" else range(2, arg + 1) if kind == "upto" else arg):
                    y(x)
                return arg if kind != "upto" else 2
            if kind == "map":
                return [y(x) for x in arg]
            if kind == "select":
                return [x for x in arg if ctl.truthy(y(x))]
            if kind == "each_with_index":
                for i, x in enumerate(arg):
                    y(x, i)
                return arg
            raise AssertionError(kind)
        self.g[n[1]] = EnumV(each)
        return None

    def eget(self, n):
        e = self.g.get(n[1])
        if e is None:
            raise RErr("NoMethodError", None)
        return e

    @staticmethod
    def pack(a):
        return a[0] if len(a) == 1 else None if not a else list(a)

    def native_blk(self, f):
        cl = Closure([], f, None, "prelude")
        return cl

    def enext(self, e):
        if e.done:
            self.count("next past the end")
            raise RErr("StopIteration", None)
        if e.fib is None:
            def run(args):
                try:
                    e.each(self.native_blk(lambda a: self.fyield(self.pack(a))))
                except Jump:
                    raise Discard
                return None
            e.fib = self.newfib(run)
        f = e.fib
        try:
            x = self.resume(f, [])
        except RErr:
            if f.state == "dead":
                e.fib = None       # starts again
            raise
        self.count("next")
        if f.state == "dead":
            e.done = True
            raise RErr("StopIteration", None)
        return x

    def n_enext(self, n, c):
        return self.enext(self.eget(n))

    def n_nx(self, n, c):
        try:
            x = self.enext(self.eget(n))
            self.show(x)
            return x
        except RErr as e:
            if "StandardError" not in ctl.HIER[e.cls]:
                raise
            self.out.append("stop" if e.cls == "StopIteration" else "x " + e.cls)
            return None

    def n_eeach(self, n, c):
        e = self.eget(n)
        kind = n[2]
        blk = self.mkblk(n[3], c)
        self.count("enumerator " + kind)

        def f():
            if kind == "each":
                return e.each(blk)
            if kind == "with_index":
                k = [-1]

                def g(a):
                    k[0] += 1
                    return self.call_closure(blk, [self.pack(a), k[0]])
                return e.each(self.native_blk(g))
            res = []
            e.each(self.native_blk(lambda a: res.append(self.call_closure(blk, [self.pack(a)]))))
            return res
        return self.with_block(blk, f)

    def n_loop(self, n, c):
        cl = self.mkblk(n[1], c)

        def f():
            try:
                while True:
                    self.call_closure(cl, [])
            except RErr as e:
                if e.cls != "StopIteration":
                    raise
                self.count("loop ended by StopIteration")
        self.with_block(cl, f)
        return None

    def n_native(self, n, c):
        try:
            return ctl.Interp.n_native(self, n, c)
        except RErr as e:
            if n[1] == "loop" and e.cls == "StopIteration":
                raise Discard      # the value of the loop is not modelled
            raise

    def n_return(self, n, c):
        if c.ret.fib is not self.cur:
            if n[1]:
                self.ev_(n[1], c)
            self.count("return out of a fiber")
            raise RErr("LocalJumpError", None)
        return ctl.Interp.n_return(self, n, c)

    def n_break(self, n, c):
        kind, tok, cl = c.loop
        if kind != "while" and cl.kind != "lambda" and (cl.kind == "fiber" or cl.tok.fib is not self.cur):
            if n[1]:
                self.ev_(n[1], c)
            self.count("break out of a fiber")
            raise RErr("LocalJumpError", None)
        return ctl.Interp.n_break(self, n, c)

    def n_gc(self, n, c):
        return None


def text15(n):
    T = ctl.text
    k = n[0]
    args = lambda a: "(" + ", ".join(T(x) for x in a) + ")" if a else ""
    if k == "fnew":
        return "(%s = Fiber.new%s; nil)" % (n[1], ctl.blk(n[2]))
    if k == "resume":
        return "%s.resume(%s)" % (n[1], ", ".join(T(x) for x in n[2]))
    if k == "rs":
        return "rs(%s)" % ", ".join([n[1]] + [T(x) for x in n[2]])
    if k == "fyield":
        return "(Fiber.yield%s)" % args(n[1])
    if k == "enew":
        return "(%s = to_enum(%s); nil)" % (n[1], ", ".join([":" + n[2]] + [T(x) for x in n[3]]))
    if k == "elist":
        a = T(n[3])
        e = {"times": "%s.times", "upto": "2.upto(%s)", "each": "%s.each", "map": "%s.map", "select": "%s.select", "flat": "Enumerator.new(%s)",
             "each_with_index": "%s.each_with_index"}[n[2]] % a
        return "(%s = %s; nil)" % (n[1], e)
    if k == "enext":
        return "%s.next()" % n[1]
    if k == "nx":
        return "nx(%s)" % n[1]
    if k == "eeach":
        return "%s.%s%s" % (n[1], n[2], ctl.blk(n[3]))
    if k == "loop":
        return "(loop%s; nil)" % ctl.blk(n[1])
    if k == "gc":
        return "GC.start"
    return None


ctl.EXTRA_TEXT.append(text15)


class G(ctl.Gen):
    def __init__(self, r, tag, feats):
        ctl.Gen.__init__(self, r, tag, feats)
        self.F = ["$f%d%s" % (i, tag) for i in range(r.randint(2, 4))]
        self.E = ["$e%d%s" % (i, tag) for i in range(2)]
        self.active = False

    def infiber(self, s):
        while s is not None:
            if s.kind == "fiber":
                return True
            s = s.parent
        return False

    def args(self, s, d, most=2):
        return [self.expr(s, 0) for _ in range(self.r.choice((0, 1, 1, 1, 2)[:most + 3]))]

    def fiber(self, s, d, name=None):
        ps = [self.fresh() for _ in range(self.r.choice((0, 1, 1, 2)))]
        b = Scope("fiber", s, ps)
        body = []
        for k in range(self.r.randint(1, 4)):
            body += self.stmts(b, d)
            if body[-1][0] in ("return", "break", "next", "raise", "reraise"):
                if self.r.random() < 0.3:
                    break
                body[-1] = ("if", ("bin", "<", ("lit", self.r.randint(0, 9)), ("lit", 3)), [body[-1]], [])
            if self.r.random() < 0.8:
                y = ("fyield", [self.expr(b, 0) for _ in range(self.r.choice((0, 1, 1, 1, 2)))])
                w = self.r.random()
                body.append(y if w < 0.25 else ("v", y) if w < 0.5 else ("asg", self.target(b), y) if w < 0.75 else
                            ("v", ("arr", [("t", self.mark(), ("lit", 1)), y, ("t", self.mark(), y)])))
        return ("fnew", name or self.r.choice(self.F), (ps, body))

    def special(self, s, d):
        r = self.r
        k = r.random()
        if self.infiber(s) and k < 0.5:
            return ("fyield", [self.expr(s, 0) for _ in range(r.choice((0, 1, 1, 1, 2)))])
        if k < 0.72:
            return ("resume", r.choice(self.F), self.args(s, d))
        if k < 0.84:
            return ("enext", r.choice(self.E))
        ps = [self.fresh() for _ in range(r.randint(1, 2))]
        b = Scope("native", s, ps)
        return ("eeach", r.choice(self.E), r.choice(("each", "map", "with_index", "collect")), (ps, self.stmts(b, d - 1, last=True)))

    def expr(self, s, d):
        if self.active and self.budget > 0 and d > 0 and self.r.random() < 0.22:
            self.budget -= 2
            return self.special(s, d)
        return ctl.Gen.expr(self, s, d)

    def stmt(self, s, d):
        r = self.r
        if self.active and self.budget > 0 and r.random() < 0.3:
            self.budget -= 2
            k = r.random()
            if k < 0.3:
                return ("v", self.special(s, d))
            if k < 0.45:
                return ("asg", self.target(s), self.special(s, d))
            if k < 0.6:
                return ("rs", r.choice(self.F), self.args(s, d))
            if k < 0.7:
                return ("nx", r.choice(self.E))
            if k < 0.75:
                return ("gc",)
            if k < 0.82 and d > 1:
                return self.fiber(s, d - 1)
            if k < 0.9:
                return self.enew(s)
            if k < 0.94 and d > 1:
                b = Scope("native", s, [])
                i = self.fresh("i")
                s.vars.append(i)
                body = self.stmts(b, d - 2)
                x = ("v", ("enext", r.choice(self.E))) if r.random() < 0.7 else ("v", ("fyield", [])) if self.infiber(s) else ("puts", "s%d" % self.mark())
                return ("seq", [("asg", i, ("lit", 0)),
                                ("loop", ([], [("if", ("bin", ">", ("op", i, "+", ("lit", 1)), ("lit", r.randint(1, 5))), [("break", None)], []), x] + body))])
            return ("begin", [("v", self.special(s, d))], [([], None, [("puts", "s%d" % self.mark())])], None,
                    [("puts", "n%d" % self.mark())] if r.random() < 0.5 else None)
        return ctl.Gen.stmt(self, s, d)

    def iterator(self):
        """A method that yields several times."""
        r = self.r
        name = "it%s_%d" % (self.t, self.mark())
        params = [self.fresh("a") for _ in range(r.randint(0, 1))]
        s = Scope("method", None, params)
        s.blk = True
        y = lambda: ("yield", [self.expr(s, 0) for _ in range(r.choice((0, 1, 1, 1, 2)))])
        body = []
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < 0.3:
                body.append(("v", y()))
            elif k < 0.5:
                x = self.fresh("i")
                b = Scope("native", s, [x])
                body.append(("native", r.choice(("each", "map")), ("arr", [("lit", r.randint(0, 9)) for _ in range(r.randint(1, 3))]),
                             ([x], [("v", ("yield", [("var", x)]))])))
            elif k < 0.65:
                i = self.fresh("i")
                s.vars.append(i)
                body.append(("seq", [("asg", i, ("lit", 0)), ("while", ("bin", "<", ("op", i, "+", ("lit", 1)), ("lit", r.randint(2, 4))), True,
                                                                [("asg", self.target(s), ("yield", [("var", i)]))])]))
            elif k < 0.8:
                body.append(("begin", [y()] + self.stmts(s, 1), [([], None, [("puts", "r%d" % self.mark())])] if r.random() < 0.5 else [], None,
                             [("puts", "n%d" % self.mark())]))
            else:
                body += self.stmts(s, 1)
                if body[-1][0] in ("return", "raise", "reraise"):
                    body[-1] = ("if", ("bin", "<", ("lit", self.r.randint(0, 9)), ("lit", 3)), [body[-1]], [])
        body.append(self.expr(s, 1))
        self.methods[name] = (params, ("seq", body), True)
        self.order.append(name)
        return name, params, ("seq", body)

    def enew(self, s):
        r = self.r
        its = [n for n in self.order if self.methods[n][2]]
        if its and r.random() < 0.6:
            n = r.choice(its)
            return ("enew", r.choice(self.E), n, [("lit", r.randint(0, 9)) for _ in self.methods[n][0]])
        kind = r.choice(("times", "upto", "each", "map", "select", "flat", "each_with_index"))
        arg = ("lit", r.randint(0, 4)) if kind in ("times", "upto") else ("arr", [("lit", r.randint(0, 9)) for _ in range(r.randint(0, 4))])
        return ("elist", r.choice(self.E), kind, arg)


def program(r, tag):
    g = G(r, tag, FEATS)
    src = ""
    # iterating methods, then methods that use fibers, then the main method
    for _ in range(r.randint(1, 2)):
        g.budget = 25
        name, params, body = g.iterator() if r.random() < 0.7 else g.make_method(2)
        src += ctl.method(name, params, body)
    g.active = True
    if r.random() < 0.5:
        g.budget = 40
        name, params, body = g.make_method(2)
        src += ctl.method(name, params, body)
    main = "main" + tag
    s = Scope("method", None, ["a1"])
    s.blk = False
    body = []
    for f in g.F:
        g.budget = 50
        body.append(g.fiber(s, 3, f))
    for e in g.E:
        x = g.enew(s)
        body.append((x[0], e) + x[2:])
    for _ in range(r.randint(6, 16)):
        g.budget = 12
        k = r.random()
        if k < 0.6:
            body.append(("rs", r.choice(g.F), [("lit", r.randint(10, 99)) for _ in range(r.choice((0, 1, 1, 2)))]))
        elif k < 0.75:
            body.append(("nx", r.choice(g.E)))
        elif k < 0.8:
            body.append(("gc",))
        else:
            body.append(("begin", [g.stmt(s, 2)], [(["Exception"], None, [("puts", "s%d" % g.mark())])], None, None))
    src += ctl.method(main, ["a1"], ("seq", body))
    src += "begin\n  v(%s(%d))\nrescue Exception => e\n  puts '!' + e.class.to_s\nend\n" % (main, 7)
    meths = {k: (p, b) for k, (p, b, _) in g.methods.items()}
    meths[main] = (["a1"], ("seq", body))
    it = It(meths)
    it.fuel = 6000
    Tok.cur = None
    Discard.hit = False
    try:
        try:
            it.show(it.call(main, [7], None, None))
        except RErr as e:
            it.out.append("!" + e.cls)
        if Discard.hit:
            raise Discard
        return src, list(it.out), it.ev, tuple(it.order)
    finally:
        it.close()


def gen(r, tag, seen):
    while True:
        try:
            src, out, ev, order = program(r, tag)
        except (Discard, Jump):
            continue
        if len(order) < 4 and r.random() < 0.8:
            continue
        seen.add(order)
        return Case(src, out, tuple(sorted(ev)), "raw")


FIXED = [
    ("f = Fiber.new { |a| f.resume(1) }\nrs(f)\nrs(f)\n", ["fe", "fe"]),
    ("f = nil\ng = Fiber.new { rs(f); 2 }\nf = Fiber.new { rs(g); 1 }\nrs(f)\nrs(f)\nrs(g)\n", ["fe", "=2", "=1", "fe", "fe"]),
    ("f = Fiber.new { break 5 }\nrs(f)\nrs(f)\n", ["x LocalJumpError", "fe"]),
    ("def m1; f = Fiber.new { return 5 }; rs(f); 7; end\nv(m1)\n", ["x LocalJumpError", "=7"]),
    ("f = Fiber.new { begin; break 5; rescue LocalJumpError; 6; end }\nrs(f)\n", ["=6"]),
    ("begin\nFiber.yield 1\nrescue FiberError => e\nputs 'fe'\nend\n", ["fe"]),
    ("f = Fiber.new { |*a| [a, Fiber.yield(1, 2)] }\nrs(f, 1, 2, 3)\nrs(f, 4, 5)\n", ["=[1, 2]", "=[[1, 2, 3], [4, 5]]"]),
    ("f = Fiber.new { |a, b = 7, *c, d| [a, b, c, d] }\nrs(f, 1, 2)\n", ["=[1, 7, [], 2]"]),
    ("f = Fiber.new { a = 5 if false; Fiber.yield(a); a }\nrs(f, 3)\nrs(f)\n", ["=nil", "=nil"]),
    ("def deep(n) n == 0 ? Fiber.yield(:deep) : [n].map { |x| deep(n - 1) }; end\nf = Fiber.new { deep(9) }\nrs(f)\nrs(f, 3)\n",
     ["=:deep", "=[[[[[[[[[3]]]]]]]]]"]),
    ("f = Fiber.new { \"#{Fiber.yield 1}-#{Fiber.yield 2}\" }\nrs(f)\nrs(f, :a)\nrs(f, 'b')\n", ["=1", "=2", '="a-b"']),
    ("f = Fiber.new { { Fiber.yield(1) => Fiber.yield(2), 3 => [Fiber.yield(3)] } }\nrs(f)\nrs(f, :a)\nrs(f, :b)\nrs(f, :c)\n",
     ["=1", "=2", "=3", "={:a=>:b, 3=>[:c]}"]),
    ("f = Fiber.new { [3, 1, 2].sort { |a, b| Fiber.yield([a, b].sort); a <=> b } }\nx = f.resume\nx = f.resume while x.size == 2\nv(x)\n", ["=[1, 2, 3]"]),
    ("class Q1; def to_s; Fiber.yield(:s); 'q'; end; def ==(o) Fiber.yield(:eq); true; end; def method_missing(n, *a) Fiber.yield(n); a; end; end\n"
     "q = Q1.new\nf = Fiber.new { [\"<#{q}>\", [q].include?(1), q.foo(2)] }\nrs(f)\nrs(f)\nrs(f)\nrs(f)\nrs(f)\n",
     ["=:s", "=:eq", "=:foo", '=["<q>", true, [2]]', "fe"]),
    ("e = [1, 2].each\nd = e.dup\nv([e.next, d.next, d.next, e.next])\nnx(e)\nnx(d)\n", ["=[1, 1, 2, 2]", "stop", "stop"]),
    ("e = [5, 6].each\ne.next\nbegin\ne.dup\nrescue TypeError\nputs 'te'\nend\n", ["te"]),
    ("v((4..7).each.with_index.map { |x, y| x * y })\nv(%w(a b).map.with_index { |x, i| [x, i] })\nv([7, 8].each.with_index(1) { |x, i| v([x, i]) })\n",
     ["=[0, 5, 12, 21]", '=[["a", 0], ["b", 1]]', "=[7, 1]", "=[8, 2]", "=[7, 8]"]),
    ("v([3, 4].each_with_index.map { |x| x })\nv([1, 2, 3].select.with_index { |x, i| i > 0 })\nv([1, 2].map.map { |x| x })\n",
     ["=[[3, 0], [4, 1]]", "=[2, 3]", "=[1, 2]"]),
    ("e = [1, 2, 3].each\nx = []\nwhile true\nbegin\nx << e.next\nrescue StopIteration\nbreak\nend\nend\nv(x)\n", ["=[1, 2, 3]"]),
    ("class I1; def each; yield 1; raise StopIteration, 'mine'; end; end\ne = I1.new.to_enum\nnx(e)\nbegin\ne.next\nrescue StopIteration => z\nv(z.message)\nend\n"
     "begin\ne.each { }\nrescue StopIteration => z\nv(z.message)\nend\n", ["=1", '="mine"', '="mine"']),
    ("class I2; def each; yield 1; yield 2, 3; yield; :ret; end; end\ne = I2.new.to_enum\nnx(e)\nnx(e)\nnx(e)\nnx(e)\nnx(e)\nv(e.each { |x| v(x) })\nv(e.map { |x| x })\n",
     ["=1", "=[2, 3]", "=nil", "stop", "stop", "=1", "=2", "=nil", "=:ret", "=[1, [2, 3], nil]"]),
    ("fs = (0...20).map { |i| Fiber.new { |x| 20.times { |j| x = Fiber.yield(x * 100 + i) }; x } }\n"
     "t = 0\n20.times { |k| fs.each { |f| t += f.resume(k) } }\nv(t)\nv(fs.map { |f| f.resume(1) })\nv(fs.map { |f| begin; f.resume(1); rescue FiberError; :dead; end }.last)\n",
     ["=383800", "=[%s]" % ", ".join("1" for _ in range(20)), "=:dead"]),
    ("x = 0\n3000.times { |i| f = Fiber.new { |a| Fiber.yield(a + 1); x += 1 }; x += f.resume(i) - i; f.resume if i % 3 == 0 }\nv(x)\n", ["=4000"]),
]


def check(chk):
    threading.stack_size(16 << 20)
    chk.rule = ("random programs with two to four fibers and two enumerators, over program-defined iterating methods and builtin ones, that resume each "
                "other in random order, from nested calls, blocks, loops, ensure and rescue clauses and operands of expressions, share local "
                "variables, end by value, next, exceptions or not at all; a reference interpreter that runs each fiber in a thread of its own gives "
                "every value and the order of all effects; part of the programs run with a collection at every few safe points and freed memory "
                "poisoned; distinct by source text")
    chk.assumptions = ["no break or return out of a fiber except for fixed probes", "Fiber.yield inside an iterating method run by next is not generated"]
    r = chk.rng("prog")
    seen = set()
    cases = [gen(r, "_%d" % i, seen) for i in range(chk.scale(3000, 60000))]
    fixed = [Case(s, o, ("fixed",), "raw") for s, o in FIXED]
    chk.run(cases + fixed, size=20, prelude=PRE)
    cases = [gen(r, "_g%d" % i, seen) for i in range(chk.scale(1000, 15000))]
    chk.extra["distinct schedules"] = len(seen)
    chk.run(cases, size=20, prelude=PRE, mon="gc=every:5,poison,stats")
