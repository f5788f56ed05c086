"""Programs of control flow and closures: a generator of syntax trees, their Ruby text, and a reference interpreter."""
import zlib

from rb import RStr, ins

PRELUDE = r"""
def v(x)
  puts "=" + x.inspect
  x
end
def t(k, x)
  puts "t#{k}"
  x
end
class E1 < StandardError
end
class E2 < E1
end
class E3 < StandardError
end
class X1 < Exception
end
def pass
  yield
end
def pass1(x)
  yield x
end
def twice
  yield 1
  yield 2
end
def fuse
  $f += 1
  $f == $k1 || $f == $k2
end
def trip(x)
  raise E2, "trip" if fuse
  x
end
def keep(&b)
  b
end
def ens
  puts "ens-in"
  x = yield 5
  puts "ens-mid"
  x
ensure
  puts "ens-out"
end
def res
  yield 7
rescue E1 => e
  puts "res " + e.message
  :res
end
def fwd(&b)
  x = pass1(3, &b)
  puts "fwd"
  x
end
def outer2
  x = pass { yield 9 }
  puts "outer2"
  x
end
"""
HIER = {"E1": ("E1", "StandardError", "Exception"), "E2": ("E2", "E1", "StandardError", "Exception"),
        "E3": ("E3", "StandardError", "Exception"), "X1": ("X1", "Exception"),
        "RuntimeError": ("RuntimeError", "StandardError", "Exception"),
        "NoMethodError": ("NoMethodError", "NameError", "StandardError", "Exception"),
        "TypeError": ("TypeError", "StandardError", "Exception"),
        "ArgumentError": ("ArgumentError", "StandardError", "Exception"),
        "LocalJumpError": ("LocalJumpError", "StandardError", "Exception"),
        "FiberError": ("FiberError", "StandardError", "Exception"),
        "StopIteration": ("StopIteration", "IndexError", "StandardError", "Exception"),
        "ZeroDivisionError": ("ZeroDivisionError", "StandardError", "Exception")}


EXTRA_TEXT = []       # functions that give the text of the nodes a check adds, or None


class Discard(Exception):
    """The reference interpreter has no opinion on this program."""
    hit = False

    def __init__(self):
        Discard.hit = True      # whatever an ensure clause replaces it with


class RErr(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg

    def inspect(self):
        raise Discard


class Jump(Exception):
    def __init__(self, tok, val):
        self.tok, self.val = tok, val


class Break(Jump):
    pass


class Next(Jump):
    pass


class Return(Jump):
    pass


class Tok:
    cur = None      # the fiber that runs

    def __init__(self):
        self.live = True
        self.fib = Tok.cur


class Env:
    def __init__(self, parent=None):
        self.v, self.parent = {}, parent

    def find(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e
            e = e.parent
        return None


def assigned(n, out):
    """The local variables the text assigns to, but for the blocks in it."""
    if isinstance(n, list):
        for x in n:
            assigned(x, out)
    elif isinstance(n, tuple) and n and isinstance(n[0], str):
        if n[0] in ("asg", "op", "oror", "for"):
            out.append(n[1])
        if n[0] == "case":
            assigned([n[1], [v for v, _ in n[2]], [b for _, b in n[2]], n[3]], out)
        elif n[0] == "begin":
            out += [v for _, v, _ in n[2] if v]
            assigned([n[1], [b for _, _, b in n[2]], n[3], n[4]], out)
        else:
            for x in n[1:]:
                assigned(x, out)
    return out


class Ctx:
    """What a piece of code runs in: variables, the block of its method, where return and break/next go, self."""
    __slots__ = ("env", "block", "ret", "loop", "self_", "err")

    def __init__(self, env, block, ret, loop, self_):
        self.env, self.block, self.ret, self.loop, self.self_ = env, block, ret, loop, self_

    def with_(self, **k):
        c = Ctx(self.env, self.block, self.ret, self.loop, self.self_)
        for a, b in k.items():
            setattr(c, a, b)
        return c


class Closure:
    def __init__(self, params, body, ctx, kind):
        self.params, self.body, self.ctx, self.kind = params, body, ctx, kind
        self.tok = Tok()      # break target


TRUE, FALSE, NIL = True, False, None


def truthy(x):
    return x is not None and x is not False


class Interp:
    def __init__(self, methods, globs=None):
        self.m = methods          # name -> (params, body node)
        self.out = []
        self.fuse, self.fires = 0, ()
        self.fuel = 3000
        self.g = globs if globs is not None else {}
        self.errs = []            # the exceptions being handled (for a bare raise)
        self.depth = 0
        self.ev = {}

    def count(self, k):
        self.ev[k] = self.ev.get(k, 0) + 1

    def show(self, x):
        self.out.append("=" + self.ins(x))

    def ins(self, x):
        if isinstance(x, (Closure, RErr)):
            raise Discard
        if isinstance(x, list):
            return "[" + ", ".join(self.ins(y) for y in x) + "]"
        return ins(x)

    def seq(self, nodes, c):
        x = None
        for n in nodes:
            x = self.ev_(n, c)
        return x

    def call_closure(self, cl, args, self_=None):
        self.tick()
        if cl.kind == "prelude":
            return cl.body(args)
        env = Env(cl.ctx.env)
        lam = cl.kind == "lambda"
        if lam and len(args) != len(cl.params):
            raise RErr("ArgumentError", None)
        if not lam and len(args) == 1 and isinstance(args[0], list) and len(cl.params) > 1:
            args = args[0]
        for i, p in enumerate(cl.params):
            env.v[p] = args[i] if i < len(args) else None
        for p in assigned(cl.body, []):
            if env.find(p) is None:
                env.v[p] = None
        tok = Tok()
        c = cl.ctx.with_(env=env, loop=("block", tok, cl))
        if lam:
            c.ret = tok
        try:
            return self.seq(cl.body, c)
        except Next as e:
            if e.tok is tok:
                self.count("next")
                return e.val
            raise
        except Return as e:
            if lam and e.tok is tok:
                self.count("return from lambda")
                return e.val
            raise
        except Break as e:
            if lam and e.tok is cl.tok:
                self.count("break from lambda")
                return e.val
            raise
        finally:
            tok.live = False

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Discard

    def call(self, name, args, blk, self_):
        self.tick()
        self.depth += 1
        if self.depth > 60:
            raise Discard
        try:
            return self.call_(name, args, blk, self_)
        finally:
            self.depth -= 1

    def call_(self, name, args, blk, self_):
        y = lambda *a: self.yield_(blk, list(a))
        if name == "pass":
            return y()
        if name == "pass1":
            return y(args[0])
        if name == "twice":
            y(1)
            return y(2)
        if name == "keep":
            return blk
        if name == "ens":
            try:
                self.out.append("ens-in")
                x = y(5)
                self.out.append("ens-mid")
                return x
            finally:
                self.out.append("ens-out")
        if name == "res":
            try:
                return y(7)
            except RErr as e:
                if "E1" in HIER[e.cls]:
                    self.out.append("res " + e.msg)
                    from rb import Sym
                    return Sym("res")
                raise
        if name == "fwd":
            x = self.yield_(blk, [3])
            self.out.append("fwd")
            return x
        if name == "outer2":
            x = y(9)
            self.out.append("outer2")
            return x
        params, body = self.m[name]
        if len(params) != len(args):
            raise RErr("ArgumentError", None)
        tok = Tok()
        env = Env()
        for p in assigned(body, []):
            env.v[p] = None
        for p, a in zip(params, args):
            env.v[p] = a
        c = Ctx(env, blk, tok, None, self_)
        try:
            return self.ev_(body, c)
        except Return as e:
            if e.tok is tok:
                self.count("return")
                return e.val
            raise
        finally:
            tok.live = False

    def yield_(self, blk, args):
        if blk is None:
            raise RErr("LocalJumpError", None)
        return self.call_closure(blk, args)

    def with_block(self, blk, f):
        """The call a literal block belongs to: break ends it."""
        if blk is None:
            return f()
        try:
            return f()
        except Break as e:
            if e.tok is blk.tok:
                self.count("break from block")
                return e.val
            raise
        finally:
            blk.tok.live = False

    def mkblk(self, b, c, kind="block"):
        if b is None:
            return None
        params, body = b
        return Closure(params, body, c, kind)

    def arith(self, op, a, b):
        num = lambda x: isinstance(x, int) and not isinstance(x, bool)
        if op == "==":
            if isinstance(a, (Closure, RErr)) or isinstance(b, (Closure, RErr)):
                raise Discard
            return type(a) is type(b) and a == b
        if op == "+" and isinstance(a, list):
            if isinstance(b, list):
                return a + b
            raise RErr("TypeError", None)
        if not num(a):
            if isinstance(a, (list, str, Closure)):
                raise Discard
            raise RErr("NoMethodError", None)
        if not num(b):
            if op in "<>":
                raise RErr("ArgumentError", None)
            raise RErr("TypeError", None)
        if abs(a) > 1 << 200:
            raise Discard
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: a < b, ">": lambda: a > b,
                "/": lambda: self.div(a, b)}[op]()

    def div(self, a, b):
        if b == 0:
            raise RErr("ZeroDivisionError", None)
        return a // b

    def ev_(self, n, c):
        self.tick()
        k = n[0]
        f = getattr(self, "n_" + k)
        return f(n, c)

    def n_lit(self, n, c):
        return n[1]

    def n_var(self, n, c):
        e = c.env.find(n[1])
        return e.v[n[1]] if e else None

    def n_gvar(self, n, c):
        return self.g.get(n[1])

    def n_gasg(self, n, c):
        x = self.ev_(n[2], c)
        self.g[n[1]] = x
        return x

    def n_asg(self, n, c):
        # the variable belongs to the scope that mentions it first; the generator says which
        x = self.ev_(n[2], c)
        self.setvar(n[1], x, c)
        return x

    def setvar(self, name, x, c):
        e = c.env.find(name)
        (e or c.env).v[name] = x

    def n_decl(self, n, c):
        return None

    def n_fuse(self, n, c):
        self.fuse += 1
        return self.fuse in self.fires

    def n_trip(self, n, c):
        x = self.ev_(n[1], c)
        if self.n_fuse(n, c):
            raise RErr("E2", "trip")
        return x

    def n_op(self, n, c):
        x = self.arith(n[2], self.n_var(("var", n[1]), c), self.ev_(n[3], c))
        self.setvar(n[1], x, c)
        return x

    def n_oror(self, n, c):
        x = self.n_var(("var", n[1]), c)
        if truthy(x):
            return x
        x = self.ev_(n[2], c)
        self.setvar(n[1], x, c)
        return x

    def n_bin(self, n, c):
        a = self.ev_(n[2], c)
        return self.arith(n[1], a, self.ev_(n[3], c))

    def n_and(self, n, c):
        a = self.ev_(n[1], c)
        return self.ev_(n[2], c) if truthy(a) else a

    def n_or(self, n, c):
        a = self.ev_(n[1], c)
        return a if truthy(a) else self.ev_(n[2], c)

    def n_not(self, n, c):
        return not truthy(self.ev_(n[1], c))

    def n_arr(self, n, c):
        return [self.ev_(x, c) for x in n[1]]

    def n_v(self, n, c):
        x = self.ev_(n[1], c)
        self.show(x)
        return x

    def n_t(self, n, c):
        x = self.ev_(n[2], c)
        self.out.append("t%d" % n[1])
        return x

    def n_puts(self, n, c):
        self.out.append(n[1])
        return None

    def n_seq(self, n, c):
        return self.seq(n[1], c)

    def n_if(self, n, c):
        if truthy(self.ev_(n[1], c)):
            return self.seq(n[2], c)
        return self.seq(n[3], c)

    def n_case(self, n, c):
        x = self.ev_(n[1], c)
        for vals, body in n[2]:
            for w in vals:
                w = self.ev_(w, c)
                if isinstance(w, type(x)) and w == x and type(w) is type(x):
                    return self.seq(body, c)
        return self.seq(n[3], c)

    def n_while(self, n, c):
        tok = Tok()
        b = c.with_(loop=("while", tok, None))
        first = len(n) > 4
        try:
            while first or truthy(self.ev_(n[1], c)) == n[2]:
                first = False
                self.tick()
                try:
                    self.seq(n[3], b)
                except Next as e:
                    if e.tok is not tok:
                        raise
                    self.count("next in while")
            return None
        except Break as e:
            if e.tok is tok:
                self.count("break from while")
                return e.val
            raise

    def n_for(self, n, c):
        tok = Tok()
        b = c.with_(loop=("while", tok, None))
        it = self.ev_(n[2], c)
        try:
            for x in it:
                self.tick()
                self.setvar(n[1], x, c)
                try:
                    self.seq(n[3], b)
                except Next as e:
                    if e.tok is not tok:
                        raise
                    self.count("next in for")
            return it
        except Break as e:
            if e.tok is tok:
                self.count("break from for")
                return e.val
            raise

    def n_native(self, n, c):
        kind, arg, b = n[1], n[2], n[3]
        blk = self.mkblk(b, c)
        arg = self.ev_(arg, c) if arg else None

        def f():
            y = lambda *a: self.call_closure(blk, list(a))
            if kind == "times":
                for i in range(arg):
                    y(i)
                return arg
            if kind == "each":
                for x in arg:
                    y(x)
                return arg
            if kind == "map":
                return [y(x) for x in arg]
            if kind == "select":
                return [x for x in arg if truthy(y(x))]
            if kind == "each_with_index":
                for i, x in enumerate(arg):
                    y(x, i)
                return arg
            if kind == "inject":
                acc = 0
                for x in arg:
                    acc = y(acc, x)
                return acc
            if kind == "upto":
                for i in range(1, arg + 1):
                    y(i)
                return 1
            if kind == "loop":
                while True:
                    y()
            raise AssertionError(kind)
        self.count("native " + kind)
        return self.with_block(blk, f)

    def n_call(self, n, c):
        args = [self.ev_(x, c) for x in n[2]]
        blk = n[3]
        if isinstance(blk, tuple) and blk and blk[0] == "amp":
            p = self.ev_(blk[1], c)
            if p is not None and not isinstance(p, Closure):
                raise Discard
            return self.call(n[1], args, p, c.self_)
        cl = self.mkblk(blk, c)
        return self.with_block(cl, lambda: self.call(n[1], args, cl, c.self_))

    def n_yield(self, n, c):
        args = [self.ev_(x, c) for x in n[1]]
        self.count("yield")
        return self.yield_(c.block, args)

    def n_given(self, n, c):
        return c.block is not None

    def n_blockvar(self, n, c):
        return c.block

    def n_lambda(self, n, c):
        return self.mkblk(n[1], c, "lambda")

    def n_proc(self, n, c):
        cl = self.mkblk(n[1], c, "block")
        cl.tok.live = False
        return cl

    def n_pcall(self, n, c):
        p = self.ev_(n[1], c)
        args = [self.ev_(x, c) for x in n[2]]
        if isinstance(p, RErr):
            raise Discard
        if not isinstance(p, Closure):
            if isinstance(p, (list, str)):
                raise Discard
            raise RErr("NoMethodError", None)
        self.count("proc call")
        return self.call_closure(p, args)

    def n_begin(self, n, c):
        body, rescues, els, ens = n[1:5]
        try:
            try:
                x = self.seq(body, c)
            except RErr as e:
                for classes, var, rb in rescues:
                    cl = classes or ["StandardError"]
                    if any(k in HIER[e.cls] for k in cl):
                        self.count("rescue")
                        if var:
                            self.setvar(var, e, c)
                        self.errs.append(e)
                        try:
                            return self.seq(rb, c)
                        finally:
                            self.errs.pop()
                raise
            if els is not None:
                x = self.seq(els, c)
            return x
        finally:
            if ens is not None:
                self.count("ensure")
                self.seq(ens, c)

    def n_rescuemod(self, n, c):
        try:
            return self.ev_(n[1], c)
        except RErr as e:
            if "StandardError" in HIER[e.cls]:
                self.count("rescue")
                return self.ev_(n[2], c)
            raise

    def n_raise(self, n, c):
        self.count("raise")
        raise RErr(n[1], n[2])

    def n_reraise(self, n, c):
        e = self.ev_(n[1], c)
        if not isinstance(e, RErr):
            raise Discard
        self.count("raise")
        raise e

    def n_bareraise(self, n, c):
        self.count("raise")
        if not self.errs:
            raise RErr("RuntimeError", "")
        raise self.errs[-1]

    def n_msg(self, n, c):
        e = self.n_var(n, c)
        if not isinstance(e, RErr) or e.msg is None:
            raise Discard
        self.out.append("m " + e.cls + " " + e.msg)
        return None

    def n_kls(self, n, c):
        e = self.n_var(n, c)
        if not isinstance(e, RErr):
            raise Discard
        self.out.append("c " + e.cls)
        return None

    def n_return(self, n, c):
        x = self.ev_(n[1], c) if n[1] else None
        if not c.ret.live:
            raise Discard
        raise Return(c.ret, x)

    def n_break(self, n, c):
        x = self.ev_(n[1], c) if n[1] else None
        kind, tok, cl = c.loop
        if kind == "while":
            raise Break(tok, x)
        if cl.kind == "lambda":
            raise Break(cl.tok, x)
        if not cl.tok.live:
            raise Discard
        raise Break(cl.tok, x)

    def n_next(self, n, c):
        x = self.ev_(n[1], c) if n[1] else None
        raise Next(c.loop[1], x)


# ---- Ruby text

def text(n):
    k = n[0]
    if k == "lit":
        return ins(n[1]) if not (isinstance(n[1], int) and not isinstance(n[1], bool) and n[1] < 0) else "(%d)" % n[1]
    if k in ("var", "gvar"):
        return n[1]
    if k in ("asg", "gasg"):
        return "(%s = %s)" % (n[1], text(n[2]))
    if k == "op":
        return "(%s %s= %s)" % (n[1], n[2], text(n[3]))
    if k == "oror":
        return "(%s ||= %s)" % (n[1], text(n[2]))
    if k == "bin":
        return "(%s %s %s)" % (text(n[2]), n[1], text(n[3]))
    if k == "and":
        return "(%s && %s)" % (text(n[1]), text(n[2]))
    if k == "or":
        return "(%s || %s)" % (text(n[1]), text(n[2]))
    if k == "not":
        return "(!%s)" % text(n[1])
    if k == "arr":
        return "[" + ", ".join(text(x) for x in n[1]) + "]"
    if k == "v":
        return "v(%s)" % text(n[1])
    if k == "t":
        return "t(%d, %s)" % (n[1], text(n[2]))
    if k == "puts":
        return "puts(%s)" % ins(RStr(n[1]))
    if k == "seq":
        return "(%s)" % "; ".join(text(x) for x in n[1]) if n[1] else "nil"
    if k == "call":
        b = n[3]
        args = [text(x) for x in n[2]]
        if isinstance(b, tuple) and b and b[0] == "amp":
            args.append("&" + text(b[1]))
            b = None
        s = n[1] + ("(" + ", ".join(args) + ")" if args or b is None else "")
        return s + blk(b)
    if k == "native":
        a = text(n[2]) if n[2] else ""
        kind = n[1]
        if kind == "loop":
            return "loop" + blk(n[3])
        if kind == "upto":
            return "1.upto(%s)%s" % (a, blk(n[3]))
        if kind == "inject":
            return "%s.inject(0)%s" % (a, blk(n[3]))
        return "%s.%s%s" % (a, kind, blk(n[3]))
    if k == "yield":
        return "(yield%s)" % ("(" + ", ".join(text(x) for x in n[1]) + ")" if n[1] else "")
    if k == "given":
        return "block_given?"
    if k == "fuse":
        return "fuse"
    if k == "trip":
        return "trip(%s)" % text(n[1])
    if k == "lambda":
        return "lambda" + blk(n[1])
    if k == "proc":
        return "proc" + blk(n[1])
    if k == "pcall":
        return "%s.call(%s)" % (text(n[1]), ", ".join(text(x) for x in n[2]))
    if k == "rescuemod":
        return "(%s rescue %s)" % (text(n[1]), text(n[2]))
    if k == "raise":
        return "raise(%s, %s)" % (n[1], ins(RStr(n[2])))
    if k == "reraise":
        return "raise(%s)" % text(n[1])
    if k == "bareraise":
        return "raise"
    if k == "msg":
        return 'puts("m " + %s.class.to_s + " " + %s.message)' % (n[1], n[1])
    if k == "kls":
        return 'puts("c " + %s.class.to_s)' % n[1]
    if k in ("return", "break", "next"):
        return k + (" " + text(n[1]) if n[1] else "")
    for f in EXTRA_TEXT:
        s = f(n)
        if s is not None:
            return s
    return "(\n" + stmt(n) + ")"


def blk(b):
    if b is None:
        return ""
    params, body = b
    inner = stmts(body)
    if zlib.crc32(inner.encode()) % 5 == 0:
        # a parameter nothing mentions: another way to pass the arguments, the same meaning
        params = list(params) + ["&_b"]
    ps = "|%s|" % ", ".join(params) if params else ""
    return " { %s\n%s}" % (ps, inner) if not (len(body) % 3 == 2) else " do %s\n%send" % (ps, inner)


def stmts(ns):
    return "".join(stmt(n) for n in ns)


def stmt(n):
    k = n[0]
    if k in ("asg", "gasg"):
        return "%s = %s\n" % (n[1], text(n[2]))
    if k == "op":
        return "%s %s= %s\n" % (n[1], n[2], text(n[3]))
    if k == "if":
        s = "if %s\n%s" % (text(n[1]), stmts(n[2]))
        if n[3]:
            s += "else\n" + stmts(n[3])
        return s + "end\n"
    if k == "case":
        s = "case %s\n" % text(n[1])
        for vals, body in n[2]:
            s += "when %s\n%s" % (", ".join(text(x) for x in vals), stmts(body))
        if n[3]:
            s += "else\n" + stmts(n[3])
        return s + "end\n"
    if k == "while" and len(n) > 4:
        return "begin\n%send %s %s\n" % (stmts(n[3]), "while" if n[2] else "until", text(n[1]))
    if k == "while":
        return "%s %s\n%send\n" % ("while" if n[2] else "until", text(n[1]), stmts(n[3]))
    if k == "for":
        return "for %s in %s\n%send\n" % (n[1], text(n[2]), stmts(n[3]))
    if k == "begin":
        return "begin\n" + begin_body(n) + "end\n"
    if k == "seq":
        return stmts(n[1])
    return text(n) + "\n"


def begin_body(n):
    body, rescues, els, ens = n[1:5]
    s = stmts(body)
    for classes, var, rb in rescues:
        s += "rescue %s%s\n%s" % (", ".join(classes), " => " + var if var else "", stmts(rb))
    if els is not None:
        s += "else\n" + stmts(els)
    if ens is not None:
        s += "ensure\n" + stmts(ens)
    return s


def method(name, params, body):
    b = begin_body(body) if body[0] == "begin" else stmts(body[1])
    return "def %s%s\n%send\n" % (name, "(" + ", ".join(params) + ")" if params else "", b)


# ---- generator

class Scope:
    """What the text at some point may mention."""

    def __init__(self, kind, parent=None, vars=(), blk=False):
        self.kind = kind            # method | native | yield | lambda | proc | top
        self.parent = parent
        self.vars = list(vars)
        self.blk = blk              # the method takes a block
        self.loop = None            # innermost breakable thing inside this scope: None | "while"
        self.fors = 0               # for loops around, inside this scope
        self.enst = 0               # the same, inside this scope
        self.ens = 0                # begin..ensure bodies around, inside this scope and this loop
        self.rescue = 0             # rescue clauses (or else) around, inside this scope

    def visible(self):
        s, r = self, []
        while s is not None:
            r = s.vars + r
            s = s.parent
        return r

    def method(self):
        s = self
        while s.parent is not None:
            s = s.parent
        return s


ALL = {"break_yield", "ret_yield", "ret_lambda", "jump_ensure", "jump_rescue", "subexpr", "bare_raise", "break_lambda", "raise_ensure",
       "yield_in_block", "pend_break", "next_ensure", "ensure_jump", "proc_ret", "pend_ret", "fuse"}


class Gen:
    def __init__(self, r, tag, feats=frozenset(), weights=None):
        self.r, self.t, self.n, self.f = r, tag, 0, set(feats)
        self.methods = {}
        self.order = []
        self.names = []
        self.budget = 0
        self.k = 0
        self.closures = False

    def fresh(self, p="x"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def mark(self):
        self.k += 1
        return self.k

    # -- expressions that raise nothing and jump nowhere, but for what they call
    def atom(self, s):
        r = self.r
        vs = s.visible()
        if vs and r.random() < 0.6:
            return ("var", r.choice(vs[-6:]))
        return ("lit", r.choice((0, 1, 2, 3, r.randint(-9, 30), None, True, False)) if r.random() < 0.4 else r.randint(0, 9))

    def num(self, s):
        """An integer, whatever the variables hold."""
        r = self.r
        k = r.random()
        if k < 0.5:
            return ("lit", r.randint(0, 9))
        return ("bin", r.choice("+-*"), self.intv(s), ("lit", r.randint(0, 4)))

    def intv(self, s):
        ints = [x for x in s.visible() if x[0] == "i"]
        if ints:
            return ("var", self.r.choice(ints))
        return ("lit", self.r.randint(0, 9))

    def cond(self, s):
        r = self.r
        k = r.random()
        if k < 0.4:
            return ("bin", r.choice(("<", ">", "==")), self.num(s), ("lit", r.randint(0, 9)))
        if k < 0.55:
            return ("not", self.atom(s))
        if k < 0.7:
            return (r.choice(("and", "or")), self.atom(s), self.cond(s))
        if k < 0.8 and s.method().blk and s.kind == "method":
            return ("given",)
        return self.atom(s)

    def expr(self, s, d):
        r = self.r
        self.budget -= 1
        if "fuse" in self.f and r.random() < 0.15:
            return ("trip", self.expr(s, d - 1))
        if d <= 0 or self.budget < 0:
            return self.atom(s)
        k = r.random()
        sub = lambda: self.expr(s, d - 1)
        if k < 0.2:
            return self.atom(s)
        if k < 0.32:
            return ("bin", r.choice("+-*"), self.num(s), self.num(s))
        if k < 0.4:
            return ("t", self.mark(), sub())
        if k < 0.46:
            return ("arr", [sub() for _ in range(r.randint(0, 3))])
        if k < 0.5:
            return (r.choice(("and", "or")), sub(), sub())
        if k < 0.66:
            return self.call(s, d)
        if k < 0.8:
            return self.native(s, d)
        if k < 0.85 and s.method().blk:
            return ("yield", [sub() for _ in range(r.randint(0, 2))])
        if k < 0.88 and self.procs(s):
            p = r.choice(self.procs(s))
            return ("pcall", ("var", p), [sub() for _ in range(int(p[-1]))])
        if k < 0.9 and self.closures:
            return ("v", sub())
        if "subexpr" in self.f:
            if k < 0.93:
                return ("seq", [self.begin(s, d - 1)])
            if k < 0.95:
                return ("seq", [self.loopstmt(s, d - 1)])
            if k < 0.97:
                return ("seq", [("if", self.cond(s), self.stmts(s, d - 1), self.stmts(s, d - 1))])
            return ("rescuemod", sub(), sub())
        return ("bin", "+", self.num(s), self.num(s))

    def procs(self, s):
        return [x for x in s.visible() if x[0] == "p"]

    def block(self, s, d, kind, params):
        b = Scope(kind, s, params)
        return (params, self.stmts(b, d - 1, last=True))

    def call(self, s, d):
        r = self.r
        own = self.order
        if own and r.random() < 0.6:
            name = r.choice(own)
            params, _, takes = self.methods[name]
            args = [self.expr(s, d - 1) for _ in params]
            b = None
            if takes and r.random() < 0.85:
                b = self.block(s, d, "yield", [self.fresh() for _ in range(r.randint(0, 2))])
            return ("call", name, args, b)
        name = r.choice(("pass", "pass1", "twice", "ens", "res", "fwd", "outer2"))
        args = [self.expr(s, d - 1)] if name == "pass1" else []
        n = 0 if name == "pass" else r.randint(0, 1)
        return ("call", name, args, self.block(s, d, "yield", [self.fresh() for _ in range(n)]))

    def native(self, s, d):
        r = self.r
        kind = r.choice(("times", "each", "map", "select", "each_with_index", "inject", "upto"))
        if kind in ("times", "upto"):
            arg = ("lit", r.randint(0, 3))
            ps = [self.fresh("i")] if r.random() < 0.8 else []
        else:
            arg = ("arr", [("lit", r.randint(0, 9)) for _ in range(r.randint(0, 3))])
            n = {"inject": 2, "each_with_index": 2}.get(kind, 1)
            ps = [self.fresh("x") for _ in range(n)]
            if kind in ("each", "map", "select"):
                ps = [self.fresh("i")]
        b = Scope("native", s, ps)
        return ("native", kind, arg, (ps, self.stmts(b, d - 1, last=True)))

    # -- statements
    def stmts(self, s, d, last=False):
        r = self.r
        out = []
        n = r.choice((1, 1, 2, 2, 3)) if d > 0 else 1
        mine = len(s.vars)
        for _ in range(n):
            st = self.stmt(s, d)
            out.append(st)
            if st[0] in ("return", "break", "next", "raise", "reraise", "bareraise"):
                break
        if last and r.random() < 0.5 and out[-1][0] not in ("return", "break", "next", "raise", "reraise", "bareraise"):
            out.append(self.expr(s, 1))
        return out

    def target(self, s):
        r = self.r
        vs = [x for x in s.visible() if x[0] == "x"]
        if vs and r.random() < 0.6:
            return r.choice(vs)
        x = self.fresh()
        s.vars.append(x)
        return x

    def stmt(self, s, d):
        r = self.r
        self.budget -= 1
        k = r.random()
        if d <= 0 or self.budget < 0:
            if k < 0.4:
                return ("puts", "s%d" % self.mark())
            if k < 0.6:
                return ("v", self.atom(s))
            if k < 0.78:
                j = self.jump(s)
                if j:
                    return self.late(j)
            return ("v", self.num(s))
        if k < 0.1:
            return ("puts", "s%d" % self.mark())
        if k < 0.22:
            return ("v", self.expr(s, d - 1))
        if k < 0.34:
            e = self.expr(s, d - 1)
            return ("asg", self.target(s), e)
        if k < 0.37:
            e = self.num(s)
            x = self.fresh("i")
            s.vars.append(x)
            return ("asg", x, e)
        if k < 0.41:
            ints = [x for x in s.visible() if x[0] == "i"]
            if ints:
                return ("op", r.choice(ints), r.choice("+-"), ("lit", r.randint(1, 3)))
        if k < 0.51:
            return ("if", self.cond(s), self.stmts(s, d - 1), self.stmts(s, d - 1) if r.random() < 0.6 else [])
        if k < 0.55:
            return ("case", self.num(s), [([("lit", r.randint(0, 9)) for _ in range(r.randint(1, 3))], self.stmts(s, d - 1))
                                          for _ in range(r.randint(1, 3))], self.stmts(s, d - 1) if r.random() < 0.7 else [])
        if k < 0.65:
            return self.loopstmt(s, d)
        if k < 0.8:
            return self.begin(s, d)
        if k < 0.84 and self.closures:
            return self.closure(s, d)
        if k < 0.94:
            c = self.cond(s) if r.random() < 0.5 else None
            j = self.jump(s)
            if j:
                return ("if", c, [j], []) if c else self.late(j)
        return ("v", self.expr(s, d - 1))

    def late(self, j):
        """The jump when some number of such points has been passed."""
        if "fuse" not in self.f or self.r.random() < 0.1:
            return j
        return ("if", ("fuse",), [j], [])

    def closure(self, s, d):
        r = self.r
        n = r.randint(0, 2)
        kind = r.choice(("lambda", "proc"))
        ps = [self.fresh() for _ in range(n)]
        b = Scope(kind, s, ps)
        x = "p%d_%d" % (self.mark(), n)
        node = ("asg", x, (kind, (ps, self.stmts(b, d - 1, last=True))))
        s.vars.append(x)
        return node

    def loopstmt(self, s, d):
        r = self.r
        k = r.random()
        old, olde, oldr = s.loop, s.ens, s.rescue
        if k < 0.55:
            i = self.fresh("i")
            s.vars.append(i)
            s.loop, s.ens, s.rescue = "while", 0, 0
            body = self.stmts(s, d - 1)
            s.loop, s.ens, s.rescue = old, olde, oldr
            neg = r.random() < 0.3
            c = ("bin", "<", ("op", i, "+", ("lit", 1)), ("lit", r.randint(1, 4)))
            if neg:
                c = ("bin", ">", ("op", i, "+", ("lit", 1)), ("lit", r.randint(0, 3)))
            w = ("while", c, not neg, body) + (("do",) if r.random() < 0.2 else ())
            if r.random() < 0.4:
                w = ("v", ("seq", [w])) if "subexpr" in self.f else ("asg", self.target(s), ("seq", [w]))
            return ("seq", [("asg", i, ("lit", 0)), w])
        if k < 0.8:
            i = self.fresh("i")
            s.vars.append(i)
            s.loop, s.ens, s.rescue = "while", 0, 0
            s.fors += 1
            body = self.stmts(s, d - 1)
            s.fors -= 1
            s.loop, s.ens, s.rescue = old, olde, oldr
            return ("seq", [("asg", i, ("lit", 0)), ("for", i, ("arr", [("lit", r.randint(0, 9)) for _ in range(r.randint(0, 3))]), body)])
        i = self.fresh("i")
        s.vars.append(i)
        b = Scope("native", s)
        val = self.atom(b) if r.random() < 0.6 else None
        body = self.stmts(b, d - 1)
        body = [("op", i, "+", ("lit", 1)), ("if", ("bin", ">", ("var", i), ("lit", r.randint(0, 3))), [("break", val)], [])] + body
        l = ("native", "loop", None, ([], body))
        return ("seq", [("asg", i, ("lit", 0)), ("asg", self.target(s), l)])

    def begin(self, s, d):
        r = self.r
        has_ens = r.random() < 0.45
        has_res = r.random() < 0.75 or not has_ens
        s.ens += has_ens
        s.enst += has_ens
        body = self.stmts(s, d - 1)
        rescues = []
        els = None
        if has_res:
            s.rescue += 1
            for _ in range(r.choice((1, 1, 2))):
                cl = r.choice(([], [], ["E1"], ["E2"], ["E3"], ["E3", "E2"], ["StandardError"], ["X1", "E1"], ["Exception"], ["NoMethodError", "TypeError"]))
                var = None
                if r.random() < 0.5:
                    var = self.fresh("e")
                    s.vars.append(var)
                rb = self.stmts(s, d - 1)
                if var:
                    if all(c in ("E1", "E2", "E3", "X1") for c in cl) and cl:
                        rb = [("msg", var)] + rb
                    else:
                        rb = [("kls", var)] + rb
                    s.vars.remove(var)
                    if r.random() < 0.12:
                        if rb[-1][0] in ("return", "break", "next", "raise", "reraise", "bareraise"):
                            pass
                        elif not (s.ens and "jump_rescue" not in self.f):
                            rb.append(("reraise", ("var", var)))
                rescues.append((cl, var, rb))
            s.rescue -= 1
            if r.random() < 0.3:
                s.rescue += 1
                els = self.stmts(s, d - 1)
                s.rescue -= 1
        s.ens -= has_ens
        s.enst -= has_ens
        ens = None
        if has_ens:
            if "ensure_jump" in self.f and r.random() < 0.3:
                ens = self.stmts(s, d - 1)
            else:
                ens = [("puts", "n%d" % self.mark())] + ([("v", self.atom(s))] if r.random() < 0.3 else [])
        return ("begin", body, rescues, els, ens)

    def jump(self, s):
        """A raise, return, break or next that is allowed here, or None."""
        r = self.r
        opts = []
        f = self.f
        in_rescue_ens = s.ens and s.rescue
        if not (in_rescue_ens and "jump_rescue" not in f) and not (s.ens and "raise_ensure" not in f):
            opts += ["raise"] * 3
            if s.rescue and "bare_raise" in f:
                opts.append("bareraise")
        # return
        x, ok = s, not (s.fors and s.enst and "outer_ensure" not in f)
        while x.kind != "method":
            if x.kind == "lambda":
                ok = ok and "ret_lambda" in f
                break
            if x.kind == "yield":
                ok = ok and "ret_yield" in f
            elif x.kind == "proc":
                ok = ok and "proc_ret" in f
            elif x.kind == "top":
                ok = False
                break
            if x is not s and (x.enst and "outer_ensure" not in f):
                ok = False
            x = x.parent
            if x is None:
                ok = False
                break
        else:
            if x is not s and x.enst and "outer_ensure" not in f:
                ok = False
        if in_rescue_ens and "jump_rescue" not in f:
            ok = False
        if ok:
            opts.append("return")
        # break, next
        e_ok = not s.ens or "jump_ensure" in f
        if s.loop == "while":
            if e_ok:
                opts += ["break", "next"]
        elif s.kind == "native":
            if e_ok:
                opts += ["break", "next"]
        elif s.kind == "yield":
            if e_ok:
                opts.append("next")
                if "break_yield" in f:
                    opts.append("break")
        elif s.kind == "lambda":
            if e_ok:
                opts.append("next")
                if "break_lambda" in f:
                    opts.append("break")
        elif s.kind == "proc" and e_ok:
            opts.append("next")
        if not opts:
            return None
        k = r.choice(opts)
        if k == "raise":
            return ("raise", r.choice(("E1", "E2", "E3", "E1", "X1", "RuntimeError")), "m%d" % self.mark())
        if k == "bareraise":
            return ("bareraise",)
        return (k, self.expr(s, 1) if r.random() < 0.7 else None)

    def make_method(self, d):
        r = self.r
        name = "m%s_%d" % (self.t, len(self.order) + 1)
        params = [self.fresh("a") for _ in range(r.randint(0, 2))]
        takes = r.random() < 0.6
        s = Scope("method", None, params, takes)
        if r.random() < 0.25:
            b = self.begin(s, d)
            body = b
        else:
            body = ("seq", self.stmts(s, d, last=True))
        self.methods[name] = (params, body, takes)
        self.order.append(name)
        return name, params, body


def program(r, tag, feats, depth=3, budget=90, closures=False, render=None):
    """-> (Ruby source, trace, events) or raises Discard"""
    g = Gen(r, tag, feats)
    g.closures = closures
    g.budget = budget
    src = ""
    for _ in range(r.randint(0, 2)):
        g.budget = budget // 2
        name, params, body = g.make_method(depth - 1)
        src += (render or method)(name, params, body)
    g.budget = budget
    name, params, body = g.make_method(depth)
    src += (render or method)(name, params, body)
    # the call
    args = [r.randint(0, 9) for _ in params]
    takes = g.methods[name][2]
    blkp = ["z"] if takes and r.random() < 0.8 else None
    call = name + ("(" + ", ".join(map(str, args)) + ")" if args else "")
    node = ("call", name, [("lit", a) for a in args],
            (["z"], [("v", ("var", "z")), ("lit", 4)]) if blkp else None)
    meths = {k: (p, b) for k, (p, b, _) in g.methods.items()}
    if "fuse" not in g.f:
        it = run(meths, node, ())
        return src + once(call, blkp), it.out, it.ev
    src = "$f = 0\n" + src
    it = run(meths, node, ())
    # the same method once more for each point at which a jump might start
    n = it.fuse
    plans = [()] + [(i,) for i in range(1, min(n, 9) + 1)]
    for _ in range(min(4, n)):
        plans.append(tuple(sorted((r.randint(1, n + 2), r.randint(1, n + 6)))))
    out = []
    ev = {}
    for p in plans:
        it = run(meths, node, p)
        src += "$f, $k1, $k2 = 0, %d, %d\n" % (p[0] if p else -1, p[-1] if p else -1) + once(call, blkp)
        out += it.out
        for k, c in it.ev.items():
            ev[k] = ev.get(k, 0) + c
    return src, out, ev


def once(call, blkp):
    return "begin\n  v(%s%s)\nrescue Exception => e\n  puts '!' + e.class.to_s\nend\n" % (call, " { |z| v(z); 4 }" if blkp else "")


def run(meths, node, fires):
    it = Interp(meths)
    it.fires = fires
    c = Ctx(Env(), None, Tok(), None, None)
    Discard.hit = False
    try:
        x = it.ev_(node, c)
        it.show(x)
    except RErr as e:
        it.out.append("!" + e.cls)
    except Return:
        raise Discard
    if Discard.hit:
        raise Discard
    return it
