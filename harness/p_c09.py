"""C09: a reference model of argument binding against generated parameter lists and argument lists."""
from core import PRELUDE, Case
from rb import RErr, RHash, RStr, Rng, Sym, ins, lit

PRE = PRELUDE + r"""
def t(k, x)
  puts "t#{k}"
  x
end
"""

NAMES = ["a", "b", "c", "d", "e", "x", "y", "z"]
KW = ["k", "l", "m", "n"]


class Params:
    def __init__(self):
        self.req, self.opt, self.rest, self.post = [], [], None, []     # rest: None | "" | name
        self.kw, self.kwrest, self.block = [], None, None                # kw: (name, default or None)
        self.dele = False

    def names(self):
        r = self.req + [n for n, _ in self.opt] + ([self.rest] if self.rest else []) + self.post
        return r + [n for n, _ in self.kw] + ([self.kwrest] if self.kwrest else [])

    def text(self):
        p = list(self.req) + ["%s = %s" % (n, d.src) for n, d in self.opt]
        if self.rest is not None:
            p.append("*" + self.rest)
        p += self.post
        for n, d in self.kw:
            p.append(n + ":" if d is None else "%s: %s" % (n, d.src))
        if self.kwrest is not None:
            p.append("**" + self.kwrest)
        if self.block:
            p.append("&" + self.block)
        return ", ".join(p)


class Default:
    """A default value: a constant, a traced constant, or something computed from an earlier parameter."""

    def __init__(self, r, earlier):
        self.mark = None
        k = r.random()
        self.v = r.choice((None, 5, Sym("d"), 70, False))
        if k < 0.4:
            self.mark = r.randint(100, 999)
            self.src = "t(%d, %s)" % (self.mark, lit(self.v))
            self.ref = None
        elif k < 0.6 and earlier:
            self.ref = r.choice(earlier)
            self.src = "[%s]" % self.ref
        else:
            self.ref = None
            self.src = lit(self.v)

    def eval(self, env, trace):
        if self.mark is not None:
            trace.append("t%d" % self.mark)
        if self.ref:
            return (env[self.ref],)
        return self.v


def mkparams(r, kind, small=False):
    p = Params()
    ns = list(NAMES)
    shape = r.random()
    nreq = r.choice((0, 0, 1, 1, 2, 3))
    p.req = [ns.pop(0) for _ in range(nreq)]
    if shape < 0.3 or small and shape < 0.6:
        return p           # the simple signature of the fast paths
    for _ in range(r.choice((0, 0, 0, 1, 1, 2))):
        p.opt.append((ns[0], Default(r, p.req + [n for n, _ in p.opt])))
        ns.pop(0)
    if r.random() < 0.4:
        p.rest = "" if r.random() < 0.12 and kind == "method" else "r"
    if (p.opt or p.rest is not None) and r.random() < 0.4:
        p.post = [ns.pop(0) for _ in range(r.choice((1, 1, 2)))]
    if r.random() < 0.4:
        kws = r.sample(KW, r.choice((1, 1, 2, 3)))
        for n in kws:
            d = None if r.random() < 0.35 else Default(r, p.req + [n for n, _ in p.opt] + [n for n, x in p.kw if x])
            p.kw.append((n, d))
    if r.random() < 0.2:
        p.kwrest = "o"
    if r.random() < 0.3:
        p.block = "blk"
    return p


def kind_of_pairs(ps):
    return RHash(ps)


def bind(p, pos, kw, blk, strict, trace):
    """The environment, or RErr("ArgumentError"). kw: list of pairs or None/[]"""
    pos = list(pos)
    takes_kw = bool(p.kw) or p.kwrest is not None
    if kw and not takes_kw:
        pos.append(RHash(kw))
        kw = []
    nreq, nopt, npost = len(p.req), len(p.opt), len(p.post)
    if strict:
        if len(pos) < nreq + npost or (p.rest is None and len(pos) > nreq + nopt + npost):
            raise RErr("ArgumentError")
    else:
        multi = nreq + nopt + npost > 1 or (nreq + npost > 0 and p.rest is not None)
        if len(pos) == 1 and isinstance(pos[0], tuple) and multi:
            pos = list(pos[0])
        if len(pos) < nreq + npost:
            pos += [None] * (nreq + npost - len(pos))
        elif p.rest is None:
            pos = pos[:nreq + nopt + npost]
    env = {}
    for n in p.req:
        env[n] = pos.pop(0)
    post = pos[len(pos) - npost:] if npost else []
    pos = pos[:len(pos) - npost]
    for n, v in zip(p.post, post):
        env[n] = v
    missing = []
    for n, d in p.opt:
        if pos:
            env[n] = pos.pop(0)
        else:
            missing.append((n, d))
    if p.rest:
        env[p.rest] = tuple(pos)
    d = dict((k, v) for k, v in (kw or []) if isinstance(k, Sym))
    other = [(k, v) for k, v in (kw or []) if not isinstance(k, Sym) or k not in [n for n, _ in p.kw]]
    kmiss = []
    for n, df in p.kw:
        if Sym(n) in d:
            env[n] = d[Sym(n)]
        elif df is None:
            raise RErr("ArgumentError")
        else:
            kmiss.append((n, df))
    if other and p.kwrest is None:
        raise RErr("ArgumentError")
    if p.kwrest:
        env[p.kwrest] = RHash(other)
    for n, df in missing + kmiss:
        env[n] = df.eval(env, trace)
    if p.block:
        env[p.block] = blk
    return env


def value(r, block=False):
    k = r.random()
    if k < 0.45:
        return r.randint(0, 99)
    if k < 0.6:
        return r.choice((None, True, Sym("s"), "str", 1.5))
    if k < 0.82:
        return tuple(value(r) for _ in range(r.choice((0, 1, 2, 2, 3, 4))))
    if k < 0.9:
        return RHash([(Sym(r.choice(KW)), r.randint(0, 9))])
    if k < 0.95:
        return RHash([("q", 1)])
    return r.randint(100, 999)


class Args:
    """An argument list: source, values, trace of its evaluation."""

    def __init__(self, r, p, block, variables, allow_kw=True):
        self.trace, self.pos, self.kw, parts = [], [], [], []
        self.vars = variables

        def arg(v, star=""):
            if r.random() < 0.2:
                k = r.randint(1, 99)
                self.trace.append("t%d" % k)
                return "%st(%d, %s)" % (star, k, lit(v))
            if star and r.random() < 0.5 and isinstance(v, (tuple, RHash)):
                n = "g%d" % len(variables)
                variables.append((n, v))
                return star + n
            return star + lit(v)
        # aim at the number of arguments the parameters take, mostly
        lo, hi = len(p.req) + len(p.post), len(p.req) + len(p.post) + len(p.opt)
        if p.rest is not None:
            hi += 3
        n = r.randint(lo, hi) if r.random() < 0.75 else r.randint(0, hi + 2)
        while n > 0 or r.random() < 0.08:
            if r.random() < 0.18:
                k = r.random()
                if k < 0.7:
                    m = min(n, r.choice((0, 1, 2, 3)))
                    v = tuple(value(r) for _ in range(m))
                    ex = list(v)
                elif k < 0.8:
                    v, ex = None, []
                elif k < 0.9:
                    b = r.randint(0, 5)
                    v = Rng(b, b + r.randint(0, 2))
                    ex = list(range(v.b, v.e + 1))
                else:
                    v = RHash([(Sym("h%d" % i), i) for i in range(r.choice((0, 1, 2)))])
                    ex = [(k2, x) for k2, x in v.items()]
                parts.append(arg(v, "*"))
                self.pos += ex
                n -= len(ex)
            else:
                v = value(r)
                parts.append(arg(v))
                self.pos.append(v)
                n -= 1
            if len(parts) > 9:
                break
        if not allow_kw:
            pass
        elif p.kw or p.kwrest is not None:
            want = [n for n, d in p.kw if d is None or r.random() < 0.5]
            if r.random() < 0.15 and want:
                want.pop(r.randrange(len(want)))
            if p.kwrest is not None and r.random() < 0.7 or r.random() < 0.1:
                want += r.sample(["u", "w"], r.choice((1, 2)))
            r.shuffle(want)
            self.kwargs(r, want, parts, arg, p)
        elif r.random() < 0.2:
            self.kwargs(r, r.sample(KW + ["u"], r.choice((0, 1, 2))), parts, arg, p)
        self.src = ", ".join(parts)
        self.blk = None

    def kwargs(self, r, want, parts, arg, p):
        h = RHash()
        done = []
        i = 0
        while i < len(want):
            if r.random() < 0.3:
                m = r.choice((0, 1, 2))
                d = RHash([(Sym(n), value(r)) for n in want[i:i + m]])
                if done and r.random() < 0.3:
                    d[Sym(r.choice(done))] = value(r)
                if r.random() < 0.06:
                    d["str"] = 1
                parts.append(arg(d, "**"))
                for k, v in d.items():
                    h[k] = v
                done += want[i:i + m]
                i += m
            else:
                v = value(r)
                parts.append("%s: %s" % (want[i], arg(v)))
                h[Sym(want[i])] = v
                done.append(want[i])
                i += 1
        if r.random() < 0.05:
            parts.append(arg(RHash(), "**"))
        self.kw = h.items()


def body(r, p, ind="  "):
    """Source that prints the parameters; returns (source, function from env to trace lines)."""
    ns = p.names()
    lst = "[" + ", ".join(ns) + "]"
    form = r.random()
    if form < 0.45:
        s = "v(%s)" % lst
    elif form < 0.6:
        s = "q = 1\nif q == 2\nq2 = 5\nend\nv([q2])\n1.times { v(%s) }" % lst
    elif form < 0.7:
        s = "pr = proc { %s }\nv(pr.call)" % lst
    elif form < 0.8:
        s = "q3 = 7\n" + "".join("%s = [%s]\n" % (n, n) for n in ns[:2]) + "v(%s)\nv(q3)" % lst
    else:
        s = "v(%s)\n" % lst + ("%s << 1\n" % p.rest if p.rest else "") + ("%s[:zz] = 1\n" % p.kwrest if p.kwrest else "")

    def out(env):
        vals = [env[n] for n in ns]
        if form < 0.45 or form >= 0.8:
            return ["=" + ins(vals)]
        if form < 0.6:
            return ["=[nil]", "=" + ins(vals)]
        if form < 0.7:
            return ["=" + ins(vals)]
        return ["=" + ins([(x,) for x in vals[:2]] + vals[2:]), "=7"]
    if p.block:
        s += "\nv(%s ? %s.call : 0)" % (p.block, p.block)
        o2 = lambda env: out(env) + ["=" + ins(env[p.block] if env[p.block] is not None else 0)]
    else:
        o2 = out
    return s, o2


def blockarg(r, a):
    """Adds a block to an argument source: (paren source, suffix, value the block gives)."""
    k = r.random()
    if k < 0.55:
        return a.src, "", None
    if k < 0.75:
        n = r.randint(1, 50)
        return a.src, " { %d }" % n, n
    if k < 0.85:
        n = r.randint(1, 50)
        a.vars.append(("bp", Sym("PROC%d" % n)))
        return a.src + (", " if a.src else "") + "&bp", "", n
    return a.src + (", " if a.src else "") + "&nil", "", None


def setup(variables):
    s, names = "", []
    for n, v in variables:
        if isinstance(v, Sym) and v.startswith("PROC"):
            s += "bp = proc { %s }\n" % v[4:]
        else:
            s += "%s = %s\n" % (n, lit(v))
            names.append((n, v))
    return s, names


def method_case(r):
    p = mkparams(r, "method")
    bsrc, out = body(r, p)
    exp, src = [], ""
    how = r.choice(("direct", "direct", "self", "send", "method", "new", "super", "delegate", "zsuper", "sitems"))
    a = Args(r, p, False, [])
    args, suffix, blk = blockarg(r, a)
    call = None
    pre = ""
    if how == "self":
        pre = "def $f(%s)\n%s\n:ret\nend\n" % (p.text(), bsrc)
        call = "$f(%s)%s" % (args, suffix)
    elif how == "new":
        pre = "class A\ndef initialize(%s)\n%s\nend\nend\n" % (p.text(), bsrc)
        call = "A.new(%s)%s.class" % (args, suffix) if not suffix else "(A.new(%s)%s; A)" % (args, suffix)
    elif how == "super":
        # a superclass behind another method with the same name
        pre = "class A\ndef f(%s)\n%s\n:ret\nend\nend\n" % (p.text(), bsrc)
        mid = setup(a.vars)[0]
        pre += "class B < A\ndef f(i)\n%sx9 = 9\nsuper(%s)%s\nend\nend\n" % (mid, args, suffix)
        call = "B.new.f(1)"
    elif how == "delegate":
        pre = "class A\ndef f(%s)\n%s\n:ret\nend\ndef d(*r, **o, &b)\nf(*r, **o, &b)\nend\nend\n" % (p.text(), bsrc)
        call = "A.new.d(%s)%s" % (args, suffix)
    elif how == "zsuper":
        pre = "class A\ndef f(%s)\n%s\n:ret\nend\nend\n" % (p.text(), bsrc)
        call = "B.new.f(%s)%s" % (args, suffix)
    else:
        pre = "class A\ndef f(%s)\n%s\n:ret\nend\nend\n" % (p.text(), bsrc)
        call = {"direct": "A.new.f(%s)%s", "send": "A.new.send(:f%s)%s", "method": "A.new.method(:f).call(%s)%s",
                "sitems": "[A.new][0].f(%s)%s"}[how]
        call = call % ((", " + args if args else "") if how == "send" else args, suffix)
    sets, names = setup(a.vars)
    if how == "super":
        sets, names = "", []
    ret = "A" if how == "new" else ":ret"
    if how == "zsuper":
        # B#f takes parameters of its own and passes their current values on
        p2 = mkparams(r, "method")
        p2.rest = p2.rest or (None if p2.rest is None else "r")
        p2.opt = [(n, d) for n, d in p2.opt]
        # the caller's arguments are made for p2
        a = Args(r, p2, False, [])
        args, suffix, blk = blockarg(r, a)
        call = "B.new.f(%s)%s" % (args, suffix)
        sets, names = setup(a.vars)
        mod = r.choice([None] + p2.req + [n for n, _ in p2.opt] + [n for n, _ in p2.kw])
        pre += "class B < A\ndef f(%s)\n%ssuper\nend\nend\n" % (p2.text(), "%s = 77\n" % mod if mod else "")
        exp += a.trace
        try:
            t = []
            env = bind(p2, a.pos, a.kw, blk, True, t)
            exp += t
            if mod:
                env[mod] = 77
            pos = [env[n] for n in p2.req] + [env[n] for n, _ in p2.opt] + (list(env[p2.rest]) if p2.rest else [])
            pos += [env[n] for n in p2.post]
            kw = [(Sym(n), env[n]) for n, _ in p2.kw] + (env[p2.kwrest].items() if p2.kwrest else [])
            t = []
            env = bind(p, pos, kw, blk, True, t)
            exp += t + out(env) + ["=:ret"]
        except RErr as e:
            exp += ["!" + e.cls]
    else:
        exp += a.trace
        kw = a.kw
        if how == "super" and kw and not (p.kw or p.kwrest is not None):
            if p.rest is None and len(a.pos) + 1 > len(p.req) + len(p.opt) + len(p.post):
                kw = []      # pinned by the repository's test object_super
        try:
            t = []
            env = bind(p, a.pos, kw, blk, True, t)
            exp += t + out(env) + ["=" + ret]
        except RErr as e:
            exp += ["!" + e.cls]
    src = sets + "begin\nv(%s)\nrescue StandardError => e\nputs '!' + e.class.to_s\nend\n" % call
    if names and how != "super":
        src += "v([%s])\n" % ", ".join(n for n, _ in names)
        exp.append("=" + ins([v for _, v in names]))
    return uniq(r, pre, src, exp, ["method:" + how], r.choice(("top", "def", "block")) if how != "super" else "top")


CTR = [0]


def uniq(r, pre, src, exp, tags, ctx):
    """Names of the case's own classes and methods, so that cases of a process do not meet."""
    import re
    CTR[0] += 1
    n = CTR[0]
    for old in ("A", "B", "C"):
        pre = re.sub(r"\b%s\b" % old, "%s%d" % (old, n), pre)
        src = re.sub(r"\b%s\b" % old, "%s%d" % (old, n), src)
        exp = [re.sub(r"^=%s$" % old, "=%s%d" % (old, n), x) for x in exp]
    pre, src = pre.replace("$f", "f_%d" % n).replace("$g", "g_%d" % n), src.replace("$f", "f_%d" % n).replace("$g", "g_%d" % n)
    return Case(src, exp, tags, ctx, None, None, pre)


def amb(p, a):
    """Calls of blocks whose meaning differs between versions of Ruby."""
    takes_kw = bool(p.kw) or p.kwrest is not None
    one = len(a.pos) == 1 and isinstance(a.pos[0], tuple)
    n = len(p.req) + len(p.opt) + len(p.post)
    if one and takes_kw:
        return True
    if one and len(p.req) + len(p.post) == 0 and len(p.opt) == 1:
        return True
    return False


def block_case(r):
    p = mkparams(r, "block")
    p.block = p.block if r.random() < 0.3 else None
    bsrc, out = body(r, p)
    while True:
        a = Args(r, p, True, [])
        if not amb(p, a):
            break
    strict = False
    how = r.choice(("yield", "yield", "call", "dot", "index", "bcall", "ycaptured", "nested", "lambda", "lambda", "lamyield", "lambcall"))
    params = p.text()
    bar = "|%s|" % params if params else ""
    exp = list(a.trace)
    args, suffix, blk = (a.src, "", None) if how in ("yield", "ycaptured", "nested") else blockarg(r, a) if how in ("call", "lambda") else (a.src, "", None)
    sets, names = setup(a.vars)
    pre = ""
    if how == "yield":
        pre = "def $g\n%sx1 = 1\nyield(%s)\nend\n" % (sets, args)
        call = "$g() { %s %s\n:ret }" % (bar, bsrc)
        sets, names = "", []
    elif how == "ycaptured":
        pre = "def $g\n%sx1 = 1\nbd = proc { x1 }\nyield(%s)\nend\n" % (sets, args)
        call = "$g() { %s %s\n:ret }" % (bar, bsrc)
        sets, names = "", []
    elif how == "nested":
        pre = "def $g\n%sx1 = 1\n1.times { return yield(%s) }\nend\n" % (sets, args)
        pre = "def $g\n%sx1 = nil\n1.times { x1 = (yield(%s)) }\nx1\nend\n" % (sets, args)
        call = "$g() { %s %s\n:ret }" % (bar, bsrc)
        sets, names = "", []
    elif how == "bcall":
        pre = "def $g(&b)\n%sb.call(%s)\nend\n" % (sets, args)
        call = "$g() { %s %s\n:ret }" % (bar, bsrc)
        sets, names = "", []
    elif how == "lambda":
        strict = True
        sets += "pr0 = %s\n" % ("->(%s) { %s\n:ret }" % (params, bsrc) if r.random() < 0.5 else "lambda { %s %s\n:ret }" % (bar, bsrc))
        call = r.choice(("pr0.call(%s)%s", "pr0.(%s)%s")) % (args, suffix)
    elif how in ("lamyield", "lambcall"):
        strict = True
        lam = "->(%s) { %s\n:ret }" % (params, bsrc) if r.random() < 0.5 else "lambda { %s %s\n:ret }" % (bar, bsrc)
        if how == "lamyield":
            pre = "def $g\n%sx1 = 1\nyield(%s)\nend\n" % (sets, args)
        else:
            pre = "def $g(&b)\n%sb.call(%s)\nend\n" % (sets, args)
        sets, names = "", []
        if r.random() < 0.5:
            call = "$g(&%s)" % lam
        else:
            sets = "pr0 = %s\n" % lam
            call = "$g(&pr0)"
    else:
        sets += "pr0 = proc { %s %s\n:ret }\n" % (bar, bsrc)
        call = {"call": "pr0.call(%s)%s", "dot": "pr0.(%s)%s", "index": "pr0[%s]%s"}[how] % (args, suffix)
        if how == "index" and (a.kw or "**" in args):
            call = "pr0.call(%s)" % args
    try:
        t = []
        env = bind(p, a.pos, a.kw, blk, strict, t)
        exp += t + out(env) + ["=:ret"]
    except RErr as e:
        exp += ["!" + e.cls]
    src = sets + "begin\nv(%s)\nrescue StandardError => e\nputs '!' + e.class.to_s\nend\n" % call
    if names:
        src += "v([%s])\n" % ", ".join(n for n, _ in names)
        exp.append("=" + ins([v for _, v in names]))
    return uniq(r, pre, src, exp, ["block:" + how], r.choice(("top", "def", "block")))


def builtin_case(r):
    """Blocks called by builtin iterators: the elements are the arguments."""
    p = mkparams(r, "block")
    p.kw, p.kwrest, p.block = [], None, None
    if not p.req and not p.post and len(p.opt) <= 1:
        p.opt = []
    bsrc, out = body(r, p)
    exp = []
    n = r.randint(0, 4)
    m = r.choice(("each", "map", "select", "each_with_index", "inject", "hash", "times", "hpair", "wi"))
    bar = "|%s|" % p.text() if p.text() else ""
    calls = []
    if m in ("each", "map", "select"):
        arr = tuple(value(r) for _ in range(n))
        calls = [[x] for x in arr]
        call = "%s.%s { %s %s\ntrue }" % (lit(arr), m, bar, bsrc)
        ret = "=" + ins(arr if m != "map" else tuple(True for _ in arr))
    elif m in ("each_with_index", "wi"):
        arr = tuple(value(r) for _ in range(n))
        calls = [[x, i] for i, x in enumerate(arr)]
        call = "%s.%s { %s %s\ntrue }" % (lit(arr), "each_with_index" if m[0] == "e" else "each.with_index", bar, bsrc)
        ret = "=" + ins(arr) if m[0] == "e" else None
    elif m == "inject":
        arr = tuple(value(r) for _ in range(n))
        acc = 0
        for i, x in enumerate(arr):
            calls.append([acc, x])
            acc = True
        call = "%s.inject(0) { %s %s\ntrue }" % (lit(arr), bar, bsrc)
        ret = "=" + ins(acc)
    elif m in ("hash", "hpair"):
        h = RHash([(Sym("h%d" % i), value(r)) for i in range(n)])
        if not p.post and not p.opt and p.rest is None and len(p.req) in (0, 2) or (p.req and p.rest is not None):
            calls = [[(k, x)] for k, x in h.items()]
        else:
            p.req, p.opt, p.rest, p.post = ["a", "b"], [], None, []
            bsrc, out = body(r, p)
            bar = "|a, b|"
            calls = [[(k, x)] for k, x in h.items()]
        call = "%s.each { %s %s\ntrue }" % (lit(h), bar, bsrc)
        ret = "=" + ins(h)
    else:
        calls = [[i] for i in range(n)]
        call = "%d.times { %s %s\ntrue }" % (n, bar, bsrc)
        ret = "=" + str(n)
    for c in calls:
        t = []
        env = bind(p, c, [], None, False, t)
        exp += t + out(env)
    src = "x = %s\n" % call
    if ret:
        src += "v(x)\n"
        exp.append(ret)
    return uniq(r, "", src, exp, ["builtin:" + m], r.choice(("top", "def", "block")))


def poly_case(r):
    """One call site, several receivers with different parameter lists, called in turn with computed arguments."""
    k = r.choice((2, 3))
    ps = [mkparams(r, "method", True) for _ in range(k)]
    pre, outs = "", []
    for i, p in enumerate(ps):
        b, o = body(r, p)
        outs.append(o)
        pre += "class %s\ndef f(%s)\n%s\n:ret%d\nend\nend\n" % ("ABC"[i], p.text(), b, i)
    fixed = r.random() < 0.5
    if fixed:
        a = Args(r, ps[0], False, [])
        sets, names = setup(a.vars)
        seq = [r.randrange(k) for _ in range(r.randint(3, 7))]
        src = sets + "[%s].each do |ob|\nbegin\nv(ob.f(%s))\nrescue StandardError => e\nputs '!' + e.class.to_s\nend\nend\n" % (
            ", ".join("%s.new" % "ABC"[i] for i in seq), a.src)
        items = [(i, a.pos, a.kw, a.trace) for i in seq]
    else:
        items, rows = [], []
        for _ in range(r.randint(3, 7)):
            i = r.randrange(k)
            a = Args(r, ps[i], False, [])
            items.append((i, a.pos, a.kw, []))
            rows.append("[%s.new, %s, %s]" % ("ABC"[i], lit(tuple(a.pos)), lit(RHash(a.kw))))
        src = "[%s].each do |ob, as, ks|\nbegin\nv(ob.f(*as, **ks))\nrescue StandardError => e\nputs '!' + e.class.to_s\nend\nend\n" % ", ".join(rows)
    exp = []
    for i, pos, kw, tr in items:
        exp += tr
        try:
            t = []
            env = bind(ps[i], pos, kw, None, True, t)
            exp += t + outs[i](env) + ["=:ret%d" % i]
        except RErr as e:
            exp.append("!" + e.cls)
    return uniq(r, pre, src, exp, ["one call site"], r.choice(("top", "def", "block")))


def build(r):
    k = r.random()
    if k < 0.45:
        return method_case(r)
    if k < 0.75:
        return block_case(r)
    if k < 0.87:
        return builtin_case(r)
    return poly_case(r)


def check(chk):
    chk.rule = ("seeded random parameter lists (required, optional, rest, trailing, keywords, keyword rest, block) with random argument lists "
                "(splats, keywords, hash splats, blocks), called directly, through send, method objects, new, super, delegation, yield, procs, "
                "lambdas and builtin iterators; the callee prints its parameters; distinct by source text")
    chk.assumptions = ["the binding model in harness/p_c09.py states Ruby's rules",
                       "blocks with keywords or a single optional parameter given one array are not covered (Ruby versions differ)",
                       "super to a method without keywords drops keywords it has no room for (pinned by an existing test)"]
    r = chk.rng("bind")
    chk.run([build(r) for _ in range(chk.scale(60000, 900000))], size=60, prelude=PRE)
