"""C06: histories of definitions, inclusions and calls against a model of the ancestors of every object."""
from core import PRELUDE, Case

PRE = PRELUDE


class Mod:
    """A class, module or singleton class of the model."""

    def __init__(self, name, kind, sup=None):
        self.name, self.kind, self.sup = name, kind, sup
        self.pre, self.inc, self.table = [], [], {}
        self.used = False
        self.order = []

    def own(self):
        return self.pre + [self] + self.inc

    def mro(self):
        return self.own() + (self.sup.mro() if self.sup else [])


class Meth:
    def __init__(self, owner, name, body, arg=None):
        self.owner, self.name, self.body, self.arg = owner, name, body, arg


class Missing(Exception):
    pass


class Hist:
    def __init__(self, r, tag):
        self.r, self.tag = r, tag
        self.src, self.exp = [], []
        self.n = 0
        self.mods, self.classes, self.objs = [], [], []
        self.kernel = Mod("Kernel", "module")
        self.object = Mod("Object", "class")
        self.basic = Mod("BasicObject", "class")
        self.object.inc = [self.kernel]
        self.object.sup = self.basic
        self.classc = Mod("Class", "class", Mod("Module", "class", self.object))
        self.builtins = {}
        self.names = ["f%s" % tag, "g%s" % tag, "h%s" % tag]
        self.aliasing = 0
        self.depth = 0
        self.sites = []
        self.meta = {}

    # ---- the universe ----
    def new_module(self):
        m = Mod("M%s_%d" % (self.tag, len(self.mods)), "module")
        self.mods.append(m)
        self.src.append("module %s\nend" % m.name)
        return m

    def new_class(self):
        sup = self.r.choice(self.classes) if self.classes and self.r.random() < 0.7 else self.object
        c = Mod("C%s_%d" % (self.tag, len(self.classes)), "class", sup)
        self.classes.append(c)
        form = self.r.random()
        up = "" if sup is self.object else " < " + sup.name
        if form < 0.8:
            self.src.append("class %s%s\nend" % (c.name, up))
        else:
            self.src.append("%s = Class.new%s" % (c.name, "" if sup is self.object else "(%s)" % sup.name))
        return c

    def new_obj(self):
        c = self.r.choice(self.classes)
        o = Obj("$o%s_%d" % (self.tag, len(self.objs)), c)
        self.objs.append(o)
        self.src.append("%s = %s.new" % (o.name, c.name))
        return o

    def singleton(self, x):
        """The singleton class of an object or of a class."""
        if isinstance(x, Obj):
            if x.single is None:
                x.single = Mod("singleton of " + x.name, "singleton", x.cls)
            return x.single
        if x not in self.meta:
            if x.kind == "module":
                sup = self.classc.sup
            elif x.sup is None:
                sup = self.classc
            else:
                sup = self.singleton(x.sup)
            self.meta[x] = Mod("singleton of " + x.name, "singleton", sup)
        return self.meta[x]

    def mro_of(self, x):
        if isinstance(x, Obj):
            return (x.single or x.cls).mro()
        return self.singleton(x).mro()

    # ---- steps ----
    def include(self, k, m):
        chain = m.own()
        pos = 0
        for x in chain:
            if x in k.inc:
                pos = k.inc.index(x) + 1
            elif k.sup and x in k.sup.mro():
                continue
            else:
                k.inc.insert(pos, x)
                pos += 1
        m.used = True

    def prepend(self, k, m):
        pos = 0
        for x in m.own():
            if x in k.pre:
                pos = k.pre.index(x) + 1
            else:
                k.pre.insert(pos, x)
                pos += 1
        m.used = True

    def body(self, name):
        self.n += 1
        t = self.n
        k = self.r.random()
        if k < 0.5:
            return ("tag", t)
        if k < 0.85:
            return ("super", t)
        g = self.r.choice(self.names)
        return ("call", t, g) if g != name else ("tag", t)

    @staticmethod
    def text(name, body, indent="  ", head="def "):
        if body[0] == "tag":
            code = "[%d]" % body[1]
        elif body[0] == "super":
            code = "[%d] + super" % body[1]
        elif body[0] == "attr":
            return None
        else:
            code = "[%d] + %s" % (body[1], body[2] if body[1] % 2 else "self." + body[2])
        return "%s%s%s\n%s  %s\n%send" % (indent, head, name, indent, code, indent)

    def define(self):
        r = self.r
        name = r.choice(self.names)
        body = self.body(name)
        k = r.random()
        if k < 0.62:
            x = r.choice(self.classes + self.classes + self.mods)
            m = Meth(x, name, body)
            kw = "class" if x.kind == "class" else "module"
            form = r.random()
            t = self.text(name, body)
            if form < 0.75:
                self.src.append("%s %s\n%s\nend" % (kw, x.name, t))
            elif form < 0.9:
                self.src.append("%s.class_eval do\n%s\nend" % (x.name, t))
            else:
                self.src.append("%s.module_eval %s" % (x.name, repr_str(t)))
            x.table[name] = m
        elif k < 0.75:
            o = r.choice(self.objs)
            s = self.singleton(o)
            s.table[name] = Meth(s, name, body)
            if r.random() < 0.6:
                self.src.append(self.text(name, body, "", "def %s." % o.name))
            else:
                self.src.append("class << %s\n%s\nend" % (o.name, self.text(name, body)))
        elif k < 0.88:
            c = r.choice(self.classes + self.mods[:1])
            s = self.singleton(c)
            s.table[name] = Meth(s, name, body)
            form = r.random()
            kw = "class" if c.kind == "class" else "module"
            if form < 0.4:
                self.src.append(self.text(name, body, "", "def %s." % c.name))
            elif form < 0.7:
                self.src.append("%s %s\n%s\nend" % (kw, c.name, self.text(name, body, "  ", "def self.")))
            else:
                self.src.append("%s %s\n  class << self\n%s\n  end\nend" % (kw, c.name, self.text(name, body, "    ")))
        elif k < 0.93:
            # for every object
            x = r.choice((self.object, self.kernel))
            x.table[name] = Meth(x, name, ("tag", body[1]))
            self.src.append("%s %s\n%s\nend" % (x.kind, x.name, self.text(name, ("tag", body[1]))))
        else:
            # an attribute reader
            x = r.choice(self.classes + self.mods)
            x.table[name] = Meth(x, name, ("nil", 0))
            form = r.choice(("attr_reader :%s", "attr_accessor :%s", "attr :%s"))
            self.src.append("%s %s\n  %s\nend" % (x.kind, x.name, form % name))
            if "accessor" in form:
                x.table[name + "="] = Meth(x, name + "=", ("arg", 0))

    def alias(self):
        r = self.r
        x = r.choice(self.classes + self.mods)
        name, new = r.sample(self.names, 2)
        hit = self.find(x.mro(), name)
        # The method remembers its owner only through the tables which have it, so an alias of an inherited method
        # has no super in it.
        if hit is None or hit[1].owner is not x and hit[1].body[0] == "super":
            return
        m = hit[1]
        form = r.random()
        if form < 0.5:
            self.src.append("%s %s\n  alias %s %s\nend" % (x.kind, x.name, new, name))
        else:
            self.src.append("%s %s\n  alias_method :%s, :%s\nend" % (x.kind, x.name, new, name))
        x.table[new] = m

    def mix(self):
        r = self.r
        m = r.choice(self.mods)
        k = r.random()
        if k < 0.5:
            x = r.choice(self.classes + ([y for y in self.mods if not y.used]))
            if x is m or x in m.mro() or m in x.pre:
                return
            # the same module twice in one chain is avoided where super could visit it twice
            if x.kind == "module" and any(z in x.pre for z in m.own()):
                return
            if any(self.twice(x, z) for z in m.own()):
                return
            self.include(x, m)
            self.src.append(r.choice(("%s %s\n  include %s\nend" % (x.kind, x.name, m.name), "%s.send(:include, %s)" % (x.name, m.name),
                                      "%s.include %s" % (x.name, m.name))))
        elif k < 0.72:
            x = r.choice(self.classes)
            if any(z in y.mro() for y in self.classes if x in y.mro() for z in m.own()):
                if not any(z in x.pre for z in m.own()):
                    return
            self.prepend(x, m)
            self.src.append("%s %s\n  prepend %s\nend" % (x.kind, x.name, m.name))
        else:
            x = r.choice(self.objs + self.classes)
            s = self.singleton(x)
            if any(self.twice(s, z) for z in m.own()):
                return
            self.include(s, m)
            self.src.append("%s.extend(%s)" % (x.name, m.name))

    def twice(self, x, z):
        """Would a subclass of x see z twice?"""
        if z in x.mro():
            return False
        for y in self.classes + list(self.meta.values()) + [o.single for o in self.objs if o.single]:
            if y is not x and x in y.mro() and z in y.mro():
                return True
        return False

    def missing(self):
        x = self.r.choice(self.classes + self.mods)
        self.n += 1
        x.table["method_missing"] = Meth(x, "method_missing", ("missing", self.n))
        self.src.append("%s %s\n  def method_missing(n, *a)\n    [%d, n.to_s.size, a]\n  end\nend" % (x.kind, x.name, self.n))

    # ---- the meaning of a call ----
    def find(self, mro, name, after=None):
        seen = after is None
        for x in mro:
            if seen:
                m = x.table.get(name)
                if m:
                    return x, m
            elif x is after:
                seen = True
        return None

    def call(self, x, name, args=()):
        mro = self.mro_of(x)
        hit = self.find(mro, name)
        if not hit:
            mm = self.find(mro, "method_missing")
            if mm:
                return [mm[1].body[1], len(name), list(args)]
            raise Missing()
        return self.invoke(x, mro, hit[1], args)

    def invoke(self, x, mro, m, args=()):
        self.depth += 1
        if self.depth > 60:
            raise Deep()
        try:
            b = m.body
            if b[0] == "tag":
                return [b[1]]
            if b[0] == "nil":
                return None
            if b[0] == "arg":
                return args[0]
            if b[0] == "missing":
                raise Deep()
            if b[0] == "super":
                nxt = self.find(mro, m.name, m.owner)
                if not nxt:
                    mm = self.find(mro, "method_missing")
                    if not mm:
                        raise Missing()
                    return [b[1], mm[1].body[1], len(m.name), []]
                y = self.invoke(x, mro, nxt[1])
                if y is None:
                    raise Missing2()
                return [b[1]] + y
            y = self.call(x, b[2])
            if y is None:
                raise Missing2()
            return [b[1]] + y
        finally:
            self.depth -= 1

    def result(self, th):
        try:
            self.depth = 0
            return "=" + inspect(th())
        except Missing:
            return "!NameError"
        except Missing2:
            return "!TypeError"

    # ---- observation ----
    def observe(self):
        r = self.r
        x = r.choice(self.objs + self.objs + self.classes[:2])
        name = r.choice(self.names)
        k = r.random()
        recv = x.name
        mro = self.mro_of(x)
        if k < 0.55:
            # a site which every receiver of this history goes through
            i = r.randint(0, 3)
            self.ask("s%s_%d(%s)" % (self.tag, i, recv), self.result(lambda: self.call(x, self.names[i % 3])))
        elif k < 0.62:
            res = self.result(lambda: self.call(x, name))
            form = r.choice(("%s.send(:%s)", "%s.%s", "%s.__send__(:%s)", "%s&.%s", "[%s].map(&:%s)[0]"))
            self.ask(form % (recv, name), res)
        elif k < 0.68:
            self.ask("%s.respond_to?(:%s)" % (recv, name), "=" + ("true" if self.find(mro, name) else "false"))
        elif k < 0.76:
            hit = self.find(mro, name)
            if hit:
                self.ask("%s.method(:%s).call" % (recv, name), self.result(lambda: self.invoke(x, mro, hit[1])))
                if hit[0].kind != "singleton":
                    self.ask("[%s.method(:%s).owner, %s].uniq" % (recv, name, hit[0].name), "=[%s]" % hit[0].name)
        elif k < 0.86:
            c = r.choice(self.classes + self.mods)
            extra = [self.object, self.kernel, self.basic]
            self.ask("%s.ancestors" % c.name, "=[%s]" % ", ".join(y.name for y in c.mro()))
        elif k < 0.92:
            c = r.choice(self.classes + self.mods)
            y = r.choice(self.objs)
            inside = c in self.mro_of(y)
            form = r.choice(("%s.is_a?(%s)", "%s.kind_of?(%s)", "(%s === %s)"))
            self.ask(form % ((y.name, c.name) if "===" not in form else (c.name, y.name)), "=" + ("true" if inside else "false"))
            d = r.choice(self.classes)
            if d is not c:
                self.ask("%s.include?(%s)" % (d.name, c.name) if c.kind == "module" else "%s <=> %s" % (d.name, c.name),
                         "=" + (("true" if c in d.mro() else "false") if c.kind == "module"
                                else "-1" if c in d.mro() else "1" if d in c.mro() else "nil"))
        elif k < 0.95:
            c = r.choice(self.classes + self.mods)
            self.ask("%s.instance_methods(false).map { |n| n.to_s }.sort" % c.name,
                     "=[%s]" % ", ".join('"%s"' % n for n in sorted(c.table)))
        elif k < 0.98:
            c = r.choice(self.classes + self.mods)
            self.ask("%s.method_defined?(:%s)" % (c.name, name), "=" + ("true" if self.find(c.mro(), name) else "false"))
        else:
            c = r.choice(self.classes)
            hit = self.find(c.mro(), name)
            y = r.choice([o for o in self.objs if c in o.cls.mro()] or [None])
            if hit and y:
                self.ask("%s.instance_method(:%s).bind(%s).call" % (c.name, name, y.name),
                         self.result(lambda: self.invoke(y, self.mro_of(y), hit[1])))

    def ask(self, code, exp):
        self.src.append("q%s { %s }" % (self.tag, code))
        self.exp.append(exp)

    def churn(self):
        """Short-lived classes at the addresses of collected ones."""
        r = self.r
        a, b = r.choice(self.classes), r.choice(self.classes)
        n = self.names[0]
        x, y = [self.result(lambda: self.invoke(Obj("", c), c.mro(), self.find(c.mro(), n)[1]) if self.find(c.mro(), n)
                            else self.call(Obj("", c), n)) for c in (a, b)]
        if "!" in x + y:
            return
        self.src.append("6.times do |i|\n  q%s { s%s_0(Class.new(i.even? ? %s : %s).new) }\n  GC.start if i %% 2 == 1\nend" % (self.tag, self.tag, a.name, b.name))
        self.exp += [x, y] * 3


class Deep(Exception):
    pass


class Missing2(Exception):
    pass


class Obj:
    def __init__(self, name, cls):
        self.name, self.cls, self.single = name, cls, None


def inspect(x):
    if x is None:
        return "nil"
    if isinstance(x, list):
        return "[" + ", ".join(inspect(y) for y in x) + "]"
    return str(x)


def repr_str(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def history(r, tag):
    while True:
        h = Hist(r, tag)
        try:
            for _ in range(r.randint(1, 4)):
                h.new_class()
            for _ in range(r.randint(1, 4)):
                h.new_module()
            for _ in range(r.randint(1, 4)):
                h.new_obj()
            for i in range(4):
                h.src.append("def s%s_%d(o)\n  o.%s%s\nend" % (tag, i, h.names[i % 3], "" if i < 3 else ""))
            h.src.append("def q%s\n  begin\n    v(yield)\n  rescue NameError\n    puts '!NameError'\n  rescue TypeError\n    puts '!TypeError'\n  end\nend" % tag)
            for _ in range(r.choice((10, 20, 40, 70))):
                k = r.random()
                if k < 0.24:
                    h.define()
                elif k < 0.29:
                    h.alias()
                elif k < 0.4:
                    h.mix()
                elif k < 0.415:
                    h.missing()
                elif k < 0.44:
                    h.new_obj()
                elif k < 0.45:
                    h.new_class()
                elif k < 0.46:
                    h.churn()
                else:
                    h.observe()
            for _ in range(12):
                h.observe()
        except Deep:
            continue
        return Case("\n".join(h.src), h.exp, ("history",), "raw")


def check(chk):
    chk.rule = ("random histories of class and module definitions, method definitions and redefinitions, aliases, include, extend, prepend, singleton "
                "methods, method_missing and attribute readers, with calls through shared call sites after every step, compared with a model of the "
                "ancestors; the method and constant caches are audited on every hit; distinct by source text")
    chk.assumptions = ["removal of methods, visibility and hooks are not implemented and outside the property",
                       "a module gains no further modules after it was mixed in, and no chain of ancestors has one module twice"]
    r = chk.rng("hist")
    n = chk.scale(5000, 100000)
    chk.run([history(r, "_%d" % i) for i in range(n)], size=10, prelude=PRE, mon="cache,stats")
