"""C07: histories of constants and of instance, class and global variables against a model of the scopes."""
from core import PRELUDE, Case
from rb import ins, Sym, RStr

PRE = PRELUDE + r"""
def q
  begin
    v(yield)
  rescue NameError
    puts '!NameError'
  end
end
def ivs(o)
  o.instance_variables.map { |s| s.to_s }.sort
end
"""


class Missing(Exception):
    pass


class Mod:
    def __init__(self, name, kind, outer, sup=None):
        self.name, self.kind, self.outer, self.sup = name, kind, outer, sup
        self.consts, self.cv, self.iv, self.inc = {}, {}, {}, []
        self.path = (outer.path + "::" if outer else "") + name

    def anc(self):
        return [self] + self.inc + (self.sup.anc() if self.sup else [])

    def chain(self):
        return (self.outer.chain() if self.outer else []) + [self]


class Obj:
    def __init__(self, expr, cls):
        self.expr, self.cls, self.iv = expr, cls, {}


class Hist:
    def __init__(self, r, tag):
        self.r, self.t, self.n = r, tag, 0
        self.src, self.exp = [], []
        self.mods, self.objs = [], []
        self.top, self.gl = {}, {}
        self.readers = []      # (call text, cref, kind, name, target)
        self.names = ["X" + tag, "Y" + tag, "Z" + tag]
        self.meth = []         # instance methods that touch a variable: (class, name, what, var)
        self.tags = set()

    def uid(self):
        self.n += 1
        return "%s_%d" % (self.t, self.n)

    # ---- constants
    def lookup(self, cref, name):
        for m in reversed(cref):
            if name in m.consts:
                return m.consts[name]
        if cref:
            for m in cref[-1].anc():
                if name in m.consts:
                    return m.consts[name]
        if name in self.top:
            return self.top[name]
        raise Missing

    def scoped(self, m, name):
        for a in m.anc():
            if name in a.consts:
                return a.consts[name]
        raise Missing

    def show(self, f):
        try:
            self.exp.append("=" + ins(f()))
        except Missing:
            self.exp.append("!NameError")

    def opening(self):
        """-> (opening text, closing text, cref)"""
        r = self.r
        if not self.mods or r.random() < 0.12:
            return "", "", []
        m = r.choice(self.mods)
        ch = m.chain()
        segs, cref, i = [], [], 0
        while i < len(ch):
            j = i if r.random() < 0.65 else r.randint(i, len(ch) - 1)
            segs.append(("class " if ch[j].kind == "class" else "module ") + "::".join(x.name for x in ch[i:j + 1]))
            cref.append(ch[j])
            i = j + 1
        # a path is resolved from the scopes opened so far; its head is unique, so it is the module meant only if the
        # scope before it is its direct owner
        k = 0
        for s, c in zip(segs, cref):
            k += s.count("::") + 1
        return "\n".join(segs), "\n".join("end" for _ in segs), cref

    def new_mod(self):
        r = self.r
        kind = "class" if r.random() < 0.65 else "module"
        outer = r.choice(self.mods) if self.mods and r.random() < 0.55 and len(self.mods) < 9 else None
        if outer and len(outer.chain()) >= 3:
            outer = None
        sup = None
        if kind == "class":
            cs = [m for m in self.mods if m.kind == "class"]
            if cs and r.random() < 0.55:
                sup = r.choice(cs)
        m = Mod(("K" if kind == "class" else "N") + self.uid(), kind, outer, sup)
        self.src.append("%s %s%s\nend" % (kind, m.path, " < " + sup.path if sup else ""))
        self.mods.append(m)

    def include(self):
        r = self.r
        ms = [m for m in self.mods if m.kind == "module"]
        cs = [m for m in self.mods if m.kind == "class"]
        if not ms or not cs:
            return
        m, c = r.choice(ms), r.choice(cs)
        if m not in c.anc():
            c.inc.insert(0, m)
            if not self.cv_ok():
                c.inc.remove(m)
                return
        self.src.append(r.choice(("class %s\ninclude %s\nend" % (c.path, m.path), "%s.include(%s)" % (c.path, m.path))))

    def cv_ok(self):
        for c in self.mods:
            seen = set()
            for a in c.anc():
                for k in a.cv:
                    if (k, ) in seen:
                        return False
                seen |= {(k,) for k in a.cv}
        return True

    def set_const(self):
        r = self.r
        name, val = r.choice(self.names), r.randint(0, 999)
        if r.random() < 0.3 and self.mods:
            m = r.choice(self.mods)
            if r.random() < 0.3:
                self.src.append("%s::%s ||= %d" % (m.path, name, val))
                try:
                    self.scoped(m, name)
                except Missing:
                    m.consts[name] = val
                return
            self.src.append("%s::%s = %d" % (m.path, name, val))
            m.consts[name] = val
            return
        op, cl, cref = self.opening()
        if r.random() < 0.15:
            body = "::%s = %d" % (name, val)
            if r.random() < 0.5:
                body = "::%s ||= %d" % (name, val)
                self.top.setdefault(name, val)
            else:
                self.top[name] = val
        elif r.random() < 0.2:
            body = "%s ||= %d" % (name, val)
            try:
                self.lookup(cref, name)
            except Missing:
                (cref[-1].consts if cref else self.top)[name] = val
        else:
            body = "%s = %d" % (name, val) if r.random() < 0.8 else "[%d].each { |x| %s = x }" % (val, name)
            (cref[-1].consts if cref else self.top)[name] = val
        self.src.append("\n".join(x for x in (op, body, cl) if x))

    def body(self, cref, name):
        """-> (source of an expression that reads the constant, function giving the value)"""
        r = self.r
        k = r.randint(0, 11)
        cur = lambda: self.lookup(cref, name)
        if k <= 3:
            return name, cur
        if k == 4:
            return "[0].map { |i| %s }[0]" % name, cur
        if k == 5:
            return "lambda { %s }.call" % name, cur
        if k == 6:
            return '"<#{%s}>"' % name, lambda: RStr("<%d>" % cur())
        if k == 7:
            def d():
                try:
                    cur()
                except Missing:
                    return None
                return RStr("constant")
            return "defined?(%s)" % name, d
        if k == 8:
            def top():
                if name not in self.top:
                    raise Missing
                return self.top[name]
            return "::" + name, top
        if k == 9 and self.mods:
            m = r.choice(self.mods)
            return "::%s::%s" % (m.path, name), lambda: self.scoped(m, name)
        if k == 10:
            return "[%s, [1, 2].inject(0) { |a, b| a + %s }]" % (name, name), lambda: [cur(), 2 * cur()]
        if k == 11:
            return "(%s; 1; %s)" % (name, name), cur
        return name, cur

    def reader(self):
        r = self.r
        op, cl, cref = self.opening()
        name = r.choice(self.names)
        e, f = self.body(cref, name)
        m = "r" + self.uid()
        k = r.random()
        if k < 0.25 and cref:
            d = "def self.%s\n%s\nend" % (m, e)
            call = "%s.%s" % (cref[-1].path, m)
            subs = [x for x in self.mods if cref[-1].kind == "class" and x.sup is cref[-1]]
            if subs and r.random() < 0.5:
                call = "%s.%s" % (r.choice(subs).path, m)
        elif k < 0.45:
            d = "$%s = lambda { %s }" % (m, e)
            call = "$%s.call" % m
        elif k < 0.55:
            d = "def (Object.new).%s\n%s\nend" % (m, e) if False else "$%s = Object.new\ndef $%s.go\n%s\nend" % (m, m, e)
            d = "o = Object.new\n$%s = o\ndef o.go\n%s\nend" % (m, e)
            call = "$%s.go" % m
            if True:
                # a definition on a singleton opens no scope for constants
                pass
        elif cref and cref[-1].kind == "class":
            if r.random() < 0.25:
                d = "def %s(x = %s)\nx\nend" % (m, e)
            else:
                d = "def %s\n%s\nend" % (m, e)
            cls = cref[-1]
            subs = [x for x in self.mods if cls in x.anc()]
            call = "%s.new.%s" % (r.choice(subs).path, m)
        elif not cref:
            d = "def %s\n%s\nend" % (m, e)
            call = m
        else:
            d = "$%s = proc { %s }" % (m, e)
            call = "$%s.call" % m
        self.src.append("\n".join(x for x in (op, d, cl) if x))
        self.readers.append((call, f))

    def read(self):
        r = self.r
        k = r.random()
        if k < 0.75 and self.readers:
            call, f = r.choice(self.readers)
            self.src.append("q { %s }" % call)
            self.show(f)
            self.tags.add("const reads through methods")
            return
        name = r.choice(self.names)
        if k < 0.85 and self.mods:
            m = r.choice(self.mods)
            j = r.randint(0, 4)
            if j == 0:
                self.src.append("q { %s::%s }" % (m.path, name))
                self.show(lambda: self.scoped(m, name))
            elif j == 1:
                def dd():
                    try:
                        self.scoped(m, name)
                        return RStr("constant")
                    except Missing:
                        return None
                self.src.append("q { defined?(%s::%s) }" % (m.path, name))
                self.show(dd)
            elif j == 2:
                # const_get of a class falls back to Object
                def cg():
                    try:
                        return self.scoped(m, name)
                    except Missing:
                        if name in self.top:
                            return self.top[name]
                        raise
                self.src.append("q { %s.const_get(:%s) }" % (m.path, name))
                self.show(cg)
            elif j == 3:
                def cd():
                    try:
                        self.scoped(m, name)
                        return True
                    except Missing:
                        return name in self.top
                self.src.append("q { %s.const_defined?(:%s) }" % (m.path, name))
                self.show(cd)
            else:
                own = sorted(set(x for a in m.anc() for x in a.consts) & set(self.names))
                self.src.append("q { [%s].select { |s| %s.constants.include?(s) } }"
                                % (", ".join(":" + x for x in self.names), m.path))
                self.show(lambda: [Sym(x) for x in self.names if x in own])
        else:
            op, cl, cref = self.opening()
            e, f = self.body(cref, name)
            self.src.append("\n".join(x for x in (op, "q { %s }" % e, cl) if x))
            self.show(f)

    # ---- instance variables
    def new_obj(self):
        cs = [m for m in self.mods if m.kind == "class"]
        if not cs:
            return
        r = self.r
        e = "$o" + self.uid()
        if self.objs and r.random() < 0.25:
            s = r.choice(self.objs)
            how = r.choice(("dup", "clone"))
            self.src.append("%s = %s.%s" % (e, s.expr, how))
            o = Obj(e, s.cls)
            o.iv = dict(s.iv)
        else:
            c = r.choice(cs)
            self.src.append("%s = %s.new" % (e, c.path))
            o = Obj(e, c)
        self.objs.append(o)

    IV = ["@a", "@b", "@c", "@d", "@e", "@f"]

    def ivar_def(self):
        r = self.r
        cs = [m for m in self.mods]
        if not cs:
            return
        c = r.choice(cs)
        kw = c.kind
        what = r.choice(("get", "set", "op", "init", "multi", "attr"))
        v = r.choice(self.IV)
        if what == "attr":
            n = "at" + self.uid()
            self.src.append("%s %s\nattr_accessor :%s\nend" % (kw, c.path, n))
            self.meth.append((c, n, "attr", "@" + n))
            return
        n = "m" + self.uid()
        w = r.choice([x for x in self.IV if x != v])
        b = {"get": "def %s\n%s\nend" % (n, v), "set": "def %s(x)\n%s = x\nend" % (n, v),
             "op": "def %s\n%s = (%s || 0) + 1\nend" % (n, v, v), "init": "def %s(x)\n%s ||= x\nend" % (n, v),
             "multi": "def %s(x)\n%s, %s = x, %s\n[%s, %s]\nend" % (n, v, w, v, v, w)}[what]
        self.src.append("%s %s\n%s\nend" % (kw, c.path, b))
        self.meth.append((c, n, what, v if what != "multi" else (v, w)))

    def ivar_use(self):
        r = self.r
        if not self.objs:
            return
        o = r.choice(self.objs)
        k = r.random()
        val = r.choice((r.randint(0, 99), r.randint(0, 99), None, False))
        ms = [m for m in self.meth if m[0] in o.cls.anc()]
        if k < 0.65 and ms:
            c, n, what, v = r.choice(ms)
            g = o.iv.get
            if what == "get":
                self.src.append("v(%s.%s)" % (o.expr, n))
                self.exp.append("=" + ins(g(v)))
            elif what == "set":
                self.src.append("%s.%s(%s)" % (o.expr, n, ins(val)))
                o.iv[v] = val
            elif what == "op":
                x = g(v)
                if x is None or x is False or isinstance(x, int):
                    o.iv[v] = (x or 0) + 1
                    self.src.append("v(%s.%s)" % (o.expr, n))
                    self.exp.append("=" + ins(o.iv[v]))
            elif what == "init":
                if g(v) is None or g(v) is False:
                    o.iv[v] = val
                self.src.append("v(%s.%s(%s))" % (o.expr, n, ins(val)))
                self.exp.append("=" + ins(o.iv[v]))
            elif what == "multi":
                a, b = v
                old = g(a)
                o.iv[a], o.iv[b] = val, old
                self.src.append("v(%s.%s(%s))" % (o.expr, n, ins(val)))
                self.exp.append("=" + ins([val, old]))
            else:
                if r.random() < 0.5:
                    self.src.append("%s.%s = %s" % (o.expr, n, ins(val)))
                    o.iv[v] = val
                else:
                    self.src.append("v(%s.%s)" % (o.expr, n))
                    self.exp.append("=" + ins(g(v)))
            return
        v = r.choice(self.IV)
        j = r.randint(0, 3)
        if j == 0:
            self.src.append("%s.instance_variable_set(:%s, %s)" % (o.expr, v, ins(val)))
            o.iv[v] = val
        elif j == 1:
            self.src.append("v(%s.instance_variable_get(:%s))" % (o.expr, v))
            self.exp.append("=" + ins(o.iv.get(v)))
        elif j == 2:
            self.src.append("v(ivs(%s))" % o.expr)
            self.exp.append("=" + ins([RStr(x) for x in sorted(o.iv)]))
        else:
            # a singleton method changes the class of the object, not its variables
            n = "sg" + self.uid()
            self.src.append("def (%s).%s\n%s\nend" % (o.expr, n, v) if False else
                            "o = %s\ndef o.%s\n%s\nend\nv(o.%s)" % (o.expr, n, v, n))
            self.exp.append("=" + ins(o.iv.get(v)))

    def class_ivar(self):
        r = self.r
        if not self.mods:
            return
        c = r.choice(self.mods)
        v = r.choice(self.IV[:3])
        k = r.randint(0, 3)
        if k == 0:
            val = r.randint(0, 99)
            self.src.append("%s %s\n%s = %d\nend" % (c.kind, c.path, v, val))
            c.iv[v] = val
        elif k == 1:
            n = "ci" + self.uid()
            self.src.append("%s %s\ndef self.%s\n%s\nend\ndef self.%s=(x)\n%s = x\nend\nend" % (c.kind, c.path, n, v, n, v))
            self.meth.append((None, n, c, v))
        else:
            cm = [m for m in self.meth if m[0] is None]
            if not cm:
                return
            _, n, c, v = r.choice(cm)
            fam = [x for x in self.mods if x is c or (c.kind == "class" and x.kind == "class" and c in x.anc())]
            d = r.choice(fam)
            if k == 2:
                val = r.randint(0, 99)
                self.src.append("%s.%s = %d" % (d.path, n, val))
                d.iv[v] = val
            else:
                self.src.append("v(%s.%s)" % (d.path, n))
                self.exp.append("=" + ins(d.iv.get(v)))

    # ---- class variables
    def cv_owner(self, c, v):
        for a in c.anc():
            if v in a.cv:
                return a
        return None

    def cvar(self):
        r = self.r
        op, cl, cref = self.opening()
        if not cref:
            return
        c = cref[-1]
        v = r.choice(("@@p", "@@q"))
        k = r.random()
        if k < 0.35:
            own = self.cv_owner(c, v) or c
            had = v in own.cv
            val = r.randint(0, 99)
            old = own.cv.get(v)
            own.cv[v] = val
            if not had and not self.cv_ok():
                del own.cv[v]
                return
            self.src.append("%s\n%s = %d\n%s" % (op, v, val, cl))
        elif k < 0.6:
            n = "cv" + self.uid()
            what = r.choice(("def self.%s\n%s\nend", "def self.%s\n[1].map { %s }[0]\nend"))
            self.src.append("%s\n%s\n%s" % (op, what % (n, v), cl))

            def f(c=c, v=v):
                o = self.cv_owner(c, v)
                if o is None:
                    raise Missing
                return o.cv[v]
            self.readers.append(("%s.%s" % (c.path, n), f))
        elif k < 0.8 and c.kind == "class":
            n = "cv" + self.uid()
            self.src.append("%s\ndef %s\n%s\nend\n%s" % (op, n, v, cl))
            subs = [x for x in self.mods if c in x.anc()]

            def f(c=c, v=v):
                o = self.cv_owner(c, v)
                if o is None:
                    raise Missing
                return o.cv[v]
            self.readers.append(("%s.new.%s" % (r.choice(subs).path, n), f))
        else:
            o = self.cv_owner(c, v)
            self.src.append("%s\nq { %s }\n%s" % (op, v, cl))
            self.exp.append("!NameError" if o is None else "=" + ins(o.cv[v]))

    def gvar(self):
        r = self.r
        g = "$g%s%s" % (self.t, r.choice("abc"))
        k = r.randint(0, 3)
        val = r.randint(0, 99)
        if k == 0:
            self.src.append("%s = %d" % (g, val))
            self.gl[g] = val
        elif k == 1:
            n = "gm" + self.uid()
            self.src.append("def %s(x)\n%s = x\nend\n%s(%d)" % (n, g, n, val))
            self.gl[g] = val
        elif k == 2:
            self.src.append("v(%s)" % g)
            self.exp.append("=" + ins(self.gl.get(g)))
        else:
            if self.gl.get(g) is not None:
                self.gl[g] += 1
                self.src.append("[1].each { %s += 1 }" % g)


def history(r, tag):
    h = Hist(r, tag)
    for _ in range(r.randint(2, 5)):
        h.new_mod()
    steps = [(h.set_const, 22), (h.reader, 14), (h.read, 30), (h.include, 4), (h.new_mod, 3), (h.new_obj, 6),
             (h.ivar_def, 9), (h.ivar_use, 24), (h.class_ivar, 6), (h.cvar, 8), (h.gvar, 4)]
    mode = r.choice(("all", "const", "iv"))
    if mode == "const":
        steps = [s for s in steps if s[0] in (h.set_const, h.reader, h.read, h.include, h.new_mod, h.cvar)]
    elif mode == "iv":
        steps = [s for s in steps if s[0] in (h.new_mod, h.new_obj, h.ivar_def, h.ivar_use, h.include, h.class_ivar)]
    fs, ws = [s[0] for s in steps], [s[1] for s in steps]
    for _ in range(r.choice((20, 40, 80))):
        r.choices(fs, ws)[0]()
    for _ in range(8):
        (h.read if mode != "iv" else h.ivar_use)()
    return Case("\n".join(h.src), h.exp, ("history of " + mode,), "raw")


def mixing(r, u):
    """Cached constants while modules that have them are mixed in, before, after and again."""
    src, out = [], []
    x = "X" + u
    mods = {"M%d%s" % (i, u): None for i in range(3)}
    own, top, sown, pre, inc = None, None, None, [], []
    for m in mods:
        src.append("module %s\nend" % m)
    c, s, d = "C" + u, "S" + u, "D" + u
    src.append("class %s\nend\nclass %s < %s\ndef x\n%s\nend\ndef b\n[1].map { |z| %s }[0]\nend\ndef self.x\n%s\nend\n"
               "def d(a = %s)\na\nend\nend\nclass %s < %s\ndef w\n%s\nend\nend" % (s, c, s, x, x, x, x, d, c, x))

    def find(usetop=True):
        l = [own] + [mods[m] for m in pre] + [mods[m] for m in inc] + [sown] + [top if usetop else None]
        return next((v for v in l if v is not None), None)
    n = 0
    for _ in range(r.randint(6, 14)):
        k = r.random()
        n += 1
        if k < 0.2:
            m = r.choice(sorted(mods))
            if m in pre or m in inc:
                continue
            how = r.choice(("include", "prepend"))
            src.append(r.choice(("class %s\n%s %s\nend" % (c, how, m), "%s.%s(%s)" % (c, how, m))))
            (pre if how == "prepend" else inc).insert(0, m)
        elif k < 0.4:
            m = r.choice(sorted(mods))
            if mods[m] is None:
                mods[m] = n
                src.append("module %s\n%s = %d\nend" % (m, x, n))
        elif k < 0.44 and own is None:
            own = n
            src.append("class %s\n%s = %d\nend" % (c, x, n))
        elif k < 0.5 and sown is None:
            sown = n
            src.append("class %s\n%s = %d\nend" % (s, x, n))
        elif k < 0.55 and top is None:
            top = n
            src.append("%s = %d" % (x, n))
        elif k < 0.6:
            # extending an object does not change what its class sees
            src.append("%s.new.extend(%s)" % (c, r.choice(sorted(mods))))
        for _ in range(r.choice((1, 2, 3))):
            how = r.choice(("%s.new.x", "%s.new.b", "%s.x", "%s.new.d", "D.new.w", "D.new.x", "D.x", "C::X"))
            both = own is not None and any(mods[m] is not None for m in pre)
            if how == "C::X":
                v = find(usetop=False)
                if v is None or both:
                    continue
                src.append("v(%s::%s)" % (c, x))
            else:
                v = find()
                if how == "D.new.w" and both:
                    continue
                src.append("q { %s }" % (how % c if "%" in how else how.replace("D", d)))
            out.append("!NameError" if v is None else "=%d" % v)
    return Case("\n".join(src), out, ("mixing",), "raw")


def family(r, u):
    """A class variable reached from the methods of a class, its singleton class, subclasses and blocks."""
    c, d, e = "F" + u, "G" + u, "H" + u
    src = ["class %s" % c, "@@v = 0", "@@w = 0"]
    names = []
    for v in "vw":
        for n, form in (("i" + v, "def %s(*a)\n%s\nend"), ("s" + v, "def self.%s(*a)\n%s\nend"), ("c" + v, "class << self\ndef %s(*a)\n%s\nend\nend"),
                        ("b" + v, "def %s(*a)\n[1].map {\n%s\n}[0]\nend"), ("k" + v, "class << self\ndef %s(*a)\n[1].map {\n%s\n}[0]\nend\nend")):
            src.append(form % (n, "@@%s = a[0] if a.size > 0\n@@%s" % (v, v)))
            names.append((n, v))
    src += ["end", "class %s < %s" % (d, c)]
    for v in "vw":
        src.append("def d%s(*a)\n@@%s = a[0] if a.size > 0\n@@%s\nend\nclass << self\ndef e%s(*a)\n@@%s = a[0] if a.size > 0\n@@%s\nend\nend" % ((v,) * 6))
        names += [("d" + v, v), ("e" + v, v)]
    src += ["end", "class %s < %s\n@@own = 5\nclass << self\ndef o\n@@own\nend\nend\nend" % (e, d)]
    val, out = {"v": 0, "w": 0}, []
    for i in range(r.randint(5, 15)):
        n, v = r.choice(names)
        rc = r.choice((d, e) if n[0] in "de" else (c, d, e))
        rc = rc + ("" if n[0] in "scke" else ".new")
        if r.random() < 0.5:
            val[v] = i + 1
            src.append("v(%s.%s(%d))" % (rc, n, i + 1))
        else:
            src.append("v(%s.%s)" % (rc, n))
        out.append("=%d" % val[v])
    src.append("v(%s.o)" % e)
    out.append("=5")
    return Case("\n".join(src), out, ("class family",), "raw")


TWICE = """$mk = []
[Module.new, Module.new].each { |m|
  m.class_eval { }
  class m::K
    def w
      W
    end
  end
  class m::K
    W = $mk.size
  end
  $mk << m::K
}
v($mk.map { |k| k.new.w })"""


def check(chk):
    chk.rule = ("random histories of nested classes and modules that assign and reassign constants (in bodies, through a path, with ||=, from "
                "blocks), include modules, and read through methods, blocks, lambdas, default arguments, defined?, const_get and paths; of instance "
                "variables of objects, copies, classes and modules through methods, attributes and reflection; of class variables and globals; "
                "compared with a model of the scopes after every step; every hit of the constant cache is audited; distinct by source text")
    chk.assumptions = ["constants are not removed; const_missing, inherited constants inside class << self and Module.nesting are outside the property",
                       "no class variable is defined in both a class and one of its ancestors (Ruby raises an error for it)"]
    r = chk.rng("hist")
    n = chk.scale(5000, 100000)
    chk.run([history(r, "_%d" % i) for i in range(n)], size=10, prelude=PRE, mon="cache,stats")
    r = chk.rng("mixing")
    more = [mixing(r, "_%d" % i) if i % 2 else family(r, "_%d" % i) for i in range(chk.scale(3000, 40000))]
    known = [Case(TWICE, ["=[0, 1]"], ("known",), "raw", key="class-body-twice")]
    chk.run(more + known, size=25, prelude=PRE, mon="cache,stats")
