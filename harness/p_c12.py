"""C12: hashes against a reference model of insertion-ordered maps, as histories of operations."""
from core import Case
from p_c11 import cmpv, eq as eq0, truthy
from rb import RArr, RErr, RHash, Rng, RStr, Sym, eqlkey, ins, lit, slit


def eq(a, b):
    if isinstance(a, RStr) or isinstance(b, RStr):
        return isinstance(a, RStr) and isinstance(b, RStr) and a.s == b.s
    if isinstance(a, RHash) and isinstance(b, RHash):
        return len(a) == len(b) and all(b.has(k) and eq(x, b.get(k)) for k, x in a.items())
    if isinstance(a, RArr) and isinstance(b, RArr):
        return len(a.a) == len(b.a) and all(eq(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Rng) and isinstance(b, Rng):
        return a.x == b.x and eq(a.b, b.b) and eq(a.e, b.e)
    return eq0(a, b)


TEXTS = ("", "a", "b", "ab", "key", "日本語", "a b", "x" * 22, "x" * 23, "x" * 24, "y" * 40, "é", "0", "1.5")


def str_src(r, s):
    """Different ways to compute the same string."""
    ways = ["lit", "plus", "interp", "slice", "mul", "join", "sym", "push", "dup", "tos"]
    w = r.choice(ways)
    i = r.randint(0, len(s))
    if w == "plus":
        return "(%s + %s)" % (slit(s[:i]), slit(s[i:]))
    if w == "interp":
        return '"%s#{%s}"' % (slit(s[:i])[1:-1], slit(s[i:]))
    if w == "slice":
        return "%s[1, %d]" % (slit("z" + s + "qq"), len(s)) if s else '""'
    if w == "mul":
        return "(%s * 1)" % slit(s)
    if w == "join":
        return "[%s, %s].join" % (slit(s[:i]), slit(s[i:]))
    if w == "sym" and s:
        return "%s.to_sym.to_s" % slit(s)
    if w == "push":
        return "(%s << %s)" % (slit(s[:i]), slit(s[i:]))
    if w == "dup":
        return slit(s) + ".dup"
    if w == "tos" and s.isdigit() and s == str(int(s)):
        return "%s.to_s" % s
    return slit(s)


def int_src(r, n):
    w = r.randint(0, 5)
    d = r.choice((1, 7, 2 ** 62, 2 ** 64, -(2 ** 63), 12345))
    if w == 0:
        return "(%s + %s)" % (lit(n - d), lit(d))
    if w == 1:
        return "(%s - %s)" % (lit(n + d), lit(d))
    if w == 2:
        return "(%s / %s)" % (lit(n * d), lit(d))
    if w == 3:
        return "%s.to_i" % slit(str(n))
    return lit(n)


class World:
    def __init__(self, r):
        self.r = r
        self.ident = r.random() < 0.2
        self.vars = {}
        self.objs = [("o%d" % i, RArr(["obj"])) for i in range(2)]   # opaque objects
        self.pool = [self.newkey(2) for _ in range(r.choice((2, 3, 4, 6, 10)))]

    def newkey(self, d=1):
        r = self.r
        k = r.random()
        if self.ident:
            # small integers, symbols, nil and booleans are the same object whenever they are equal
            return r.choice((r.randint(-3, 9), Sym(r.choice(("a", "b", "foo"))), None, True, False, 2 ** 40))
        if k < 0.24:
            return r.choice((0, 1, 2, 3, -1, 10, 2 ** 61, 2 ** 62, 2 ** 62 - 1, -2 ** 62 - 1, 2 ** 63, 2 ** 64, -2 ** 70))
        if k < 0.5:
            return r.choice(TEXTS)
        if k < 0.68:
            return Sym(r.choice(("a", "b", "ab", "foo", "key", "日本語")))
        if k < 0.76:
            return r.choice((None, True, False))
        if k < 0.86:
            return r.choice((1.0, 2.0, 0.5, -0.25, 1.5e300, 1e-300, 2.0 ** 62))
        if d > 0 and k < 0.93:
            return RArr([self.newkey(d - 1) for _ in range(r.randint(0, 3))])
        if d > 0 and k < 0.97:
            return RHash([(self.newkey(0), self.newkey(d - 1)) for _ in range(r.randint(0, 3))])
        return Rng(r.randint(0, 2), r.randint(2, 4), r.random() < 0.5)

    def src(self, v, shuffle=False):
        """Some way to compute the value; with `shuffle`, one that is eql but may print otherwise."""
        r = self.r
        if isinstance(v, Sym):
            return "%s.to_sym" % str_src(r, str(v)) if r.random() < 0.3 else lit(v)
        if isinstance(v, str):
            return str_src(r, v)
        if isinstance(v, int) and not isinstance(v, bool):
            return int_src(r, v)
        if isinstance(v, float) and r.random() < 0.3:
            return "(%s * 2.0 / 2)" % lit(v)
        if isinstance(v, RArr):
            xs = [self.src(x, shuffle) for x in v.a]
            if r.random() < 0.3 and xs:
                return "([%s] + [%s])" % (", ".join(xs[:1]), ", ".join(xs[1:]))
            return "[" + ", ".join(xs) + "]"
        if isinstance(v, RHash):
            items = v.items()
            if shuffle:
                r.shuffle(items)   # equality of hashes does not depend on the order
            return "{" + ", ".join("%s => %s" % (self.src(k, shuffle), self.src(x, shuffle)) for k, x in items) + "}"
        return lit(v)

    def key(self):
        r = self.r
        return r.choice(self.pool) if r.random() < 0.93 else self.newkey()

    def val(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return r.choice((0, 1, 2, 3, -1, 10, None, True, False, Sym("a"), 1.0, 2.5, "v", "", "a"))
        if k < 0.8:
            return RArr([r.randint(0, 3) for _ in range(r.randint(0, 3))])
        return self.newkey(1)


BLK = [("k.nil?", lambda k, v: k is None), ("v.nil?", lambda k, v: v is None), ("v == 1", lambda k, v: eq(v, 1)),
       ("k.is_a?(String)", lambda k, v: isinstance(k, str) and not isinstance(k, Sym)), ("v", lambda k, v: v),
       ("k", lambda k, v: k), ("true", lambda k, v: True), ("false", lambda k, v: False),
       ("k.inspect.size > 3", lambda k, v: len(ins(k)) > 3)]


def assign(h, o):
    """The hash h takes over content of o."""
    h.d = o.d
    h.identity = o.identity
    return h


def step(w):
    r = w.r
    names = sorted(w.vars)
    hn = r.choice(names)
    h = w.vars[hn]
    gn = r.choice(names)
    g = w.vars[gn]
    k = r.randint(0, 36)
    bt, bf = r.choice(BLK)
    if k <= 7:
        key, val = w.key(), w.val()

        def f():
            h[key] = val
            return val
        return "[]=", "(%s[%s] = %s)" % (hn, w.src(key), lit(val)), f
    if k <= 10:
        key = w.key()
        return "[]", "%s[%s]" % (hn, w.src(key, True)), lambda: h.get(key)
    if k <= 13:
        key = w.key()
        return "delete", "%s.delete(%s)" % (hn, w.src(key, True)), lambda: h.delete(key)
    if k == 14:
        key = w.key()
        how = r.randint(0, 2)

        def f():
            if h.has(key):
                return h.get(key)
            if how == 0:
                raise RErr("ArgumentError")     # a KeyError is an IndexError in Ruby; the class used here is pinned apart
            return Sym("none") if how == 1 else RArr([key])
        s = w.src(key)
        return "fetch", "%s.fetch(%s%s)%s" % (hn, s, ", :none" if how == 1 else "", " { |x| [x] }" if how == 2 else ""), f
    if k == 15:
        key = w.key()
        return "key?", "%s.%s(%s)" % (hn, r.choice(("key?", "has_key?", "include?", "member?")), w.src(key, True)), lambda: h.has(key)
    if k == 16:
        val = r.choice(h.values()) if len(h) and r.random() < 0.7 else w.val()
        return "has_value?", "%s.has_value?(%s)" % (hn, lit(val)), lambda: any(eq(val, x) for x in h.values())
    if k == 17:
        m = r.choice(("keys", "values"))
        return m, "%s.%s" % (hn, m), lambda: RArr(getattr(h, m)())
    if k == 18:
        m = r.choice(("size", "length"))
        return m, "[%s.%s, %s.empty?]" % (hn, m, hn), lambda: RArr([len(h), len(h) == 0])
    if k == 19:
        if r.random() < 0.3:
            return "clear", "%s.clear" % hn, lambda: (h.d.clear(), h)[1]
        return "inspect", "%s.%s" % (hn, r.choice(("inspect", "to_s"))), lambda: ins(h)
    if k == 20:
        nn = r.choice(names)

        def f():
            w.vars[nn] = h.copy()
            return w.vars[nn]
        return "dup", "(%s = %s.%s)" % (nn, hn, r.choice(("dup", "clone"))), f
    if k <= 22:
        o = RHash([(w.key(), w.val()) for _ in range(r.randint(0, 3))])
        n = r.randint(0, 3)
        args = [[], [(g, gn)], [(o, w.src(o))], [(g, gn), (o, w.src(o))]][n]
        if w.ident and n >= 2:
            args = args[:-1]

        def f():
            x = h.copy()
            for a, _ in args:
                for kk, vv in a.items():
                    x[kk] = vv
            return x
        # the literal was built in shuffled order: merging it stores in that order
        if n >= 2 and not w.ident:
            txt = "{" + ", ".join("%s => %s" % (w.src(a), lit(b)) for a, b in o.items()) + "}"
            args = args[:-1] + [(o, txt)]
        return "merge", "%s.merge(%s)" % (hn, ", ".join(t for _, t in args)), f
    if k == 23:
        m = r.choice(("select", "filter", "find_all", "reject"))
        keep = (lambda a, b: not truthy(bf(a, b))) if m == "reject" else (lambda a, b: truthy(bf(a, b)))
        return m, "%s.%s { |k, v| %s }" % (hn, m, bt), lambda: RHash([(a, b) for a, b in h.items() if keep(a, b)])
    if k == 24:
        def f():
            x = h.copy()
            for a, b in h.items():
                if b is None:
                    x.delete(a)
            return x
        return "compact", "%s.compact" % hn, f
    if k == 25:
        return "invert", "%s.invert" % hn, lambda: RHash([(b, a) for a, b in h.items()])
    if k == 26:
        o = RHash([(r.choice((3, 1, 2, 7, -1, 2 ** 64, 5)), r.randint(0, 3)) for _ in range(r.randint(0, 5))])
        return "sort", "%s.sort" % ("{" + ", ".join("%s => %s" % (w.src(a), lit(b)) for a, b in o.items()) + "}"), \
            lambda: RArr([RArr([a, b]) for a, b in sorted(o.items(), key=lambda x: x[0])])
    if k == 27:
        return "each", "(t = []; q = %s.%s { |k, v| t << k; t << v }; [q.equal?(%s), t])" % (hn, r.choice(("each", "each_pair")), hn), \
            lambda: RArr([True, RArr([x for kv in h.items() for x in kv])])
    if k == 28:
        return "each1", "(t = []; %s.%s { |x| t << x }; t)" % (hn, r.choice(("each", "each_pair"))), \
            lambda: RArr([RArr([a, b]) for a, b in h.items()])
    if k == 29:
        m = r.choice(("each_key", "each_value"))
        return m, "(t = []; q = %s.%s { |x| t << x }; [q.equal?(%s), t])" % (hn, m, hn), \
            lambda: RArr([True, RArr(h.keys() if m == "each_key" else h.values())])
    if k == 30:
        if w.ident or r.random() < 0.5:
            return "==", "[%s == %s, %s != %s]" % (hn, gn, hn, gn), lambda: RArr([eq(h, g), not eq(h, g)])
        return "== reordered", "[%s == %s, %s.eql?(%s)]" % (hn, w.src(h, True), hn, w.src(h, True)), lambda: RArr([True, True])
    if k == 31:
        key = w.key()
        if r.random() < 0.5:
            def f():
                if not truthy(h.get(key)):
                    h[key] = 5
                return h.get(key)
            return "||=", "(%s[%s] ||= 5)" % (hn, w.src(key)), f

        def f():
            x = h.get(key)
            if not truthy(x):
                return x
            h[key] = Sym("set")
            return Sym("set")
        return "&&=", "(%s[%s] &&= :set)" % (hn, w.src(key)), f
    if k == 32:
        s = r.choice(TEXTS)
        if w.ident:
            return "size", "%s.size" % hn, lambda: len(h)

        def f():
            h[s] = 1
            return RArr([1, s])
        return "string key is a copy", "(s = %s; %s[s] = 1; s << 'tail'; %s.delete('nosuch'); s = s[0, %d]; [%s[s], s])" % (
            str_src(r, s), hn, hn, len(s), hn), f
    if k == 33:
        o, g2 = RHash([(w.key(), w.val()) for _ in range(r.randint(0, 4))]), None
        txt = "{" + ", ".join("%s => %s" % (w.src(a), lit(b)) for a, b in o.items()) + "}"

        def f():
            w.vars[hn] = RHash(o.items())
            return w.vars[hn]
        if w.ident:
            txt += ".compare_by_identity"

            def f():
                w.vars[hn] = RHash(o.items(), True)
                return w.vars[hn]
        return "literal", "(%s = %s)" % (hn, txt), f
    if k == 34:
        # as members of arrays whose operations use eql?
        ks = [w.key() for _ in range(4)]
        if w.ident:
            return "size", "%s.size" % hn, lambda: len(h)

        def f():
            seen, out = set(), []
            for x in ks:
                if eqlkey(x) not in seen:
                    seen.add(eqlkey(x))
                    out.append(x)
            return RArr(out)
        return "uniq", "[%s].uniq" % ", ".join(w.src(x) for x in ks), f
    if k == 35:
        a = w.key()
        b = a if r.random() < 0.5 else w.key()
        return "eql?", "[%s.eql?(%s), {%s => 1}.key?(%s)]" % (w.src(a, True), w.src(b, True), w.src(a, True), w.src(b, True)), \
            lambda: RArr([eqlkey(a) == eqlkey(b)] * 2)
    n = r.randint(0, 40)
    mod = r.randint(1, 12)

    def f():
        for i in range(n):
            if i % 3 == 2:
                h.delete(i * 5 % mod)
            else:
                h[i * 7 % mod] = i
        return len(h)
    return "churn", "(%d.times { |i| if i %% 3 == 2 then %s.delete(i * 5 %% %d) else %s[i * 7 %% %d] = i end }; %s.size)" % (n, hn, mod, hn, mod, hn), f


def live_step(w):
    """Iteration whose block deletes and changes entries of the hash (adding is not allowed by Ruby)."""
    r = w.r
    hn = r.choice(sorted(w.vars))
    h = w.vars[hn]
    m = r.choice(("each", "each1", "each_key", "each_value", "select", "reject"))
    what = r.choice(("delete", "clear", "set", "delself"))
    key = r.choice(h.keys()) if len(h) and r.random() < 0.8 else w.key()
    at = r.randint(1, 4)
    if what == "delself" and m == "each_value":
        what = "delete"
    kk = "x[0]" if m == "each1" else "x" if m == "each_key" else "k"
    code = {"delete": "%s.delete(%s)" % (hn, w.src(key, True)), "clear": "%s.clear" % hn,
            "set": "%s[%s] = :new if %s.key?(%s)" % (hn, w.src(key), hn, w.src(key)), "delself": "%s.delete(%s)" % (hn, kk)}[what]
    par = "|x|" if m in ("each1", "each_key", "each_value") else "|k, v|"
    item = "x" if par == "|x|" else "k; t << v"
    src = "(n = 0; t = []; q = %s.%s { %s n += 1; t << %s; (%s) if n == %d; true }; [q, t])" % (hn, "each" if m == "each1" else m, par, item, code, at)

    def f():
        t, n, res = [], 0, []
        for k in list(h.d):
            if k not in h.d:
                continue
            kx, vx = h.d[k]
            n += 1
            if m == "each1":
                t.append(RArr([kx, vx]))
            elif m == "each_key":
                t.append(kx)
            elif m == "each_value":
                t.append(vx)
            else:
                t += [kx, vx]
            res.append((kx, vx))
            if n == at:
                if what == "delete":
                    h.delete(key)
                elif what == "delself":
                    h.delete(kx)
                elif what == "clear":
                    h.d.clear()
                elif h.has(key):
                    h[key] = Sym("new")
        q = h
        if m == "select":
            q = RHash(res)
        elif m == "reject":
            q = RHash()
        return RArr([q, RArr(t)])
    return "live " + m, src, f


def build(r):
    w = World(r)
    src, exp, tags = [], [], []
    for n in ("h", "g", "k2"):
        w.vars[n] = RHash([(w.key(), w.val()) for _ in range(r.randint(0, 5))], w.ident)
        src.append("%s = {%s}%s" % (n, ", ".join("%s => %s" % (w.src(a), lit(b)) for a, b in w.vars[n].items()), ".compare_by_identity" if w.ident else ""))
    for _ in range(r.randint(4, 14)):
        tag, code, f = live_step(w) if r.random() < 0.1 else step(w)
        tags.append(tag + (" (identity)" if w.ident else ""))
        try:
            line = "=" + ins(f())
        except RErr as e:
            line = "!" + e.cls
        src.append("begin; v(%s); rescue StandardError => e; puts '!' + e.class.to_s; end" % code)
        exp.append(line)
        if r.random() < 0.5:
            src.append("v([h, g, k2])")
            exp.append("=" + ins([w.vars[n] for n in ("h", "g", "k2")]))
    src.append("v([h, g, k2])")
    exp.append("=" + ins([w.vars[n] for n in ("h", "g", "k2")]))
    return Case("\n".join(src), exp, tags, r.choice(("top", "def", "block", "lambda")))


def check(chk):
    chk.rule = ("seeded random histories of 4 to 14 operations over three hashes, keys computed in different ways; after operations "
                "the printed value and the printed state of all three are compared with a reference model")
    chk.assumptions = ["the reference model in harness/p_c12.py and RHash in harness/rb.py state Ruby's definitions"]
    r = chk.rng("ops")
    chk.run([build(r) for _ in range(chk.scale(15000, 300000))], size=80)
