"""C11: arrays against a reference model, as histories of operations on shared and nested arrays."""
from core import Case
from rb import RArr, RErr, Rng, Sym, eqlkey, ins, lit

INTS = (0, 1, 2, 3, -1, -2, 7, 10, 100, 2 ** 40, 2 ** 62, -2 ** 62 - 1, 2 ** 64)
STRS = ("", "a", "b", "ab", "xyz", "日本", "a b", "0")
ATOMS = list(INTS[:9]) * 2 + list(INTS[9:]) + list(STRS) + [Sym("a"), Sym("foo"), None, None, True, False, 1.5, -0.25]


def to_s(v):
    if v is None:
        return ""
    if isinstance(v, (Sym, str)):
        return str(v)
    return ins(v)


def eq(a, b):
    if isinstance(a, RArr) and isinstance(b, RArr):
        return len(a.a) == len(b.a) and all(eq(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, Sym) != isinstance(b, Sym):
        return False
    if isinstance(a, str) and isinstance(b, str):
        return str(a) == str(b)
    return a is b


def truthy(v):
    return v is not None and v is not False


def cmpv(a, b):
    """<=> or None"""
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    if num(a) and num(b):
        return (a > b) - (a < b)
    if isinstance(a, str) and isinstance(b, str) and isinstance(a, Sym) == isinstance(b, Sym):
        x, y = str(a).encode(), str(b).encode()
        return (x > y) - (x < y)
    if isinstance(a, RArr) and isinstance(b, RArr):
        for x, y in zip(a.a, b.a):
            c = cmpv(x, y)
            if c is None or c != 0:
                return c
        return (len(a.a) > len(b.a)) - (len(a.a) < len(b.a))
    if a is b or eq(a, b):
        return 0
    return None


def contains(outer, inner):
    if outer is inner:
        return True
    return isinstance(outer, RArr) and any(contains(x, inner) for x in outer.a)


class World:
    def __init__(self, r):
        self.r = r
        self.vars = {}

    def atom(self):
        return self.r.choice(ATOMS)

    def arr(self, depth=1, n=None):
        r = self.r
        n = r.choice((0, 1, 2, 3, 3, 4, 5, 6, 8)) if n is None else n
        pool = [self.atom() for _ in range(r.randint(1, 4))]
        return RArr([self.val(depth, pool) for _ in range(n)])

    def val(self, depth=1, pool=None):
        r = self.r
        if depth > 0 and r.random() < 0.15:
            return self.arr(depth - 1, r.randint(0, 3))
        if pool and r.random() < 0.6:
            return r.choice(pool)
        return self.atom()

    def index(self, a):
        r = self.r
        n = len(a.a)
        k = r.random()
        if k < 0.5 and n:
            return r.randrange(n)
        if k < 0.75:
            return -r.randint(1, n + 1)
        return r.choice((n, n + 1, n + 2, 0, -n, -n - 1, -n - 2, n - 1))

    def length(self, a):
        return self.r.choice((0, 1, 2, 3, len(a.a), len(a.a) + 3, -1, 2 ** 40))


def aslice(a, i, n):
    L = len(a.a)
    if i < 0:
        i += L
    if i < 0 or i > L or n < 0:
        return None
    return RArr(a.a[i:i + n])


def arange(a, b, e, x):
    L = len(a.a)
    if b < 0:
        b += L
    if b < 0 or b > L:
        return None
    if e < 0:
        e += L
    if not x:
        e += 1
    return RArr(a.a[b:max(b, e)] if e > b else [])


def splice(a, i, n, v):
    L = len(a.a)
    if n < 0:
        raise RErr("IndexError")
    if i < 0:
        i += L
        if i < 0:
            raise RErr("*Index")
    vs = list(v.a) if isinstance(v, RArr) else [v]
    if i > L:
        a.a.extend([None] * (i - L))
    a.a[i:i + n] = vs


BLK1 = [  # ruby text over x, python
    ("x.nil?", lambda x: x is None), ("!x", lambda x: not truthy(x)), ("x", lambda x: x), ("x.is_a?(Integer)", lambda x: isinstance(x, int) and not isinstance(x, bool)),
    ("x.to_s", to_s), ("x.inspect", ins), ("x.inspect.size > 2", lambda x: len(ins(x)) > 2), ("x.inspect.size % 2", lambda x: len(ins(x)) % 2),
    ("x == 1", lambda x: eq(x, 1)), ("x == 'a'", lambda x: eq(x, "a")), ("[x, x]", lambda x: RArr([x, x])), ("[x]", lambda x: RArr([x])), ("nil", lambda x: None),
    ("x.is_a?(Array)", lambda x: isinstance(x, RArr)), ("x.is_a?(String) ? x.size : 0", lambda x: len(x) if isinstance(x, str) and not isinstance(x, Sym) else 0),
    ("[]", lambda x: RArr([])),
]


def flat(a, level, top):
    out, flag = [], False
    for x in a:
        if isinstance(x, RArr) and level != 0:
            flag = True
            out += flat(x.a, level - 1, top)[0]
        else:
            out.append(x)
    return out, flag


def join(a, sep):
    out = []

    def go(x):
        for y in x.a:
            if isinstance(y, RArr):
                go(y)
            else:
                out.append(to_s(y))
    go(a)
    return sep.join(out)


def same(a, vals):
    a.a[:] = vals
    return a


def uniq(vals, f=lambda x: x):
    seen, out = set(), []
    for x in vals:
        k = eqlkey(f(x))
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def step(w):
    """-> (tag, ruby, thunk that performs it on the model and returns the value)"""
    r = w.r
    names = sorted(w.vars)
    an = r.choice(names)
    a = w.vars[an]
    bn = r.choice(names)
    b = w.vars[bn]
    L = a.a

    def nocycle(v):
        return not contains(v, a)
    k = r.randint(0, 62)
    bt, bf = r.choice(BLK1)
    if k <= 2:
        i = w.index(a)
        if r.random() < 0.3:
            return "at", "%s.at(%s)" % (an, lit(i)), lambda: L[i] if -len(L) <= i < len(L) else None
        return "[]", "%s[%s]" % (an, i), lambda: L[i] if -len(L) <= i < len(L) else None
    if k <= 4:
        i, n = w.index(a), w.length(a)
        return "[i,n]", "%s[%s, %s]" % (an, lit(i), lit(n)), lambda: aslice(a, i, n)
    if k <= 6:
        i, e, x = w.index(a), w.index(a), r.random() < 0.4
        return "[range]", "%s[%s%s%s]" % (an, lit(i), "..." if x else "..", lit(e)), lambda: arange(a, i, e, x)
    if k <= 9:
        i, v = w.index(a), w.val()
        if r.random() < 0.15 and nocycle(b):
            def f():
                if i < -len(L):
                    raise RErr("*Index")
                if i >= len(L):
                    L.extend([None] * (i + 1 - len(L)))
                L[i] = b
                return b
            return "[]=", "(%s[%s] = %s)" % (an, lit(i), bn), f

        def f():
            if i < -len(L):
                raise RErr("*Index")
            if i >= len(L):
                L.extend([None] * (i + 1 - len(L)))
            L[i] = v
            return v
        return "[]=", "(%s[%s] = %s)" % (an, lit(i), lit(v)), f
    if k <= 12:
        i, n = w.index(a), r.choice((0, 1, 2, 3, len(L), len(L) + 3, -1))
        v = w.arr(0) if r.random() < 0.7 else w.atom()
        src = lit(v)
        if r.random() < 0.2:
            v, src = a, an

        def f():
            if n < 0:
                if i < -len(L):
                    raise RErr("*Index")
                raise RErr("IndexError")
            splice(a, i, n, v)
            return v
        return "[i,n]=", "(%s[%s, %s] = %s)" % (an, lit(i), lit(n), src), f
    if k <= 14:
        i, e, x = w.index(a), w.index(a), r.random() < 0.4
        v = w.arr(0) if r.random() < 0.7 else w.atom()

        def f():
            n = len(L)
            s = i + n if i < 0 else i
            if s < 0:
                raise RErr("*Index")
            t = e + n if e < 0 else e
            if not x:
                t += 1
            splice(a, s, max(0, t - s), v)
            return v
        return "[range]=", "(%s[%s%s%s] = %s)" % (an, lit(i), "..." if x else "..", lit(e), lit(v)), f
    if k <= 16:
        if r.random() < 0.2 and nocycle(b):
            return "<<", "(%s << %s)" % (an, bn), lambda: (L.append(b), a)[1]
        v = w.val()
        if r.random() < 0.5:
            return "<<", "(%s << %s)" % (an, lit(v)), lambda: (L.append(v), a)[1]
        vs = [v] + [w.val() for _ in range(r.randint(0, 2))]
        return "push", "%s.push(%s)" % (an, ", ".join(map(lit, vs))), lambda: (L.extend(vs), a)[1]
    if k <= 18:
        return "pop", "%s.pop" % an, lambda: L.pop() if L else None
    if k <= 20:
        if r.random() < 0.5:
            return "shift", "%s.shift" % an, lambda: L.pop(0) if L else None
        n = r.choice((0, 1, 2, len(L), len(L) + 2, -1))

        def f():
            if n < 0:
                raise RErr("ArgumentError")
            out = RArr(L[:n])
            del L[:n]
            return out
        return "shift(n)", "%s.shift(%s)" % (an, lit(n)), f
    if k == 21:
        vs = [w.val() for _ in range(r.randint(0, 3))]
        return "unshift", "%s.unshift(%s)" % (an, ", ".join(map(lit, vs))), lambda: same(a, vs + L)
    if k == 22:
        if b is a or len(L) > 40 or any(contains(x, a) for x in b.a):
            return "length", "%s.length" % an, lambda: len(L)
        return "concat", "%s.concat(%s)" % (an, bn), lambda: same(a, L + b.a)
    if k == 23:
        return "+", "(%s + %s)" % (an, bn), lambda: RArr(L + b.a)
    if k == 24:
        return "-", "(%s - %s)" % (an, bn), lambda: RArr([x for x in L if not any(eq(x, y) for y in b.a)])
    if k == 25:
        n = r.choice((0, 1, 2, 3, -1))

        def f():
            if n < 0:
                raise RErr("ArgumentError")
            return RArr(L * n)
        if len(L) > 20:
            n = 1
        return "*", "(%s * %s)" % (an, lit(n)), f
    if k == 26:
        s = r.choice((",", "", "-", ", "))
        return "*str", "(%s * %s)" % (an, lit(s)), lambda: join(a, s)
    if k == 27:
        if r.random() < 0.3:
            return "join", "%s.join" % an, lambda: join(a, "")
        s = r.choice((",", "", "-", "::"))
        return "join", "%s.join(%s)" % (an, lit(s)), lambda: join(a, s)
    if k == 28:
        return "<=>", "(%s <=> %s)" % (an, bn), lambda: cmpv(a, b)
    if k == 29:
        if r.random() < 0.5:
            return "==", "(%s == %s)" % (an, bn), lambda: eq(a, b)
        return "==", "(%s == %s)" % (an, lit(RArr(list(L)))), lambda: True
    if k == 30:
        return "!=", "(%s != %s)" % (an, bn), lambda: not eq(a, b)
    if k == 31:
        m = r.choice(("map", "collect"))
        return "map", "%s.%s { |x| %s }" % (an, m, bt), lambda: RArr([bf(x) for x in L])
    if k == 32:
        if len(L) > 20:
            return "size", "%s.size" % an, lambda: len(L)
        return "map!", "%s.%s { |x| %s }" % (an, r.choice(("map!", "collect!")), bt), lambda: same(a, [bf(x) for x in L])
    if k == 33:
        def f():
            out = []
            for x in L:
                y = bf(x)
                out += y.a if isinstance(y, RArr) else [y]
            return RArr(out)
        return "flat_map", "%s.flat_map { |x| %s }" % (an, bt), f
    if k == 34:
        return "select", "%s.%s { |x| %s }" % (an, r.choice(("select", "filter")), bt), lambda: RArr([x for x in L if truthy(bf(x))])
    if k == 35:
        return "reject", "%s.reject { |x| %s }" % (an, bt), lambda: RArr([x for x in L if not truthy(bf(x))])
    if k == 36:
        return "partition", "%s.partition { |x| %s }" % (an, bt), lambda: RArr([RArr([x for x in L if truthy(bf(x))]), RArr([x for x in L if not truthy(bf(x))])])
    if k == 37:
        v = r.choice(L) if L and r.random() < 0.7 else w.val()
        return "include?", "%s.include?(%s)" % (an, lit(v)), lambda: any(eq(x, v) for x in L)
    if k == 38:
        return "reverse", "%s.reverse" % an, lambda: RArr(L[::-1])
    if k == 39:
        return "reverse!", "%s.reverse!" % an, lambda: same(a, L[::-1])
    if k == 40:
        n = r.choice((None, 0, 1, 2, -1, -2, 3, len(L), -len(L), len(L) + 1, -len(L) - 1, 1000003, -1000003))

        def f():
            if not L:
                return a
            m = (1 if n is None else n) % len(L)
            return same(a, L[m:] + L[:m])
        return "rotate!", "%s.rotate!%s" % (an, "" if n is None else "(%s)" % lit(n)), f
    if k == 41:
        return "compact", "%s.compact" % an, lambda: RArr([x for x in L if x is not None])
    if k == 42:
        def f():
            n = [x for x in L if x is not None]
            if len(n) == len(L):
                return None
            return same(a, n)
        return "compact!", "%s.compact!" % an, f
    if k == 43:
        m = r.randint(0, 4)
        rows = [w.arr(0, m if r.random() < 0.9 else m + 1) for _ in range(r.randint(0, 4))]

        def f():
            if not rows:
                return RArr([])
            if any(len(x.a) != len(rows[0].a) for x in rows):
                raise RErr("IndexError")
            return RArr([RArr([x.a[i] for x in rows]) for i in range(len(rows[0].a))])
        if rows and not rows[0].a:
            return "transpose", "[].transpose", lambda: RArr([])
        return "transpose", "%s.transpose" % lit(RArr(rows)), f
    if k == 44:
        nums = [r.choice((r.randint(-5, 5), 1.5, -2.25, 2 ** 62, -2 ** 70)) for _ in range(r.randint(0, 6))] if r.random() < 0.6 else [r.choice(STRS) for _ in range(r.randint(0, 5))]
        m = r.choice(("min", "max"))

        def f():
            best = None
            for x in nums:
                if best is None or (cmpv(x, best) < 0 if m == "min" else cmpv(x, best) > 0):
                    best = x
            return best
        return m, "%s.%s" % (lit(nums), m), f
    if k == 45:
        v = w.atom()
        return "fill", "%s.fill(%s)" % (an, lit(v)), lambda: same(a, [v] * len(L))
    if k == 46:
        return "clear", "%s.clear" % an, lambda: same(a, [])
    if k == 47:
        if r.random() < 0.4:
            return "uniq{}", "%s.uniq { |x| %s }" % (an, bt), lambda: RArr(uniq(L, bf))
        return "uniq", "%s.uniq" % an, lambda: RArr(uniq(L))
    if k == 48:
        blk = r.random() < 0.4

        def f():
            n = uniq(L, bf) if blk else uniq(L)
            if len(n) == len(L):
                return None
            return same(a, n)
        return "uniq!", "%s.uniq!%s" % (an, " { |x| %s }" % bt if blk else ""), f
    if k == 49:
        m = r.choice(("any?", "all?"))
        fn = any if m == "any?" else all
        if r.random() < 0.3:
            return m, "%s.%s" % (an, m), lambda: fn(truthy(x) for x in L)
        if r.random() < 0.4:
            c, t = r.choice((("Integer", int), ("String", str), ("Array", RArr), ("NilClass", type(None))))
            return m + "()", "%s.%s(%s)" % (an, m, c), lambda: fn((isinstance(x, t) and not isinstance(x, (bool, Sym))) for x in L)
        return m + "{}", "%s.%s { |x| %s }" % (an, m, bt), lambda: fn(truthy(bf(x)) for x in L)
    if k == 50:
        i, n = r.randint(0, len(L) + 2), r.randint(0, 4)

        def f():
            if i > len(L):
                return None
            out = RArr(L[i:i + n])
            del L[i:i + n]
            return out
        return "slice!", "%s.slice!(%d, %d)" % (an, i, n), f
    if k == 51:
        m = r.choice(("first", "last"))
        return m, "%s.%s" % (an, m), lambda: None if not L else L[0 if m == "first" else -1]
    if k == 52:
        m = r.choice(("dup", "clone"))
        nn = r.choice(("a", "b", "c", "d"))

        def f():
            w.vars[nn] = RArr(list(L))
            return w.vars[nn]
        return m, "(%s = %s.%s)" % (nn, an, m), f
    if k == 53:
        n = r.choice((0, 1, 2, len(L), len(L) + 1, -1))

        def f():
            if n < 0:
                raise RErr("ArgumentError")
            return RArr(L[n:])
        return "drop", "%s.drop(%s)" % (an, lit(n)), f
    if k == 54:
        cn = r.choice(names)
        c = w.vars[cn]
        if r.random() < 0.5:
            return "zip", "%s.zip(%s)" % (an, bn), lambda: RArr([RArr([x, b.a[i] if i < len(b.a) else None]) for i, x in enumerate(L)])
        return "zip", "%s.zip(%s, %s)" % (an, bn, cn), lambda: RArr([RArr([x] + [y.a[i] if i < len(y.a) else None for y in (b, c)]) for i, x in enumerate(L)])
    if k == 55:
        c, t = r.choice((("Integer", int), ("String", str), ("Array", RArr), ("Symbol", Sym)))
        ok = lambda x: isinstance(x, t) and not isinstance(x, bool) and (t is Sym or not isinstance(x, Sym))
        if r.random() < 0.5:
            return "grep", "%s.grep(%s)" % (an, c), lambda: RArr([x for x in L if ok(x)])
        return "grep{}", "%s.grep(%s) { |x| %s }" % (an, c, bt), lambda: RArr([bf(x) for x in L if ok(x)])
    if k == 56:
        if r.random() < 0.3:
            return "count", "%s.count" % an, lambda: len(L)
        v = r.choice(L) if L and r.random() < 0.7 else w.val()
        return "count(v)", "%s.count(%s)" % (an, lit(v)), lambda: sum(eq(x, v) for x in L)
    if k == 57:
        m = r.choice(("inject", "reduce"))
        return "inject", "%s.%s('') { |s, x| s + x.inspect + ';' }" % (an, m), lambda: "".join(ins(x) + ";" for x in L)
    if k == 58:
        m = r.choice(("index", "find_index"))
        if r.random() < 0.5:
            v = r.choice(L) if L and r.random() < 0.7 else w.val()
            return "index(v)", "%s.%s(%s)" % (an, m, lit(v)), lambda: next((i for i, x in enumerate(L) if eq(x, v)), None)
        return "index{}", "%s.%s { |x| %s }" % (an, m, bt), lambda: next((i for i, x in enumerate(L) if truthy(bf(x))), None)
    if k == 59:
        return "find", "%s.%s { |x| %s }" % (an, r.choice(("find", "detect")), bt), lambda: next((x for x in L if truthy(bf(x))), None)
    if k == 60:
        xs = sorted(r.randint(-9, 9) for _ in range(r.randint(0, 8)))
        t = r.randint(-10, 10)
        if r.random() < 0.5:
            return "bsearch", "%s.bsearch { |x| x >= %s }" % (lit(xs), lit(t)), lambda: next((x for x in xs if x >= t), None)
        return "bsearch_index", "%s.bsearch_index { |x| x >= %s }" % (lit(xs), lit(t)), lambda: next((i for i, x in enumerate(xs) if x >= t), None)
    if k == 61:
        v = r.choice(L) if L and r.random() < 0.7 else w.val()

        def f():
            hit = [x for x in L if eq(x, v)]
            same(a, [x for x in L if not eq(x, v)])
            return hit[-1] if hit else None
        return "delete", "%s.delete(%s)" % (an, lit(v)), f
    n = r.choice((None, None, 0, 1, 2, -1))
    if r.random() < 0.6:
        return "flatten", "%s.flatten%s" % (an, "" if n is None else "(%s)" % lit(n)), lambda: RArr(flat(L, -1 if n is None else n, a)[0])

    def f():
        out, flag = flat(L, -1 if n is None else n, a)
        same(a, out)
        return a if flag else None
    return "flatten!", "%s.flatten!%s" % (an, "" if n is None else "(%s)" % lit(n)), f


def live_step(w):
    """Iteration whose block changes the array."""
    r = w.r
    an = r.choice(sorted(w.vars))
    a = w.vars[an]
    L = a.a
    what = r.choice(("pop", "push", "shift", "clear", "set"))
    m = r.choice(("each", "map", "select", "reject", "each_with_index", "each_index", "find_index", "any?", "all?", "partition", "flat_map", "inject"))
    at = r.randint(0, 3)
    code = {"pop": "%s.pop" % an, "push": "%s << :new" % an, "shift": "%s.shift" % an, "clear": "%s.clear" % an, "set": "%s[n] = 9" % an}[what]
    par = {"each_with_index": "|x, i|", "each_index": "|i|", "inject": "|s, x|"}.get(m, "|x|")
    ret = {"find_index": "false", "any?": "false", "all?": "true", "inject": "s", "flat_map": "[x]"}.get(m, "x")
    if m == "each_index":
        ret = "x = i"
    call = "%s.%s%s { %s n += 1; t << %s; %s if n == %d; %s }" % (an, m, "(0)" if m == "inject" else "", par, "i" if m == "each_index" else "x", code, at, ret)
    src = "(n = 0; t = []; q = %s; [q, t])" % call

    def f():
        t, res, i, n = [], [], 0, 0
        while i < len(L):
            x = i if m == "each_index" else L[i]
            n += 1
            t.append(x)
            if n == at:
                if what == "pop":
                    L and L.pop()
                elif what == "push":
                    L.append(Sym("new"))
                elif what == "shift":
                    L and L.pop(0)
                elif what == "clear":
                    del L[:]
                else:
                    if n >= len(L):
                        L.extend([None] * (n + 1 - len(L)))
                    L[n] = 9
            res.append(x)
            i += 1
        q = {"each": a, "each_with_index": a, "each_index": a, "find_index": None, "any?": False, "all?": True, "inject": 0}.get(m)
        if m in ("map", "flat_map"):
            q = RArr(res)
        elif m == "select":
            q = RArr([x for x in res if truthy(x)])
        elif m == "reject":
            q = RArr([x for x in res if not truthy(x)])
        elif m == "partition":
            q = RArr([RArr([x for x in res if truthy(x)]), RArr([x for x in res if not truthy(x)])])
        return RArr([q, RArr(t)])
    return "live " + m, src, f


def build(r):
    w = World(r)
    src, exp, tags = [], [], []
    for n in ("a", "b", "c", "d"):
        w.vars[n] = w.arr(2 if r.random() < 0.3 else 1)
        src.append("%s = %s" % (n, lit(w.vars[n])))
    for _ in range(r.randint(4, 12)):
        tag, code, f = live_step(w) if r.random() < 0.08 else step(w)
        tags.append(tag)
        try:
            line = "=" + ins(f())
            src.append("begin; v(%s); rescue StandardError => e; puts '!' + e.class.to_s; end" % code)
        except RErr as e:
            if e.cls == "*Index":   # IndexError or its subclass RangeError, by the form of the index
                src.append("begin; v(%s); rescue IndexError, RangeError => e; puts '!I'; end" % code)
                line = "!I"
            else:
                src.append("begin; v(%s); rescue StandardError => e; puts '!' + e.class.to_s; end" % code)
                line = "!" + e.cls
        exp.append(line)
        if any(len(x.a) > 200 for x in w.vars.values()):
            break
        if r.random() < 0.5:
            src.append("v([a, b, c, d])")
            exp.append("=" + ins([w.vars[n] for n in "abcd"]))
    src.append("v([a, b, c, d])")
    exp.append("=" + ins([w.vars[n] for n in "abcd"]))
    return Case("\n".join(src), exp, tags, r.choice(("top", "def", "block", "lambda")))


def check(chk):
    chk.rule = ("seeded random histories of 4 to 12 operations over four arrays that may share elements; after operations the "
                "printed value and the printed state of all four are compared with a reference model")
    chk.assumptions = ["the reference model in harness/p_c11.py states Ruby's definitions"]
    r = chk.rng("ops")
    chk.run([build(r) for _ in range(chk.scale(15000, 300000))], size=80)
