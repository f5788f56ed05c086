"""C16: ranges and counting loops against the values they have to visit."""
import math

from core import Case
from rb import RErr, guarded, ins, lit, slit

LIM = [2 ** 62, 2 ** 63, 2 ** 31, 2 ** 64, -2 ** 62, -2 ** 63, -2 ** 31]


def bound(r, wide=0.12):
    k = r.random()
    if k < wide:
        return r.choice(LIM) + r.randint(-4, 4)
    return r.randint(-8, 8)


def near(r, a, d=9):
    return a + r.randint(-d, d)


def succ_str(s):
    """String#succ for plain alphanumerics (rightmost alnum carries)."""
    cs = list(s)
    i = len(cs) - 1
    while i >= 0:
        c = cs[i]
        if c == "z":
            cs[i] = "a"
        elif c == "Z":
            cs[i] = "A"
        elif c == "9":
            cs[i] = "0"
        else:
            cs[i] = chr(ord(c) + 1)
            return "".join(cs)
        i -= 1
    f = s[0]
    return ("a" if f == "z" else "A" if f == "Z" else "1") + "".join(cs)


def str_elems(a, b, x):
    if len(a) == 1 and len(b) == 1:
        return [chr(c) for c in range(ord(a), ord(b) + (0 if x else 1))]
    if len(a) > len(b) or len(a) == len(b) and a > b:
        return []
    out = []
    c = a
    while len(c) <= len(b):
        if c == b:
            if not x:
                out.append(c)
            break
        out.append(c)
        c = succ_str(c)
    return out


def ints(a, b, x):
    """Elements of a range that starts with an integer."""
    if isinstance(b, float):
        top = math.ceil(b) if x else math.floor(b) + 1
    else:
        top = b if x else b + 1
    return list(range(a, top)) if top - a < 5000 else None


def rlit(r, a, b, x):
    la, lb = lit(a), lit(b)
    k = r.random()
    if k < 0.5:
        return "(%s%s%s)" % (la, "..." if x else "..", lb)
    if k < 0.65:
        return "Range.new(%s, %s%s)" % (la, lb, ", true" if x else r.choice(("", ", false")))
    if k < 0.8:
        return "(p0 = %s; p1 = %s; p0%sp1)" % (la, lb, "..." if x else "..")
    if k < 0.9:
        return "[(%s%s%s)][0]" % (la, "..." if x else "..", lb)
    return "((%s)%s(%s))" % (la, "..." if x else "..", lb)


def rng(r):
    """-> (a, b, exclusive, elements)"""
    k = r.random()
    x = r.random() < 0.45
    if k < 0.62:
        a = bound(r, 0)
        b = near(r, a)
        return a, b, x, ints(a, b, x)
    if k < 0.72:
        a = r.choice((2 ** 62 - 1, -2 ** 62)) - 0
        a = a - r.randint(0, 6) if a > 0 else a + r.randint(0, 6)
        b = max(min(near(r, a, 5), 2 ** 62 - 1), -2 ** 62)
        return a, b, x, ints(a, b, x)
    if k < 0.82:
        a = bound(r, 0)
        b = a + r.choice((0.0, 0.5, 1.5, 2.0, 3.0, 3.25, -0.5, -1.0, 6.75))
        return a, float(b), x, ints(a, float(b), x)
    al = r.choice(("abcdeyz", "ABYZ", "0189"))
    n = r.randint(1, 2)
    a = "".join(r.choice(al) for _ in range(n))
    m = n if r.random() < 0.6 else r.randint(1, 3)
    b = a
    if m == n and r.random() < 0.7:
        for _ in range(r.randint(0, 12)):
            b = succ_str(b)
        if len(b) > 3:
            b = a
    else:
        b = "".join(r.choice(al) for _ in range(min(m, 2)))
    if len(a) == 1 and len(b) == 1:
        return a, b, x, str_elems(a, b, x)
    e = str_elems(a, b, x)
    return a, b, x, e


def cmpv(a, b):
    if isinstance(a, str) != isinstance(b, str):
        return None
    if not isinstance(a, str):
        if not (isinstance(a, int) and isinstance(b, int)):
            a, b = float(a), float(b)
    return (a > b) - (a < b)


def incl(a, b, x, v):
    c = cmpv(a, v)
    if c is None or c > 0:
        return False
    c = cmpv(v, b)
    return c is not None and (c < 0 or c == 0 and not x)


def visits(r, es, call, ret):
    """Statements that visit `es` through `call { |i| ... }`; -> (src, lines)"""
    k = r.random()
    if k < 0.3:
        return "s = []\nx = %s { |i| s << i }\nv [x, s]" % call, ["=" + ins([ret, es])]
    if k < 0.4:
        return "s = []\n%s do |i|\n  next if s.size %% 2 == 1 && s << nil\n  s << i\nend\nv s" % call, \
            ["=" + ins([e if j % 2 == 0 else None for j, e in enumerate(es)])]
    if k < 0.55 and es:
        j = r.randrange(len(es))
        return "s = []\nx = %s { |i| s << i; break [i] if s.size == %d }\nv [x, s]" % (call, j + 1), ["=" + ins([[es[j]], es[:j + 1]])]
    if k < 0.65:
        return "s = []\nf = lambda { |i| s << i }\n%s(&f)\nv s" % call if not call.endswith(")") else \
            "s = []\n%s { |i| s.unshift(i) }\nv s" % call, ["=" + ins(es if not call.endswith(")") else es[::-1])]
    if k < 0.75:
        return "n = 0\n%s { n += 1 }\nv n" % call, ["=%d" % len(es)]
    if k < 0.85 and es and not any(isinstance(e, str) for e in es):
        t = es[0] * 0
        for e in es:
            t += e
        return "t = %s\n%s { |i| t += i }\nv t" % ("0.0" if isinstance(es[0], float) else "0", call), ["=" + ins(t)]
    if es:
        return ("begin\n  %s { |i| raise ArgumentError, i.inspect if i == %s }\nrescue ArgumentError => e\n  v e.message\nend"
                % (call, lit(es[-1]))), ["=" + ins(ins(es[-1]))]
    return "%s { |i| v i }\nv :none" % call, ["=:none"]


def loop_case(r):
    k = r.random()
    if k < 0.16:
        n = r.randint(-2, 12)
        src, exp = visits(r, list(range(max(n, 0))), "%s.times" % lit(n), n)
        return "times", src, exp
    if k < 0.36:
        a = bound(r, 0.25)
        b = near(r, a, 6)
        if r.random() < 0.2 and abs(a) < 100:
            b = b + 0.5
        es = list(range(a, math.floor(b) + 1))
        src, exp = visits(r, es, "%s.upto(%s)" % (lit(a), lit(b)), a)
        return "upto", src, exp
    if k < 0.54:
        a = bound(r, 0.25)
        b = near(r, a, 6)
        if r.random() < 0.2 and abs(a) < 100:
            b = b + 0.5
        es = list(range(a, math.ceil(b) - 1, -1))
        src, exp = visits(r, es, "%s.downto(%s)" % (lit(a), lit(b)), a)
        return "downto", src, exp
    if k < 0.76:
        a = bound(r, 0.25)
        b = near(r, a, 14)
        st = r.choice((1, 2, 3, 5, -1, -2, -3, -7, 100, -100, 0))
        if r.random() < 0.06:
            st = r.choice((2 ** 62, -2 ** 62, 2 ** 64))
        if st == 0:
            return "step0", "begin\n  %s.step(%s, 0) { |i| break }\n  v :no\nrescue ArgumentError\n  v :err\nend" % (lit(a), lit(b)), ["=:err"]
        es = list(range(a, b + (1 if st > 0 else -1), st))
        if st == 1 and r.random() < 0.5:
            call = "%s.step(%s)" % (lit(a), lit(b))
        else:
            call = "%s.step(%s, %s)" % (lit(a), lit(b), lit(st))
        src, exp = visits(r, es, call, a)
        return "step", src, exp
    if k < 0.84:
        a = r.randint(-5, 5)
        b = a + r.choice((r.randint(-6, 6), r.randint(-12, 12) / 4))
        st = r.choice((0.5, 0.25, -0.5, 1.5, -0.75, 2.0, 0.1, 1)) if isinstance(b, int) else r.choice((0.5, -0.5, 1, -1, 2, 0.25))
        if isinstance(b, int) and isinstance(st, int):
            st = 0.5
        err = (abs(a) + abs(b) + abs(b - a)) / abs(st) * 2.220446049250313e-16
        n = math.floor((b - a) / st + min(err, 0.5))
        es = [(min if st > 0 else max)(i * float(st) + float(a), float(b)) for i in range(n + 1)]
        es = [e + 0.0 for e in es]
        src, exp = visits(r, es, "%s.step(%s, %s)" % (lit(a), lit(b), lit(st)), a)
        return "fstep", src, exp
    if k < 0.92:
        n = r.randint(0, 6)
        es = [r.choice((r.randint(-9, 9), "a", "b")) for _ in range(n)]
        m = r.choice(("each_with_index", "each", "each_index"))
        if m == "each_with_index":
            return m, "s = []\nx = %s.each_with_index { |e, i| s << [i, e] }\nv [x, s]" % lit(es), ["=" + ins([es, [[i, e] for i, e in enumerate(es)]])]
        if m == "each":
            src, exp = visits(r, es, "%s.each" % lit(es), es)
            if "t +=" in src or "raise" in src:
                src, exp = "s = []\n%s.each { |e| s << e }\nv s" % lit(es), ["=" + ins(es)]
            return m, src, exp
        return m, "s = []\nfor e in %s\n  s << e\nend\nv s" % lit(es), ["=" + ins(es)]
    # enumerators made without a block
    a, b = r.randint(-4, 4), r.randint(-4, 6)
    call, es = r.choice((("%d.times" % abs(a), list(range(abs(a)))), ("%s.upto(%d)" % (lit(a), b), list(range(a, b + 1))),
                         ("%s.downto(%s)" % (lit(b), lit(a)), list(range(b, a - 1, -1))),
                         ("%s.step(%d, 2)" % (lit(a), b), list(range(a, b + 1, 2)))))
    h = r.random()
    if h < 0.4:
        return "enum", "v %s.map { |i| i * 2 }" % call, ["=" + ins([e * 2 for e in es])]
    if h < 0.6:
        return "enum", "v %s.with_index.map { |i, j| [i, j] }" % call if False else "s = []\n%s.each { |i| s << i }\nv s" % call, ["=" + ins(es)]
    if h < 0.8:
        return "enum", "s = []\n%s.with_index { |i, j| s << [i, j] }\nv s" % call, ["=" + ins([[e, i] for i, e in enumerate(es)])]
    lines = ["=" + ins(es)]
    return "enum", "e = %s\ns = []\nbegin\n  while true\n    s << e.next\n  end\nrescue StopIteration\n  v s\nend" % call, lines


def range_case(r):
    a, b, x, es = rng(r)
    R = rlit(r, a, b, x)
    k = r.choice(("each", "each", "map", "map", "to_a", "first", "firstn", "lastn", "begin", "include", "include", "===", "case", "all", "flat_map",
                  "for", "eq", "str", "excl", "key", "sym", "slice", "fullfirst", "frozen"))
    es = es if es is not None else []
    if k == "each":
        src, exp = visits(r, es, R + ".each", "@")
        exp = [e.replace('"@"', "%s%s%s" % (ins(a), "..." if x else "..", ins(b))) for e in exp]
        if isinstance(a, str) and "@" in exp[0]:
            pass
        return k, src, exp
    if k == "map":
        if es and isinstance(es[0], str):
            return k, "v %s.map { |i| i + i }" % R, ["=" + ins([e + e for e in es])]
        return k, "v %s.map { |i| i * 2 }" % R, ["=" + ins([e * 2 for e in es])]
    if k == "to_a":
        return k, "v %s.to_a" % R, ["=" + ins(es)]
    if k in ("first", "begin"):
        return k, "q = %s\nv [q.first, q.begin, q.last, q.end]" % R, ["=" + ins([a, a, b, b])]
    if k in ("firstn", "fullfirst"):
        n = r.choice((0, 1, 2, 3, 5, 20))
        return k, "v %s.first(%d)" % (R, n), ["=" + ins(es[:n])]
    if k == "lastn":
        n = r.choice((0, 1, 2, 3, 5, 20))
        return k, "v %s.last(%d)" % (R, n), ["=" + ins(es[len(es) - n:] if n and n <= len(es) else es if n else [])]
    if k in ("include", "===", "case"):
        if isinstance(a, str):
            k = "===" if k == "include" else k
            val = r.choice((a, b, r.choice("abmzAZ059"), "mm", 5))
        else:
            val = r.choice((a, b, near(r, a), near(r, a) + 0.5, a - 1, b + 1, int(b) if b == b else 0, "q", None))
        res = incl(a, b, x, val) if val is not None else False
        if isinstance(val, str) and not isinstance(a, str):
            res = False
        if k == "include":
            return k, "v %s.include?(%s)" % (R, lit(val)), ["=" + ins(res)]
        if k == "===":
            return k, "v(%s === %s)" % (R, lit(val)), ["=" + ins(res)]
        return k, "case %s\nwhen %s then v :in\nelse v :out\nend" % (lit(val), R), ["=:in" if res else "=:out"]
    if k == "all":
        if es and isinstance(es[0], str) or isinstance(a, str):
            return "begin", "q = %s\nv [q.begin, q.end]" % R, ["=" + ins([a, b])]
        t = near(r, a, 6)
        n = 0
        for e in es:
            n += 1
            if not e < t:
                break
        return k, "n = 0\nx = %s.all? { |i| n += 1; i < %s }\nv [x, n]" % (R, lit(t)), ["=" + ins([all(e < t for e in es), n])]
    if k == "flat_map":
        if isinstance(a, str):
            return "to_a", "v %s.to_a" % R, ["=" + ins(es)]
        return k, "v %s.flat_map { |i| i.even? ? [i, [i]] : i }" % R, \
            ["=" + ins([y for e in es for y in ([e, [e]] if e % 2 == 0 else [e])])]
    if k == "for":
        if isinstance(a, str):
            return "str", "v %s.to_s" % R, ["=" + ins("%s%s%s" % (a, "..." if x else "..", b))]
        st = r.random()
        if st < 0.5:
            return k, "s = []\nfor i in %s\n  s << i\nend\nv [s, i]" % R if es else "s = []\nfor i in %s\n  s << i\nend\nv s" % R, \
                ["=" + ins([es, es[-1]] if es else es)]
        return k, "s = []\nfor i in %s do next if i.odd?; s << i; end\nv s" % R, ["=" + ins([e for e in es if e % 2 == 0])]
    if k == "eq":
        a2, b2, x2 = r.choice((a, near(r, a, 1) if not isinstance(a, str) else a)), b, r.choice((x, not x))
        same = a2 == a and x2 == x
        try_ok = not (isinstance(a2, str) != isinstance(b2, str))
        return k, "v [%s == %s, %s == 1, %s != nil]" % (R, rlit(r, a2, b2, x2), R, R), ["=" + ins([same, False, True])] if try_ok else ["=" + ins([same, False, True])]
    if k == "str":
        t = "%s%s%s" % (ins(a), "..." if x else "..", ins(b))
        u = "%s%s%s" % (a if isinstance(a, str) else ins(a), "..." if x else "..", b if isinstance(b, str) else ins(b))
        return k, 'v [%s.inspect, %s.to_s, "#{%s}"]' % (R, R, R.replace('"', "'") if '"' in R else R), ["=" + ins([t, u, u])]
    if k == "excl":
        return k, "v %s.exclude_end?" % R, ["=" + ins(x)]
    if k == "key":
        return k, "h = {%s => 1}\nv [h[%s], h[%s]]" % (R, rlit(r, a, b, x), rlit(r, a, b, not x)), ["=" + ins([1, None])]
    if k == "sym":
        if isinstance(a, str):
            return k, "v %s.map(&:upcase)" % R, ["=" + ins([e.upper() for e in es])]
        return k, "v %s.map(&:succ)" % R, ["=" + ins([e + 1 for e in es])]
    if k == "slice":
        arr = list(range(20, 20 + r.randint(0, 8)))
        if isinstance(a, str) or isinstance(b, float):
            return "to_a", "v %s.to_a" % R, ["=" + ins(es)]
        n = len(arr)
        lo = a + n if a < 0 else a
        if lo < 0 or lo > n:
            res = None
        else:
            hi = b + n if b < 0 else b
            hi = hi if x else hi + 1
            res = arr[lo:max(hi, lo)]
        st = "".join(chr(97 + e - 20) for e in arr)
        res2 = None if res is None else "".join(chr(97 + e - 20) for e in res)
        if abs(a) > 2 ** 40:
            return "to_a", "v %s.to_a" % R, ["=" + ins(es)]
        return k, "q = %s\nv [%s[q], %s[q]]" % (R, lit(arr), slit(st)), ["=" + ins([res, res2])]
    # bounds of mixed or unordered kinds
    bad = r.choice(('(1.."a")', '("a"..1)', "(nil..1)", "(1..[])", 'Range.new(:a, 1)', "([]..{})"))
    if r.random() < 0.5:
        return "bad", "begin\n  x = %s\n  v :no\nrescue ArgumentError\n  v :err\nend" % bad, ["=:err"]
    m = r.choice(("to_a", "each { |i| i }", "map { |i| i }", "first(2)"))
    return "noiter", "begin\n  (%s..%s).%s\n  v :no\nrescue TypeError\n  v :err\nend" % (lit(r.randint(-9, 9) / 2), lit(r.randint(5, 9)), m), ["=:err"]


def check(chk):
    chk.rule = ("seeded random ranges (integer, float-ended, at the limits of small integers, strings) and counting loops (times, upto, downto, "
                "step, each, each_with_index, for, enumerators of them), ascending, descending, empty, inclusive and exclusive, whose visited "
                "values, results, early exits and membership answers are compared with the prescribed ones; distinct by source text")
    chk.assumptions = ["String#succ is modelled for strings of letters or digits only"]
    r = chk.rng("ops")
    cases = []
    for _ in range(chk.scale(15000, 200000)):
        src, exp, tags = [], [], []
        for _ in range(3):
            tag, s, e = range_case(r) if r.random() < 0.6 else loop_case(r)
            src.append(s)
            exp += e
            tags.append(tag)
        cases.append(Case("\n".join(src), exp, tags, r.choice(("top", "def", "block", "lambda"))))
    r = chk.rng("order")
    for _ in range(chk.scale(600, 5000)):
        a, b = r.randint(-5, 5), r.randint(-3, 9)
        op = r.choice(("..", "..", "..."))
        e = "t.call(1, %d)%st.call(2, %d)" % (a, op, b)
        els = list(range(a, b + (0 if op == "..." else 1)))
        form, exp = r.choice((("(%s)", "%d%s%d" % (a, op, b)), ("(%s).to_a", ins(tuple(els))), ("(%s).include?(t.call(3, 1))", None),
                              ("[0, (%s)]", "[0, %d%s%d]" % (a, op, b)), ("(%%s) == (t.call(4, %d)%st.call(5, %d))" % (a, op, b), "true"),
                              ("(%s).first", str(a)), ("(%s).map { |q| q }", ins(tuple(els)))))
        out = ["t1", "t2"]
        if exp is None:
            out.append("t3")
            exp = "true" if 1 in els else "false"
        elif "t.call(4" in form:
            out += ["t4", "t5"]
        cases.append(Case("t = lambda { |k, x| puts \"t#{k}\"; x }\nv((%s))" % (form % e), out + ["=" + exp], ("order of bounds",), r.choice(("top", "def", "block", "lambda"))))
    chk.run(cases, size=100)
