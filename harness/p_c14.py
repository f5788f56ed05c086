"""C14: sorting, extremes, binary search and comparison against one order per kind of value."""
import functools
import math

from core import PRELUDE, Case
from rb import Sym, ins, lit

PRE = """class Cm
  include Comparable
  attr_reader :k, :id
  def initialize(k, id)
    @k = k
    @id = id
  end
  def <=>(o)
    o.is_a?(Cm) ? @k <=> o.k : nil
  end
  def inspect
    "c#{@k}i#{@id}"
  end
end
class Cu
  attr_reader :k
  def initialize(k)
    @k = k
  end
  def <=>(o)
    o.k <=> @k
  end
  def inspect
    "u#{@k}"
  end
end
"""


class Obj:
    __slots__ = ("c", "k", "id")

    def __init__(self, c, k, i):
        self.c, self.k, self.id = c, k, i


def show(x):
    if isinstance(x, Obj):
        return "c%di%d" % (x.k, x.id) if x.c == "Cm" else "u%d" % x.k
    if isinstance(x, list):
        return "[" + ", ".join(map(show, x)) + "]"
    return ins(x)


def src(x):
    if isinstance(x, Obj):
        return "Cm.new(%d, %d)" % (x.k, x.id) if x.c == "Cm" else "Cu.new(%d)" % x.k
    if isinstance(x, list):
        return "[" + ", ".join(map(src, x)) + "]"
    return lit(x)


def cmp(a, b):
    """Ruby's <=>; None when not comparable."""
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    if num(a) and num(b):
        if a != a or b != b:
            return None
        if isinstance(a, int) != isinstance(b, int):
            # the interpreter compares an integer with a float as floats
            a, b = big(a), big(b)
        return (a > b) - (a < b)
    if type(a) is Sym and type(b) is Sym or type(a) is str and type(b) is str:
        x, y = a.encode(), b.encode()
        return (x > y) - (x < y)
    if isinstance(a, list) and isinstance(b, list):
        for x, y in zip(a, b):
            c = cmp(x, y)
            if c != 0:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.c == b.c:
        c = (a.k > b.k) - (a.k < b.k)
        return c if a.c == "Cm" else -c
    if a is None and b is None or a is True and b is True or a is False and b is False:
        return 0
    return None


def big(x):
    try:
        return float(x)
    except OverflowError:
        return math.inf if x > 0 else -math.inf


LET = "abcxyzAZ019 ~éあ𝄞\x00"


def element(r, kind, n):
    if kind == "int":
        return r.randint(-9, 9) if n % 2 else r.randint(-1000, 1000)
    if kind == "big":
        return r.choice((0, 1, -1)) * 2 ** r.randint(50, 130) + r.randint(-3, 3)
    if kind == "float":
        return r.choice((r.randint(-30, 30) / 4, r.uniform(-1e6, 1e6), r.choice((1e300, -1e300, 1e-300, math.inf, -math.inf, 0.0))))
    if kind == "mix":
        k = r.random()
        return (r.randint(-20, 20) if k < .4 else r.randint(-80, 80) / 4 if k < .8 else r.choice((2 ** 70, -2 ** 70, 2 ** 64, 1e300, -1e30, 2 ** 62)))
    if kind == "str":
        return "".join(r.choice(LET) for _ in range(r.choice((0, 1, 1, 2, 2, 3, 5))))
    if kind == "sym":
        return Sym("".join(r.choice("abcz") for _ in range(r.choice((1, 1, 2, 2, 3)))))
    if kind == "arr":
        return [r.randint(0, 2) for _ in range(r.randint(0, 3))]
    if kind == "arr2":
        return [r.choice("ab") + r.choice(("", "c")), r.choice((r.randint(0, 3), r.randint(0, 6) / 2))]
    if kind == "cm":
        return Obj("Cm", r.randint(0, 5) if n % 2 else r.randint(-99, 99), r.randint(0, 999))
    if kind == "cu":
        return Obj("Cu", r.randint(-99, 99), 0)
    raise ValueError(kind)


def sequence(r, kind=None):
    kind = kind or r.choice(("int", "int", "int", "big", "float", "mix", "str", "sym", "arr", "arr2", "cm", "cu"))
    n = r.choice((0, 1, 2, 3, 5, 8, r.randint(9, 19), 20, 21, 22, r.randint(23, 60), r.randint(60, 200), r.randint(9, 40)))
    if kind not in ("int", "mix", "float"):
        n = min(n, 70)
    p = r.random()
    par = r.randint(0, 1)
    xs = [element(r, kind, par) for _ in range(n)]
    if p < 0.45:
        pass
    elif p < 0.85:
        # runs: the merge logic depends on natural runs of different lengths and directions
        out = []
        while xs:
            m = r.choice((1, 2, 3, 7, 10, 11, 17, 30))
            run, xs = xs[:m], xs[m:]
            run = sorted(run, key=functools.cmp_to_key(lambda a, b: cmp(a, b) or 0), reverse=r.random() < .4)
            out += run
        xs = out
    elif xs:
        e = xs[0]
        xs = [e if r.random() < 0.8 else x for x in xs]
    return kind, xs


def ordered(key_of, want, descending_cmp=None):
    """Judge of one line: the printed list has the wanted elements, in nondecreasing order of `key_of`."""
    names = {}
    for x in want:
        names.setdefault(show(x), []).append(x)

    def judge(line):
        if not line.startswith("=[") or not line.endswith("]"):
            return "expected a sorted list, printed %r" % line[:200]
        toks = line[2:-1].split(", ") if line != "=[]" else []
        if sorted(toks) != sorted(show(x) for x in want):
            return "not a permutation of the receiver: %r" % line[:400]
        vals = [names[t][0] for t in toks]
        for a, b in zip(vals, vals[1:]):
            if key_of(a, b) > 0:
                return "out of order: %s before %s in %r" % (show(a), show(b), line[:300])
        return None
    return judge


def flat(kind):
    return kind in ("int", "big", "float", "mix", "cm", "cu", "sym")


BLOCKS = [
    ("a <=> b", lambda a, b: cmp(a, b)),
    ("b <=> a", lambda a, b: cmp(b, a)),
    ("(a <=> b) * 7", lambda a, b: cmp(a, b)),
    ("-(a <=> b)", lambda a, b: cmp(b, a)),
    ("(a <=> b) * 2 ** 70", lambda a, b: cmp(a, b)),
    ("0", lambda a, b: 0),
    ("next b <=> a", lambda a, b: cmp(b, a)),
]
NUMBLOCKS = [
    ("a - b", lambda a, b: cmp(a, b)),
    ("b - a", lambda a, b: cmp(b, a)),
    ("a % 3 == b % 3 ? a <=> b : a % 3 <=> b % 3", lambda a, b: cmp([a % 3, a], [b % 3, b])),
    ("[a.abs, a] <=> [b.abs, b]", lambda a, b: cmp([abs(a), a], [abs(b), b])),
    ("a / 10 <=> b / 10", lambda a, b: cmp(a // 10, b // 10)),
    ("a.even? ? (b.even? ? 0 : -1) : (b.even? ? 1 : 0)", lambda a, b: a % 2 - b % 2),
]
KEYS = [
    ("x", lambda x: x),
    ("0", lambda x: 0),
    ("[x]", lambda x: [x]),
]
NUMKEYS = [
    ("-x", lambda x: -x),
    ("x.abs", lambda x: abs(x)),
    ("x % 4", lambda x: x % 4),
    ("[x % 4, -x]", lambda x: [x % 4, -x]),
    ("x * 0.5", lambda x: x * 0.5),
    ("x.to_s", lambda x: str(x)),
    ("x * 2 ** 66", lambda x: x * 2 ** 66),
    ("next x.to_s.size", lambda x: len(str(x))),
]


def recv(r, xs):
    """An expression that makes the receiver."""
    t = src(xs)
    k = r.random()
    if k < 0.6:
        return t
    if k < 0.8 and xs:
        i = r.randint(0, len(xs))
        return "(%s + %s)" % (src(xs[:i]), src(xs[i:]))
    if xs and k < 0.9:
        # a receiver whose start was moved
        return "(q0 = [nil] + %s; q0.shift; q0)" % t
    return "%s.dup" % t


def sort_case(r):
    kind, xs = sequence(r)
    m = r.choice(("sort", "sort", "block", "block", "by", "minmax", "hash"))
    A = recv(r, xs)
    sh = "=" + show(xs)
    if m == "hash":
        if kind in ("arr", "arr2", "cm", "cu", "float"):
            m = "sort"
        else:
            d = {}
            for x in xs[:12]:
                d[x] = r.randint(0, 9)
            pairs = sorted(([k, w] for k, w in d.items()), key=functools.cmp_to_key(cmp))
            if any(isinstance(k, float) for k in d):
                m = "sort"
            else:
                return "hash-sort", "v({%s}.sort)" % ", ".join("%s => %s" % (src(k), src(w)) for k, w in d.items()), ["=" + show(pairs)]
    if m == "sort":
        code = "a = %s\nv a.sort\nv a" % A
        return "sort-" + kind, code, [ordered(cmp, xs) if flat(kind) else
                                      "=" + show(sorted(xs, key=functools.cmp_to_key(cmp))), sh]
    if m == "block":
        b, f = r.choice(BLOCKS + NUMBLOCKS * (kind == "int"))
        if f(1, 2) == 0 and not flat(kind):
            b, f = BLOCKS[1]
        code = "a = %s\nv(a.sort { |a, b| %s })\nv a" % (A, b) if False else "q = %s\nv(q.sort { |a, b| %s })\nv q" % (A, b)
        return "sort-block-" + kind, code, [ordered(f, xs) if flat(kind) else
                                            "=" + show(sorted(xs, key=functools.cmp_to_key(f))), sh]
    if m == "by":
        b, f = r.choice(KEYS + NUMKEYS * (kind == "int"))
        if f(1) == 0 and not flat(kind):
            b, f = KEYS[0]
        g = lambda a, b: cmp(f(a), f(b))
        call = r.choice(("q.sort_by { |x| %s }", "q.sort_by(&->(x) { %s })" if "next" not in b else "q.sort_by { |x| %s }",
                         "q.sort_by do |x| %s end")) % b
        return "sort_by-" + kind, "q = %s\nw = %s\nv w\nv q" % (A, call), [ordered(g, xs) if flat(kind) else
                                                                   "=" + show(sorted(xs, key=functools.cmp_to_key(g))), sh]
    lo = hi = xs[0] if xs else None
    for x in xs[1:]:
        if cmp(x, lo) < 0:
            lo = x
        if cmp(x, hi) > 0:
            hi = x
    return "minmax-" + kind, "q = %s\nv [q.min, q.max]\nv q" % A, ["=" + show([lo, hi]), sh]


ODD = [None, True, False, "s", Sym("y"), [1], 3, 2.5, 2 ** 70, math.nan]


def incomparable(r):
    """Elements without a common order."""
    kind, xs = sequence(r, r.choice(("int", "str", "float", "sym", "arr", "cm")))
    xs = xs[:40]
    if len(xs) < 1:
        xs = [element(r, kind, 1)]
    odd = r.choice(ODD)
    while cmp(odd, xs[0]) is not None or cmp(xs[0], odd) is not None:
        odd = r.choice(ODD)
    xs = xs[:]
    xs.insert(r.randint(0, len(xs)), odd)
    m = r.choice(("q.sort", "q.sort { |a, b| a <=> b }", "q.sort_by { |x| x }", "q.min", "q.max", "q.sort_by { |x| [x] }"))
    return "incomparable", "q = %s\nbegin\n  v %s\nrescue ArgumentError\n  v :arg\nend\nv q" % (
        src(xs), m if "{" not in m else "(" + m + ")"), ["=:arg", "=" + show(xs)]


def exits(r):
    """Blocks that leave or fail in the middle, or change the receiver."""
    n = r.choice((2, 3, 7, 19, 21, 40, 90))
    xs = [r.randint(-50, 50) for _ in range(n)]
    at = r.choice((1, 2, 3, n - 1, n // 2 + 1, n))
    at = max(1, min(at, n - 1))       # a sort makes at least n - 1 comparisons
    k = r.choice(("break", "raise", "nil", "str", "return", "by-break", "by-raise", "mutate", "by-mutate", "gc", "nested", "throwmin"))
    cnt = "n = 0\nq = %s\n" % src(xs)
    end = ["=" + show(xs)]
    if k == "break":
        return k, cnt + "v(q.sort { |a, b| n += 1; break [:out, n] if n == %d; a <=> b })\nv q" % at, ["=[:out, %d]" % at] + end
    if k in ("raise", "throwmin"):
        return k, cnt + "begin\n  q.sort { |a, b| n += 1; raise TypeError, n.to_s if n == %d; b <=> a }\n  v :no\nrescue TypeError => e\n  v e.message\nend\nv q" % at, \
            ['="%d"' % at] + end
    if k == "nil":
        return k, cnt + "begin\n  q.sort { |a, b| n += 1; n == %d ? nil : a <=> b }\n  v :no\nrescue ArgumentError => e\n  v :arg\nend\nv q" % at, ["=:arg"] + end
    if k == "str":
        return k, cnt + "begin\n  q.sort { |a, b| n += 1; n == %d ? 'x' : a <=> b }\n  v :no\nrescue StandardError => e\n  v :err\nend\nv q" % at, ["=:err"] + end
    if k == "return":
        return k, "def sm(q)\n  n = 0\n  q.sort { |a, b| n += 1; return [n, q.size] if n == %d; a <=> b }\nend\nq = %s\nv sm(q)\nv q" % (at, src(xs)), \
            ["=[%d, %d]" % (at, n)] + end
    at = r.randint(1, n)
    if k == "by-break":
        return k, cnt + "v(q.sort_by { |a| n += 1; break [:out, a] if n == %d; a })\nv q" % at, ["=[:out, %d]" % xs[at - 1]] + end
    if k == "by-raise":
        return k, cnt + "begin\n  q.sort_by { |a| n += 1; raise TypeError, a.to_s if n == %d; a }\n  v :no\nrescue TypeError => e\n  v e.message\nend\nv q" % at, \
            ['="%d"' % xs[at - 1]] + end
    strs = ["k%03d" % (x + 100) for x in xs]
    if k in ("mutate", "gc"):
        # sort works on a copy of the receiver
        act = r.choice(("q.clear", "q << 'zz'", "q.shift", "q.pop", "q[0] = 'a'")) if k == "mutate" else "q.clear; GC.start"
        at = max(1, min(at, n - 1))
        return k, "n = 0\nq = %s.map { |x| 'k' + (x + 100).to_s.rjust(3, '0') }\nw = q.sort { |a, b| n += 1; (%s) if n == %d; a <=> b }\nv w" % (
            src(xs), act, at), ["=" + show(sorted(strs))]
    if k == "by-mutate":
        return k, "n = 0\nq = %s\nw = q.sort_by { |a| n += 1; q[0] = 99 if n == %d; -a }\nv w" % (src(xs), at), ["=" + show(sorted(xs, reverse=True))]
    # a sort inside the comparator of a sort
    return k, "q = %s\nv(q.sort { |a, b| [b, a].sort == [b, a] ? (a == b ? 0 : 1) : -1 })\nv q" % src(xs), ["=" + show(sorted(xs))] + end


def search(r):
    big = r.random() < .1
    xs = sorted(r.sample(range(-60, 61), r.choice((0, 1, 2, 3, 5, 8, 13, 30))))
    if big:
        xs = [x * 2 ** 64 for x in xs]
    t = r.choice(xs) if xs and r.random() < .6 else r.randint(-64, 64)
    A = "q = %s\n" % lit(xs)
    k = r.choice(("min", "min", "any", "any", "bool", "range", "bad", "exit"))
    if k == "min":
        op = r.choice((">=", ">"))
        i = next((i for i, x in enumerate(xs) if (x >= t if op == ">=" else x > t)), None)
        return "bsearch", A + "v [q.bsearch { |x| x %s %s }, q.bsearch_index { |x| x %s %s || nil }]" % (op, lit(t), op, lit(t)), \
            ["=" + ins([None if i is None else xs[i], i])]
    if k == "any":
        i = xs.index(t) if t in xs else None
        e = r.choice(("%s <=> x", "%s - x", "(%s - x) * 1.5", "(%s - x) * 2 ** 65", "-(x <=> %s)")) % lit(t)
        return "bsearch-any", A + "v [q.bsearch { |x| %s }, q.bsearch_index { |x| %s }]" % (e, e), ["=" + ins([t if i is not None else None, i])]
    if k == "range":
        lo, hi = t, t + r.randint(0, 9)
        hits = [x for x in xs if lo <= x <= hi]
        return "bsearch-any", A + "w = q.bsearch { |x| x < %s ? 1 : x > %s ? -1 : 0 }\nv(w.nil? ? :none : (w >= %s && w <= %s && q.include?(w)))" % (
            lit(lo), lit(hi), lit(lo), lit(hi)), ["=:none" if not hits else "=true"]
    if k == "bool":
        b = r.choice(("true", "false", "nil"))
        return "bsearch", A + "v [q.bsearch { |x| %s }, q.bsearch_index { %s }]" % (b, b), \
            ["=" + ins([xs[0], 0] if xs and b == "true" else [None, None])]
    if k == "bad":
        b = r.choice(("'a'", ":s", "[1]"))
        return "bsearch", A + "begin\n  v(q.bsearch { |x| %s })\nrescue TypeError\n  v :type\nend" % b, ["=:type" if xs else "=nil"]
    return "bsearch", A + "v(q.bsearch { |x| break :out })\nv q", ["=:out" if xs else "=nil", "=" + ins(xs)]


def pair(r):
    """One pair of values, every operator."""
    kinds = ("int", "big", "float", "mix", "str", "sym", "arr", "arr2", "cm")
    k = r.choice(kinds)
    a = element(r, k, 1)
    if r.random() < 0.15:
        b = a
        if isinstance(a, Obj):
            b = Obj(a.c, a.k, a.id)
    elif r.random() < 0.75:
        b = element(r, k if r.random() < .7 or k not in ("int", "big", "float", "mix") else r.choice(("int", "big", "float", "mix")), 1)
    else:
        b = r.choice(ODD)
        if b is math.nan:
            b = math.nan
    if r.random() < .3:
        a, b = b, a
    c = cmp(a, b)
    via = r.choice(("x %s y", "x.%s(y)", "x.send(:%s, y)", "[x].map { |z| z %s y }[0]"))
    op = lambda o: via % o
    order = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool) or type(x) is str or isinstance(x, Obj)
    head = "x = %s\ny = %s\n" % (src(a), src(b))
    exp = []
    if isinstance(a, float) and ("." in via and "z" not in via) and not (isinstance(b, (int, float)) and not isinstance(b, bool)):
        via = "x %s y"    # 1.5.==("") raises (pinned by a test)
    code = head + "v(%s)\n" % op("<=>")
    exp.append("=" + ins(c))
    eq = c == 0
    code += "v(%s)\nv(%s)\n" % (op("=="), "x != y")
    exp += ["=" + ins(eq), "=" + ins(not eq)]
    if order(a):
        for o, f in (("<", lambda c: c < 0), ("<=", lambda c: c <= 0), (">", lambda c: c > 0), (">=", lambda c: c >= 0)):
            if c is None and (a != a or b != b) and isinstance(a, (int, float)) and isinstance(b, (int, float)):
                code += "v(%s)\n" % op(o)
                exp.append("=false")
            elif c is None:
                code += "begin\n  v(%s)\nrescue ArgumentError\n  v :arg\nend\n" % op(o)
                exp.append("=:arg")
            else:
                code += "v(%s)\n" % op(o)
                exp.append("=" + ins(f(c)))
    return "pair-" + k, code, exp


def judge_all(exps):
    def judge(lines):
        for i, e in enumerate(exps):
            if i >= len(lines):
                return "line %d: printed nothing" % i
            if callable(e):
                why = e(lines[i])
                if why:
                    return "line %d: %s" % (i, why)
            elif lines[i] != e:
                return "line %d: expected %r, printed %r" % (i, e, lines[i])
        return "unexpected line %r" % lines[len(exps)] if len(lines) > len(exps) else None
    return judge


def check(chk):
    chk.rule = ("seeded random arrays (integers, big integers, floats, mixed numbers, strings, symbols, arrays, Comparable objects; random, in runs, with "
                "many duplicates; up to 200 elements) sorted, searched and reduced by every form the interpreter has, comparators that fail, leave or change "
                "the receiver, and pairs of values under every comparison operator; results are judged for permutation and order; distinct by source text")
    chk.assumptions = ["an integer and a float are compared after rounding the integer to a double (pinned by a test)"]
    r = chk.rng("ops")
    cases = []
    for _ in range(chk.scale(12000, 150000)):
        codes, exp, tags = [], [], []
        for _ in range(3):
            k = r.random()
            tag, s, e = (sort_case if k < .4 else incomparable if k < .48 else exits if k < .6 else search if k < .72 else pair)(r)
            codes.append(s)
            exp += e
            tags.append(tag)
        ctx = r.choice(("top", "def", "block", "lambda"))
        if any("def " in c for c in codes):
            ctx = "top"
        cases.append(Case("\n".join(codes), [e for e in exp if not callable(e)], tags, ctx, judge=judge_all(exp)))
    chk.run(cases, size=100, prelude=PRELUDE + PRE)
