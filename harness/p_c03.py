"""C03: integer arithmetic against Python's integers."""
import math

from core import Case
from rb import RErr, guarded, ins, lit

EDGES = sorted({s * (2 ** e + d) for e in (0, 1, 7, 8, 15, 16, 29, 30, 31, 32, 33, 52, 53, 54, 59, 60, 61, 62, 63, 64, 65, 95, 96,
                                            126, 127, 128, 129, 200) for d in (-2, -1, 0, 1, 2) for s in (1, -1)} |
               {10 ** k + d for k in (1, 2, 9, 10, 17, 18, 19, 20, 37, 38, 39) for d in (-1, 0, 1)} | {-(10 ** 18), -(10 ** 19), 0})


def rint(r):
    k = r.random()
    if k < 0.45:
        return r.choice(EDGES)
    if k < 0.65:
        return r.randint(-20, 20)
    if k < 0.8:
        return r.choice((1, -1)) * r.getrandbits(r.choice((8, 31, 32, 62, 63, 64)))
    if k < 0.9:
        return r.choice((1, -1)) * r.getrandbits(r.choice((65, 100, 128, 192, 300)))
    return r.choice((1, -1)) * r.randint(1, 99) * 10 ** r.randint(0, 30)


def fits(i):
    return -2 ** 62 <= i < 2 ** 62


def form(r, v):
    """A source expression whose value is the integer v, computed in one of several ways."""
    k = r.random()
    if k < 0.5:
        return lit(v)
    if k < 0.6:
        d = r.choice(EDGES)
        return "(%s + %s)" % (lit(v - d), lit(d))
    if k < 0.68:
        d = r.choice(EDGES)
        return "(%s - %s)" % (lit(v + d), lit(d))
    if k < 0.76:
        d = r.choice([e for e in EDGES if e])
        return "(%s * %s / %s)" % (lit(v), lit(d), lit(d))
    if k < 0.82:
        return '"%d".to_i' % v
    if k < 0.88:
        return "(-%s)" % lit(-v) if v <= 0 else "(-(%s))" % lit(-v)
    if k < 0.94:
        return "[%s].first" % lit(v)
    return "(%s; %s)" % (lit(1), lit(v))


def fdiv(a, b):
    if b == 0:
        raise RErr("ZeroDivisionError")
    return a // b


def fmod(a, b):
    if b == 0:
        raise RErr("ZeroDivisionError")
    return a % b


def trem(a, b):
    if b == 0:
        raise RErr("ZeroDivisionError")
    q = abs(a) // abs(b)
    return a - b * (q if (a < 0) == (b < 0) else -q)


def shl(a, n):
    return a << n if n >= 0 else a >> -n


def cmp(a, b):
    return (a > b) - (a < b)



def ipow(a, b):
    return a ** b


def bit(a, n):
    return (a >> n) & 1 if n >= 0 else 0


def lcm(a, b):
    return abs(a * b) // math.gcd(a, b) if a and b else 0


BIN = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": fdiv, "%": fmod,
    "<=>": cmp, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "===": lambda a, b: a == b,
    "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
}
METH = {
    "div": fdiv, "eql?": lambda a, b: a == b, "gcd": lambda a, b: math.gcd(a, b), "lcm": lcm,
    "gcdlcm": lambda a, b: [math.gcd(a, b), lcm(a, b)],
}
UN = {
    "-@": lambda a: -a, "+@": lambda a: a, "abs": abs, "even?": lambda a: a % 2 == 0, "odd?": lambda a: a % 2 == 1,
    "succ": lambda a: a + 1, "next": lambda a: a + 1, "pred": lambda a: a - 1,
    "to_s": str, "inspect": str, "to_i": lambda a: a, "to_int": lambda a: a, "floor": lambda a: a,
    "bit_length": lambda a: (a if a >= 0 else ~a).bit_length(), "~": lambda a: ~a, "hash_same": None,
}


def digits(a):
    if a < 0:
        raise RErr("*")
    return [int(c) for c in reversed(str(a))]


def one(r):
    """-> (tag, ruby expression, expected line)"""
    k = r.random()
    a, b = rint(r), rint(r)
    if r.random() < 0.15:
        b = a + r.choice((-1, 0, 0, 1))
    if k < 0.5:
        op = r.choice(list(BIN))
        f = BIN[op]
        how = r.random()
        if how < 0.6:
            e = "(%s %s %s)" % (form(r, a), op, form(r, b))
        elif how < 0.75:
            small = r.randint(0, 2 ** 31 - 1) if r.random() < 0.5 else r.randint(0, 12)
            b = small      # operand in the instruction
            e = "(%s %s %d)" % (form(r, a), op, b)
        elif how < 0.9:
            e = "%s.send(:\"%s\", %s)" % (form(r, a), op, form(r, b))
        else:
            e = "(x = %s; y = %s; x %s y)" % (form(r, a), form(r, b), op)
        return op, e, guarded(lambda: f(a, b))
    if k < 0.62:
        op = r.choice(list(METH))
        f = METH[op]
        return op, "%s.%s(%s)" % (form(r, a), op, form(r, b)), guarded(lambda: f(a, b))
    if k < 0.74:
        op = r.choice(list(UN))
        if op == "hash_same":
            return op, "{%s => 1}[%s]" % (form(r, a), form(r, b)), "=1" if a == b else "=nil"
        f = UN[op]
        if op in ("-@", "+@", "~") and r.random() < 0.6:
            return op, "(%s(%s))" % (op[0], form(r, a)), guarded(lambda: f(a))
        return op, "%s.%s" % (form(r, a), op), guarded(lambda: f(a))
    if k < 0.82:
        n = r.choice((0, 1, 2, 7, 30, 31, 32, 33, 61, 62, 63, 64, 65, 127, 128, 200)) * r.choice((1, 1, -1))
        if r.random() < 0.5:
            return "<<", "(%s << %s)" % (form(r, a), form(r, n)), "=%d" % shl(a, n)
        return ">>", "(%s >> %s)" % (form(r, a), form(r, n)), "=%d" % shl(a, -n)
    if k < 0.86:
        n = r.choice((0, 1, 2, 7, 31, 32, 61, 62, 63, 64, 65, 127, 128, 200, -1, -5))
        if n >= 0 and r.random() < 0.5:
            return "[]", "%s[%d]" % (form(r, a), n), "=%d" % bit(a, n)
        return "[]", "%s[%s]" % (form(r, a), form(r, n)), "=%d" % bit(a, n)
    if k < 0.92:
        a = r.choice((r.randint(-12, 12), rint(r)))
        b = r.randint(0, 9) if abs(a) > 12 else r.randint(0, 140)
        m = r.random()
        if m < 0.7:
            return "**", "(%s ** %s)" % (form(r, a), form(r, b)), "=%d" % (a ** b)
        return "pow", "%s.pow(%s)" % (form(r, a), form(r, b)), "=%d" % (a ** b)
    if k < 0.95:
        a = abs(a)
        return "digits", "%s.digits" % form(r, a), "=" + ins(digits(a))
    if k < 0.98:
        # conversions through text and floats
        m = r.random()
        if m < 0.35:
            return "to_s.to_i", "%s.to_s.to_i" % form(r, a), "=%d" % a
        if m < 0.7:
            b = int(float(a))
            return "to_f.to_i", "%s.to_f.to_i" % form(r, a), "=%d" % b
        return "Integer()", "Integer(\"%d\")" % a, "=%d" % a
    # an accumulated value: the result of one operation is the operand of the next
    x = a
    e = form(r, a)
    for _ in range(r.randint(2, 6)):
        op = r.choice("+-*/%&|^")
        y = rint(r)
        if op in "/%" and y == 0:
            y = 3
        e = "(%s %s %s)" % (e, op, form(r, y))
        x = BIN[op](x, y)
    return "chain", e, "=%d" % x


def loops(r):
    """Counters crossing the representation limits."""
    lim = r.choice((2 ** 30, 2 ** 31, 2 ** 32, 2 ** 62, 2 ** 63, 2 ** 64)) * r.choice((1, -1))
    a = lim + r.randint(-3, 3)
    n = r.randint(1, 8)
    k = r.randint(0, 4)
    if k == 0:
        st = r.choice((1, -1, 2, 2 ** 31, -2 ** 62))
        src = "i = %s; s = []\n%d.times { i += %s; s << i }\nputs '=' + s.inspect" % (form(r, a), n, lit(st))
        exp = [a + st * j for j in range(1, n + 1)]
    elif k == 1:
        src = "x = %s; s = []\nj = 0\nwhile j < %d\n  x = x * 2\n  s << x\n  j += 1\nend\nputs '=' + s.inspect" % (form(r, a), n)
        exp = [a * 2 ** j for j in range(1, n + 1)]
    elif k == 2:
        src = "x = %s; s = []\nj = 0\nuntil j >= %d\n  x = -x - 1\n  s << x\n  j += 1\nend\nputs '=' + s.inspect" % (form(r, a), n)
        exp = []
        x = a
        for _ in range(n):
            x = -x - 1
            exp.append(x)
    elif k == 3:
        fa = r.randint(15, 30)
        src = "f = 1; s = []\n(1..%d).each { |i| f *= i; s << f }\nputs '=' + s.inspect" % fa
        exp = [math.factorial(i) for i in range(1, fa + 1)]
    else:
        xs = [rint(r) for _ in range(r.randint(2, 8))]
        src = "puts '=' + %s.sort.inspect" % ("[" + ", ".join(form(r, x) for x in xs) + "]")
        exp = sorted(xs)
    return "loop", src, "=" + ins(exp)


def check(chk):
    chk.rule = ("seeded random operations of every integer operator and method over operands clustered at the limits of the small "
                "integer representation (2**30..2**64) and beyond, in several syntactic forms; a case is 6 operations, each of whose "
                "printed results is compared with Python's integers; distinct by source text")
    chk.assumptions = ["Python's integers are the reference"]
    r = chk.rng("ops")
    cases = []
    for _ in range(chk.scale(12000, 250000)):
        src, exp, tags = [], [], []
        for _ in range(6):
            tag, e, line = one(r)
            if line == "!*":
                continue
            src.append("begin; puts '=' + (%s).inspect; rescue StandardError => e; puts '!' + e.class.to_s; end" % e)
            exp.append(line)
            tags.append(tag)
        if r.random() < 0.3:
            tag, e, line = loops(r)
            src.append(e)
            exp.append(line)
            tags.append(tag)
        cases.append(Case("\n".join(src), exp, tags, r.choice(("top", "def", "block", "lambda"))))
    chk.run(cases, size=100)
