"""C04: floats and mixed arithmetic against IEEE doubles computed by Python and libm."""
import ctypes
import math
import struct

from core import Case
from rb import RErr, guarded, ins, lit, fl

_m = ctypes.CDLL("libm.so.6")
_m.pow.restype = ctypes.c_double
_m.pow.argtypes = [ctypes.c_double, ctypes.c_double]

INF = math.inf
NAN = math.nan
SPECIAL = [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 10.0, 0.1, 0.2, 0.3, 1 / 3, 1e15, 1e16, 123456789012345680.0, 1e22, 1e23, 1e100, 1e300,
           1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 1e-5, 1e-4, 0.00012345, 2.0 ** 52, 2.0 ** 52 + 0.5, 2.0 ** 53,
           2.0 ** 53 + 2, 2.0 ** 62, 2.0 ** 63, 2.0 ** 64, 4611686018427387904.0, 9007199254740993.0, 1e-77, 1e77, 1.3e-77, 5e-78,
           2.0 ** -255, 2.0 ** -256, 2.0 ** 255, 2.0 ** 256, 2.0 ** 257, 2.0 ** -257, 3.7, 99.99, 1e-300]


def rfloat(r, special=True):
    k = r.random()
    if k < 0.35:
        x = r.choice(SPECIAL)
    elif k < 0.45 and special:
        return r.choice((INF, -INF, NAN))
    elif k < 0.6:
        x = r.randint(0, 2000) / r.choice((1, 2, 4, 8, 10, 100))
    elif k < 0.75:
        x = r.uniform(0, 10 ** r.randint(0, 20))
    elif k < 0.87:
        x = r.random() * 2.0 ** r.randint(-300, 300)
    else:
        x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(63)))[0]
        if x != x or math.isinf(x):
            x = 1.25
    if r.random() < 0.15 and x < 1e308:
        x = math.nextafter(x, r.choice((INF, 0.0)))
    return -x if r.random() < 0.4 else x


def rint(r):
    k = r.random()
    if k < 0.4:
        return r.randint(-12, 12)
    if k < 0.7:
        return r.choice((1, -1)) * (2 ** r.choice((31, 32, 52, 53, 54, 61, 62, 63, 64, 70, 100)) + r.randint(-2, 2))
    return r.choice((1, -1)) * r.getrandbits(r.choice((16, 53, 62, 64, 90)))


def rnum(r):
    return rint(r) if r.random() < 0.3 else rfloat(r)


def D(x):
    try:
        return float(x)
    except OverflowError:
        return INF if x > 0 else -INF


def form(r, v):
    k = r.random()
    if isinstance(v, int):
        return lit(v)
    if v == v and not math.isinf(v) and v > 0:
        if k < 0.1 and 0.001 < v < 1e15:
            t = "%.17e" % v
            if float(t) == v:
                return t
        if k < 0.15:
            t = "%.17E" % v
            if float(t) == v and "." in t:
                return t
    if k < 0.75:
        return lit(v)
    if k < 0.82:
        return "(%s; %s)" % (lit(0.5), lit(v))
    if k < 0.9:
        return "[%s][0]" % lit(v)
    return "(x = %s; x)" % lit(v)


def div(a, b):
    a, b = D(a), D(b)
    if b == 0:
        if a != a or a == 0:
            return NAN
        return INF if a > 0 else -INF
    try:
        return a / b
    except OverflowError:
        return INF


def mod(a, b):
    a, b = D(a), D(b)
    return a % b


def tofl(x):
    if x != x or math.isinf(x):
        raise RErr("RangeError")
    return int(x)


def floor(x):
    if x != x or math.isinf(x):
        raise RErr("RangeError")
    return math.floor(x)


def idiv(a, b):
    if b == 0:
        raise RErr("ZeroDivisionError")
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    return floor(div(a, b))


def arith(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {"+": a + b, "-": a - b, "*": a * b}[op]
    a, b = D(a), D(b)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()


def cmp(a, b):
    if not (isinstance(a, int) and isinstance(b, int)):
        a, b = D(a), D(b)
        if a != a or b != b:
            return None
    return (a > b) - (a < b)


def rel(op, a, b):
    c = cmp(a, b)
    if c is None:
        return op == "!="
    return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0, "===": c == 0}[op]


def eql(a, b):
    return type(a) is type(b) and a == b


def one(r):
    k = r.random()
    a, b = rnum(r), rnum(r)
    if isinstance(a, int) and isinstance(b, int):
        (a, b) = (rfloat(r), b) if r.random() < 0.5 else (a, rfloat(r))
    if r.random() < 0.2:
        # near or equal operands
        if isinstance(a, float) and a == a and not math.isinf(a) and abs(a) < 1e308:
            b = r.choice((a, int(a), int(a), math.nextafter(a, INF), -a))
        elif isinstance(a, int):
            b = r.choice((D(a), math.nextafter(D(a), INF), math.nextafter(D(a), 0)))
        if r.random() < 0.4:
            a, b = b, a
    fa, fb = form(r, a), form(r, b)
    if k < 0.34:
        op = r.choice("+-*+-*/")
        if op == "/":
            if b == 0 and not (isinstance(a, float) and 1e-5 < abs(a) < 1e9 or isinstance(a, int) and abs(a) < 2 ** 60 and isinstance(b, float)):
                b = 2.5
                fb = form(r, b)
            val = "=" + fl(div(a, b))
        else:
            val = "=" + ins(arith(op, a, b))
        how = r.random()
        if how < 0.6 or (op == "/" and b == 0):
            return op, "(%s %s %s)" % (fa, op, fb), val
        if how < 0.8:
            return op, "%s.send(:\"%s\", %s)" % (fa, op, fb), val
        if isinstance(a, float) and op != "/":
            n = r.choice((0, 1, 2, 3, 7, 255, 65536, 2 ** 31 - 1))
            return op + "imm", "(%s %s %d)" % (fa, op, n), "=" + ins(arith(op, a, n))
        return op, "(x = %s; x %s= %s; x)" % (fa, op, fb), val
    if k < 0.52:
        op = r.choice(("<", "<=", ">", ">=", "==", "!=", "==="))
        how = r.random()
        if how < 0.5:
            return op, "(%s %s %s)" % (fa, op, fb), "=" + ins(rel(op, a, b))
        if how < 0.65 and op != "===":
            return op, "(if %s %s %s then 1 else 2 end)" % (fa, op, fb), "=%d" % (1 if rel(op, a, b) else 2)
        if how < 0.8 and isinstance(a, float) and op != "===":
            n = r.choice((0, 1, 2, 3, 10, 2 ** 31 - 1))
            return op + "imm", "(%s %s %d ? 1 : 2)" % (fa, op, n), "=%d" % (1 if rel(op, a, n) else 2)
        return op, "%s.send(:\"%s\", %s)" % (fa, op, fb), "=" + ins(rel(op, a, b))
    if k < 0.58:
        return "<=>", r.choice(("(%s <=> %s)", "%s.send(:<=>, %s)")) % (fa, fb), "=" + ins(cmp(a, b))
    if k < 0.66:
        if b == 0:
            b, fb = 1.5, "1.5"
        how = r.choice(("(%s %% %s)", "%s.send(:%%, %s)"))
        return "%", how % (fa, fb), "=" + fl(mod(a, b))
    if k < 0.72:
        b = r.choice((b, r.choice((0, 1, 2, 3, 10, -1, -2, 0.5, 1.5, 100, 1000, -1000))))
        if isinstance(a, int):
            b = D(b)
        if D(a) < 0 and D(b) != math.floor(D(b) if abs(D(b)) < 1e300 else 0.5) or D(b) != D(b) or math.isinf(D(b)):
            a = abs(a)
            if math.isinf(D(b)) or D(b) != D(b):
                b = 2.0
        return "**", r.choice(("(%s ** %s)", "%s.send(:**, %s)")) % (form(r, a), form(r, b)), "=" + fl(_m.pow(D(a) + 0.0, D(b)))
    if k < 0.77:
        if isinstance(a, int) and isinstance(b, int):
            a, fa = 7.5, "7.5"
        if b == 0 and isinstance(a, int):
            b, fb = 2, "2"
        return "div", "%s.div(%s)" % (fa, fb), guarded(lambda: idiv(a, b))
    if k < 0.82:
        a = a if isinstance(a, float) else D(a)
        fa = form(r, a)
        n = r.choice(("to_i", "floor", "Integer"))
        f = floor if n == "floor" else tofl
        if n == "Integer":
            if a != a or math.isinf(a):
                return "abs", "%s.abs" % fa, "=" + fl(abs(a))
            return n, "Integer(%s)" % fa, guarded(lambda: f(a))
        return n, "%s.%s" % (fa, n), guarded(lambda: f(a))
    if k < 0.86:
        a = D(a)
        fa = form(r, a)
        n = r.choice(("abs", "magnitude", "-", "+@", "nan?", "infinite?"))
        if n == "-":
            return "-@", "(x = %s; -x)" % fa, "=" + fl(-a)
        if n == "+@":
            return "abs", "%s.abs" % fa, "=" + fl(abs(a))
        if n == "nan?":
            return n, "%s.nan?" % fa, "=" + ins(a != a)
        if n == "infinite?":
            return n, "%s.infinite?" % fa, "=" + ins((1 if a > 0 else -1) if math.isinf(a) else None)
        return n, "%s.%s" % (fa, n), "=" + fl(abs(a))
    if k < 0.9:
        i = rint(r)
        if r.random() < 0.5:
            return "to_f", "%s.to_f" % lit(i), "=" + fl(D(i))
        i = r.randint(-2 ** 53, 2 ** 53) if r.random() < 0.5 else r.randint(-50, 50)
        j = r.choice((1, 2, 3, 7, 10, 100, -3, 2 ** 40 + 1, -7))
        return "fdiv", "%s.fdiv(%s)" % (lit(i), lit(j)), "=" + fl(i / j)
    if k < 0.94:
        a = D(a)
        n = r.choice(("to_s", "interp", "roundtrip", "eql", "key", "p"))
        fa = form(r, a)
        if n == "to_s":
            return n, "%s.to_s" % fa, '="%s"' % fl(a)
        if n == "interp":
            return n, '"<#{%s}>"' % fa, '="<%s>"' % fl(a)
        if n == "p":
            return n, "[%s, {1 => %s}]" % (fa, fa), "=[%s, {1=>%s}]" % (fl(a), fl(a))
        if n == "roundtrip":
            if a != a or math.isinf(a):
                return "to_s", "%s.inspect" % fa, '="%s"' % fl(a)
            return n, "(eval(%s.to_s) == %s)" % (fa, fa), "=true"
        if n == "eql":
            return n, "%s.eql?(%s)" % (fa, fb), "=" + ins(eql(a, b))
        if a != a or b != b:
            b = a = 2.5
        return n, "{%s => 1}[%s]" % (form(r, a), form(r, b)), "=1" if eql(a, b) else "=nil"
    if k < 0.97:
        n = r.choice(("sqrt", "sin", "cos"))
        x = abs(rnum(r))
        if x != x or math.isinf(D(x)):
            x = 2
        return "Math", "Math.%s(%s)" % (n, form(r, x)), "=" + fl(getattr(math, n)(D(x)))
    # a chain of operations
    x = rfloat(r, False)
    e = form(r, x)
    for _ in range(r.randint(2, 6)):
        op = r.choice("+-*/")
        y = r.choice((rfloat(r, False), r.randint(1, 9)))
        if op == "/" and (y == 0):
            y = 3
        x = div(x, y) if op == "/" else arith(op, x, y)
        e = "(%s %s %s)" % (e, op, form(r, y))
    return "chain", e, "=" + fl(x)


def comp(r, flt):
    g = (lambda: r.choice((r.randint(-40, 40) / 4, r.uniform(-100, 100)))) if flt else (lambda: r.choice((r.randint(-9, 9), rint(r))))
    return g(), g()


def cx(a):
    r, i = a
    t = "%s%s%s" % (ins(r), "" if i < 0 else "+", ins(i))
    return "(%si)" % t


def clit(r, a):
    if r.random() < 0.6 or a[1] < 0 or isinstance(a[1], int) and abs(a[1]) > 2 ** 60:
        return "Complex.%s(%s, %s)" % (r.choice(("rect", "rectangular")), lit(a[0]), lit(a[1]))
    if a[1] == 0 or "e" in repr(a[1]):
        return "Complex.rect(%s, %s)" % (lit(a[0]), lit(a[1]))
    return "(%s+%si)" % (lit(a[0]), lit(a[1])) if isinstance(a[1], int) == isinstance(a[0], int) else "Complex.rect(%s, %s)" % (lit(a[0]), lit(a[1]))


def complex_op(r):
    flt = r.random() < 0.5
    a, b = comp(r, flt), comp(r, flt)
    op = r.choice(("+", "-", "*", "/", "==", "!=", "abs2", "abs", "rect", "inspect", "r+", "r*", "r-", "+r", "-r", "==r"))
    A, B = clit(r, a), clit(r, b)
    s = a[0]
    S = lit(s)
    try:
        if op == "+":
            return op, "(%s + %s)" % (A, B), "=" + cx((a[0] + b[0], a[1] + b[1]))
        if op == "-":
            return op, "(%s - %s)" % (A, B), "=" + cx((a[0] - b[0], a[1] - b[1]))
        if op == "*":
            return op, "(%s * %s)" % (A, B), "=" + cx((a[0] * b[0] - a[1] * b[1], a[1] * b[0] + b[1] * a[0]))
        if op == "r+":
            return op, "(%s + %s)" % (S, B), "=" + cx((s + b[0], b[1]))
        if op == "r-":
            if flt:
                return op, "(%s - %s)" % (S, B), "=" + cx((s - b[0], -b[1]))
            return op, "(%s - %s == Complex.rect(%s, %s))" % (S, B, lit(s - b[0]), lit(-b[1])), "=true"
        if op == "r*":
            return op, "(%s * %s)" % (S, B), "=" + cx((s * b[0], s * b[1]))
        if op == "+r":
            return op, "(%s + %s == %s + %s)" % (B, S, S, B), "=true"
        if op == "-r":
            return op, "(%s - %s)" % (B, S), "=" + cx((b[0] - s, b[1] if flt else b[1] - 0))
        if op == "==r":
            z = r.choice((0, b[1]))
            return op, "[Complex.rect(%s, %s) == %s, %s == Complex.rect(%s, %s)]" % (S, lit(z), S, S, S, lit(z)), "=" + ins([z == 0] * 2)
        if op in ("==", "!="):
            if r.random() < 0.5:
                b = r.choice((a, (a[0], b[1]), (b[0], a[1])))
                B = clit(r, b)
            return op, "(%s %s %s)" % (A, op, B), "=" + ins((a == b) == (op == "=="))
        if op == "abs2":
            return op, "%s.abs2" % A, "=" + ins(a[0] * a[0] + a[1] * a[1])
        if op == "rect":
            return op, "%s.rect" % A, "=" + ins(list(a))
        if op == "inspect":
            return op, "[%s.inspect, %s.to_s]" % (A, A), '=["%s", "%s"]' % (cx(a), cx(a))
        if op == "abs":
            e = math.hypot(D(a[0]), D(a[1]))
            return op, "((%s.abs - %s) / %s < 1.0e-12 && (%s.abs - %s) / %s > -1.0e-12)" % (A, lit(e), lit(e or 1.0), A, lit(e), lit(e or 1.0)), "=true"
        if not flt:
            a, b = (D(a[0]), D(a[1])), (D(b[0]), D(b[1]))
            A, B = clit(r, a), clit(r, b)
        if abs(b[0]) + abs(b[1]) < 1e-3:
            b, B = (2.0, 1.5), "Complex.rect(2.0, 1.5)"
        q = complex(*a) / complex(*b)
        tol = lit(1e-9 * (abs(q) + 1e-6))
        return op, "((%s / %s - Complex.rect(%s, %s)).abs < %s)" % (A, B, lit(q.real), lit(q.imag), tol), "=true"
    except OverflowError:
        return "+", "1.0 + 1", "=2.0"


def check(chk):
    chk.rule = ("seeded random operations on floats, floats mixed with integers, and complex numbers, over special values, neighbours, "
                "halves, values at the limits of the packed representation and random bit patterns, as operators, as operators with a "
                "literal operand, in conditions and through send; each printed result is compared with IEEE arithmetic; distinct by source text")
    chk.assumptions = ["Python's floats and glibc's pow, sin and cos are the reference",
                       "an integer is compared with a float after conversion to a double (the repository's tests pin this)",
                       "complex division and abs are compared within a relative error of 1e-9"]
    r = chk.rng("ops")
    cases = []
    for _ in range(chk.scale(30000, 300000)):
        src, exp, tags = [], [], []
        for _ in range(6):
            tag, e, line = complex_op(r) if r.random() < 0.12 else one(r)
            src.append("begin; puts '=' + (%s).inspect; rescue RangeError => e; puts '!RangeError'; rescue StandardError => e; puts '!' + e.class.to_s; end" % e)
            exp.append(line)
            tags.append(tag)
        cases.append(Case("\n".join(src), exp, tags, r.choice(("top", "def", "block", "lambda"))))
    chk.run(cases, size=100)
