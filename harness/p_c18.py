"""C18: what a program does depends on its syntax tree only: operators, literals, layout, inspect read back, text that is no program."""
import threading
from concurrent.futures import ThreadPoolExecutor

import build
import ctl
import lay
from core import PRELUDE, Case, run_program
from rb import RHash, RStr, Rng, Sym, ins, ins_str, lit, sym

OPS = ["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "<=>", "===", "=~"]
PRE = PRELUDE + "class Z\n  def initialize(s)\n    @s = s\n  end\n  def s\n    @s\n  end\n  def inspect\n    @s\n  end\n" \
    "  def nm(o)\n    o.is_a?(Z) ? o.s : o.inspect\n  end\n" + \
    "".join("  def %s(o)\n    $ev += 1\n    Z.new('(' + @s + '%s' + nm(o) + ')')\n  end\n" % (o, o) for o in OPS) + \
    "".join("  def %s\n    $ev += 1\n    Z.new('(%s' + @s + ')')\n  end\n" % (m, o) for m, o in (("-@", "-"), ("~", "~"))) + r"""
  def [](*i)
    Z.new(@s + '[' + i.map { |o| nm(o) }.join(',') + ']')
  end
  def []=(*i, o)
    puts @s + '[' + i.map { |x| nm(x) }.join(',') + ']=' + nm(o)
  end
  def f(*a)
    Z.new(@s + '.f(' + a.map { |o| nm(o) }.join(',') + ')')
  end
  def g
    Z.new(@s + '.g')
  end
  def g=(o)
    puts @s + '.g=' + nm(o)
  end
  def call(*a)
    Z.new(@s + '.call(' + a.map { |o| nm(o) }.join(',') + ')')
  end
  def q?
    Z.new(@s + '.q?')
  end
end
$ev = 0
def ev(k)
  puts "e" + k.to_s
  Z.new(k.to_s)
end
def nn(k)
  puts "n" + k.to_s
  nil
end
def ma
  Z.new("ma")
end
def fn(*a)
  Z.new("fn(" + a.map { |o| o.is_a?(Z) ? o.s : o.inspect }.join(",") + ")")
end
def boom
  raise "boom"
end
"""
SETUP = "".join("%s = Z.new('%s')\n" % (x, x) for x in ("a", "b", "c", "@i", "$g")) + "y = nil\n"


class Ex:
    """Expressions over Z: tree, least parenthesised text, value. Trees: (kind, ...)"""

    def __init__(self, r, spread=0.5):
        self.r = r
        self.k = 0
        self.lay = lay.Lay(r, spread)
        self.tags = set()

    def gen(self, d, z=True):
        """`z`: the value is a Z whatever happens"""
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.12:
            return self.leaf(z)
        sub = lambda zz=True: self.gen(d - 1, zz)
        if k < 0.55:
            return ("bin", r.choice(OPS), sub(), sub())
        if k < 0.66 or not z and k < 0.7:
            return ("un", r.choice("-+~"), sub()) if z or r.random() < 0.3 else ("un", "!", sub(False))
        if k < 0.78 or not z:
            if z:
                return (r.choice(("and", "or")), sub(), sub()) if r.random() < 0.6 else ("and", ("t",), sub())
            return (r.choice(("and", "or")), sub(r.random() < 0.5), sub(r.random() < 0.5))
        if k < 0.86:
            return ("tern", sub(r.random() < 0.6), sub(z), sub(z))
        if k < 0.9:
            return ("idx", sub(), [sub() for _ in range(r.randint(1, 2))])
        if k < 0.93:
            return ("dot", sub(), r.choice(("g", "q?")))
        if k < 0.97:
            return ("meth", sub(), r.choice(("f", "call")), [sub() for _ in range(r.randint(0, 2))])
        return ("asg", "w%d" % r.randint(0, 3), sub())

    def leaf(self, z):
        r = self.r
        self.k += 1
        k = r.random()
        if not z and k < 0.5:
            return ("nil", self.k)
        if k < 0.4:
            return ("name", r.choice(("a", "b", "c", "@i", "$g")))
        if k < 0.5:
            return ("name", "ma")
        if k < 0.6:
            return ("fn", [self.gen(0) for _ in range(r.randint(1, 2))])
        return ("ev", self.k)

    # -- value: returns the string of a Z or None
    def val(self, n, out):
        k = n[0]
        if k == "t":
            return True
        if k == "nil":
            out.append("n%d" % n[1])
            return None
        if k == "name":
            return n[1]
        if k == "ev":
            out.append("e%d" % n[1])
            return str(n[1])
        if k == "fn":
            return "fn(" + ",".join(self.val(x, out) for x in n[1]) + ")"
        if k == "bin":
            a = self.val(n[2], out)
            return "(%s%s%s)" % (a, n[1], self.val(n[3], out))
        if k == "un":
            x = self.val(n[2], out)
            return x if n[1] == "+" else (x is None or x is False) if n[1] == "!" else "(%s%s)" % (n[1], x)
        if k == "and":
            a = self.val(n[1], out)
            return a if a is None or a is False else self.val(n[2], out)
        if k == "or":
            a = self.val(n[1], out)
            return self.val(n[2], out) if a is None or a is False else a
        if k == "tern":
            c = self.val(n[1], out)
            return self.val(n[3] if c is None or c is False else n[2], out)
        if k == "idx":
            a = self.val(n[1], out)
            return a + "[" + ",".join(self.val(x, out) for x in n[2]) + "]"
        if k == "dot":
            return self.val(n[1], out) + "." + n[2]
        if k == "meth":
            a = self.val(n[1], out)
            return a + "." + n[2] + "(" + ",".join(self.val(x, out) for x in n[3]) + ")"
        if k == "asg":
            return self.val(n[2], out)
        raise AssertionError(k)

    # -- text, with the strength of its outermost operator
    def tx(self, n, p):
        s, q = self.raw(n)
        self.tags.add(n[0] if n[0] not in ("bin", "un") else n[1] + ("@" if n[0] == "un" else ""))
        if q < p or (q < 100 and self.r.random() < 0.06):
            return self.lay.paren(s)
        return s

    def raw(self, n):
        L, r = self.lay, self.r
        k = n[0]
        if k == "t":
            return "true", 100
        if k == "nil":
            return "nn(%d)" % n[1], 100
        if k == "name":
            return n[1], 100
        if k == "ev":
            return "ev(%d)" % n[1], 100
        if k == "fn":
            return "fn(" + ("," + L.brk()).join(self.tx(x, 7) for x in n[1]) + ")", 100
        if k == "bin":
            op = n[1]
            p = lay.BIN[op]
            a = self.tx(n[2], p + 1 if op == "**" or p == 20 else p)
            b = self.tx(n[3], (p if op == "**" else p + 1) if n[3][0] != "un" else 0)
            if n[3][0] == "un" and b[0] != "(" and self.needs(n[3], op):
                b = "(%s)" % b
            last = a[-1]
            if b[0] not in "-+!~*&:[{(/%<@$" and last not in "?!" and r.random() < 0.3 and not a.endswith("ma") and not (op[0] == "<" and b[0].isupper()):
                return a + op + b, p
            return a + L.sp() + op + L.brk() + b, p
        if k == "un":
            op = n[1]
            p = 70 if op == "-" else 90
            s = self.tx(n[2], p)
            if s[0] in "-+~!" and s[0] == op and op in "-+":
                s = "(%s)" % s
            if op == "!" and s[0] == "~":
                s = " " + s
            return op + s, p
        if k in ("and", "or"):
            p = 15 if k == "and" else 12
            return self.tx(n[1], p) + L.sp() + ("&&" if k == "and" else "||") + L.brk() + self.tx(n[2], p + 1), p
        if k == "tern":
            c = self.tx(n[1], 9)
            return c + L.sp() + "?" + L.brk() + self.tx(n[2], 8) + L.sp() + ":" + L.brk() + self.tx(n[3], 8), 8
        if k == "idx":
            return self.tx(n[1], 100) + "[" + ", ".join(self.tx(x, 7) for x in n[2]) + "]", 100
        if k == "dot":
            return self.tx(n[1], 100) + L.dot() + n[2], 100
        if k == "meth":
            args = "(" + ", ".join(self.tx(x, 7) for x in n[3]) + ")"
            if n[2] == "call" and r.random() < 0.5:
                return self.tx(n[1], 100) + "." + args, 100
            if not n[3]:
                args = r.choice(("", "()"))
            return self.tx(n[1], 100) + L.dot() + n[2] + args, 100
        if k == "asg":
            return n[1] + " = " + self.tx(n[2], 5), 5
        raise AssertionError(k)

    def needs(self, n, op):
        # an unary operator on the right of any operator takes only what binds tighter than itself
        return False


def trees(chk, n):
    r = chk.rng("expr")
    cases = []
    for i in range(n):
        e = Ex(r, r.choice((0, 0.3, 0.6, 1)))
        t = e.gen(r.randint(1, 4))
        out = []
        x = e.val(t, out)
        if len(x) > 400:
            continue
        k = r.random()
        if k < 0.6:
            src = "x = " + e.tx(t, 6) + "\nv(x)\n"
        elif k < 0.8:
            src = "v(" + e.tx(t, 7) + ")\n"
        else:
            src = "x = [" + e.tx(t, 7) + "]\nv(x[0])\n"
        cases.append(Case(SETUP + src, out + ["=" + x], {"expr " + k for k in e.tags}, r.choice(("top", "def", "block"))))
    return cases


# -- integers: the same with the operators the machine has its own instructions for
class IntEx:
    def __init__(self, r):
        self.r = r
        self.lay = lay.Lay(r, 0.3)
        self.vars = {"a": r.randint(0, 20), "b": r.randint(1, 9), "c": r.randint(-9, 99)}

    def gen(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.15:
            if r.random() < 0.4:
                return ("var", r.choice("abc"))
            return ("lit", r.choice((0, 1, 2, 3, 5, 7, 10, 100, r.randint(0, 300), r.randint(0, 1 << 40), -r.randint(1, 50))))
        if k < 0.72:
            return ("bin", r.choice(("+", "-", "*", "/", "%", "&", "|", "^", "+", "-", "<<", ">>", "**", "<=>")), self.gen(d - 1), self.gen(d - 1))
        if k < 0.8:
            return ("un", r.choice("-~+"), self.gen(d - 1))
        return ("tern", self.cond(d - 1), self.gen(d - 1), self.gen(d - 1))

    def cond(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.6:
            return ("cmp", r.choice(("<", ">", "<=", ">=", "==", "!=")), self.gen(d - 1), self.gen(d - 1))
        if k < 0.75:
            return ("not", self.cond(d - 1))
        return (r.choice(("and", "or")), self.cond(d - 1), self.cond(d - 1))

    def val(self, n):
        k = n[0]
        if k == "lit":
            return n[1]
        if k == "var":
            return self.vars[n[1]]
        if k == "un":
            x = self.val(n[2])
            return -x if n[1] == "-" else ~x if n[1] == "~" else x
        if k == "tern":
            return self.val(n[2] if self.val(n[1]) else n[3])
        if k == "not":
            return not self.val(n[1])
        if k == "and":
            return self.val(n[1]) and self.val(n[2])
        if k == "or":
            return self.val(n[1]) or self.val(n[2])
        a, b = self.val(n[2]), self.val(n[3])
        op = n[1]
        if k == "cmp":
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if op in "/%" and b == 0 or op in ("<<", ">>") and not 0 <= b < 70 or op == "**" and not 0 <= b < 12 or abs(a) > 1 << 200:
            raise ValueError
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b, "&": lambda: a & b,
                "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b, "**": lambda: a ** b,
                "<=>": lambda: (a > b) - (a < b)}[op]()

    def tx(self, n, p):
        s, q = self.raw(n)
        if q < p or (q < 100 and self.r.random() < 0.06):
            return self.lay.paren(s)
        return s

    def raw(self, n):
        L, r = self.lay, self.r
        k = n[0]
        if k == "lit":
            if n[1] < 0:
                return "-" + L.number(-n[1]), 75       # a number of its own but before **
            return L.number(n[1]), 100
        if k == "var":
            return n[1], 100
        if k in ("bin", "cmp"):
            op = n[1]
            p = lay.BIN[op]
            a = self.tx(n[2], p + 1 if op == "**" or p == 20 else p)
            b = self.tx(n[3], (p if op == "**" else p + 1) if n[3][0] not in ("un",) and not (n[3][0] == "lit") else 0)
            if b[0] not in "-+!~*&:[{(/%<@$" and r.random() < 0.3:
                return a + op + b, p
            return a + L.sp() + op + L.brk() + b, p
        if k == "un":
            op = n[1]
            p = 70 if op == "-" else 90
            s = self.tx(n[2], p)
            if s[0] in "-+" or op in "-+" and s[0].isdigit():
                s = "(%s)" % s
            return op + s, p
        if k == "not":
            return "!" + self.tx(n[1], 90), 90
        if k in ("and", "or"):
            p = 15 if k == "and" else 12
            return self.tx(n[1], p) + L.sp() + ("&&" if k == "and" else "||") + L.brk() + self.tx(n[2], p + 1), p
        if k == "tern":
            return self.tx(n[1], 9) + L.sp() + "?" + L.brk() + self.tx(n[2], 8) + L.sp() + ":" + L.brk() + self.tx(n[3], 8), 8
        raise AssertionError(k)


def ints(chk, n):
    r = chk.rng("int")
    cases = []
    while len(cases) < n:
        e = IntEx(r)
        t = e.gen(r.randint(1, 5))
        try:
            x = e.val(t)
        except (ValueError, OverflowError):
            continue
        if abs(x) > 1 << 300:
            continue
        src = "".join("%s = %d\n" % kv for kv in e.vars.items())
        k = r.random()
        if k < 0.7:
            src += "v(" + e.tx(t, 7) + ")\n"
        elif k < 0.85:
            src += "x = " + e.tx(t, 6) + "\nv(x)\n"
        else:
            c = e.cond(3)
            try:
                y = e.val(c)
            except (ValueError, OverflowError):
                continue
            src += "x = 0\nx += 1 if " + e.tx(c, 0) + "\nx += 2 unless " + e.tx(c, 0) + "\nwhile " + e.tx(c, 0) + "\n  x += 4\n  break\nend\nv(x)\n"
            x = 5 if y else 2
        cases.append(Case(src, ["=" + str(x)], {"integers"}, r.choice(("top", "def", "block"))))
    return cases


# -- layout
def layout(chk, n):
    r = chk.rng("layout")
    cases = []
    seen = {}
    while len(cases) < n:
        L = lay.Lay(r, r.choice((0.2, 0.5, 0.9)))
        try:
            src, out, ev = ctl.program(r, "", ctl.ALL - {"bare_raise"}, depth=r.randint(2, 3), budget=r.choice((20, 40, 80)), closures=r.random() < 0.3,
                                       render=L.method)
        except (ctl.Discard, RecursionError):
            continue
        for k, c in L.seen.items():
            seen[k] = seen.get(k, 0) + c
        cases.append(Case(src, out, {"layout " + k for k in L.seen}, "raw"))
    chk.extra["layout choices"] = seen
    return cases


# -- literals: every way to write a string, symbol, number, array or hash
CHARS = list("abcxyz019 _-+") + list("\"'\\#{}()[]<>/|%$@!?:;,.`~^&*=") + ["\n", "\t", "\x1b", "\x07", "\0", "\x7f", "é", "日", "😀", " ", "  ", "\r"]
PAIRS = {"(": ")", "[": "]", "{": "}", "<": ">"}
SIMPLE = {"\n": "n", "\t": "t", "\r": "r", "\a": "a", "\b": "b", "\v": "v", "\f": "f", "\x1b": "e", " ": "s"}


class Lit:
    def __init__(self, r):
        self.r = r
        self.tags = set()
        self.body = []          # here documents to be put after the line

    def content(self, n=None, chars=CHARS):
        r = self.r
        return "".join(r.choice(chars) for _ in range(r.choice((0, 1, 2, 3, 5, 9, 16)) if n is None else n))

    def balanced(self, s, a, b):
        d = 0
        for c in s:
            d += (c == a) - (c == b)
            if d < 0:
                return False
        return d == 0

    def esc(self, c, nxt):
        """`c` as an escape sequence of a double-quoted literal"""
        r = self.r
        o = ord(c)
        ways = ["\\u{%x}" % o]
        if o < 0x10000:
            ways.append("\\u%04x" % o)
        if o < 0x80:
            ways += ["\\x%02x" % o, "\\%03o" % o]
            if o < 16 and not (nxt and nxt in "0123456789abcdefABCDEF"):
                ways.append("\\x%x" % o)
            if not (nxt and nxt.isdigit()):
                ways.append("\\%o" % o)
        if c in SIMPLE:
            ways += ["\\" + SIMPLE[c]] * 3
        elif c != "\n" and not c.isalnum() and o > 31:
            ways += ["\\" + c] * 3
        elif c in "dghijkpqwyz":
            ways.append("\\" + c)
        return r.choice(ways)

    def inner(self, s, op, cl, esc=0.15, interp=True, depth=0, brk=True):
        """`s` between double quotes or the like, which `cl` ends"""
        r = self.r
        bal = op is not None and self.balanced(s, op, cl) and "#" not in s
        out = ""
        i = 0
        while i < len(s):
            c = s[i]
            nxt = s[i + 1:i + 2]
            if interp and depth < 2 and not bal and r.random() < 0.08:
                k = r.randint(0, 4)
                part = s[i:i + k]
                self.tags.add("interpolation")
                w = r.random()
                if part.isdigit() and (part == "0" or part[0] != "0") and w < 0.8:
                    out += "#{%s}" % part if r.random() < 0.5 else "#{ %s + 1 - 1 }" % part
                elif not part and w < 0.5:
                    out += r.choice(("#{nil}", "#{}", "#{''}", "#{ }", "#@none" if c in " -.,;" else "#{}", "#{\n}"))
                elif w < 0.6:
                    out += "#{%s}" % self.quoted(part, depth + 1)
                elif w < 0.8:
                    out += "#{x = %s; x}" % self.quoted(part, depth + 1)
                else:
                    out += "#{[%s].each { |y| break y }}" % self.quoted(part, depth + 1)
                i += k
                continue
            if brk and r.random() < 0.03:
                self.tags.add("line continued in a string")
                out += "\\\n"
            if c == cl and not bal or c == op and not bal or c == "\\" or c == "#" and (not nxt or nxt in "{$@"):
                out += self.esc(c, nxt) if r.random() < 0.4 else "\\" + c
            elif bal and c in (op, cl):
                out += "\\" + c if i and s[i - 1] == "#" and c in "{" else c
            elif c in "#{" or c in "\r\0":
                out += self.esc(c, nxt) if r.random() < 0.3 or c in "\r\0" or i and s[i - 1] == "#" and c in "{$@" else c
            elif i and s[i - 1] == "#" and c in "{$@":
                out += "\\" + c
            elif r.random() < esc:
                self.tags.add("escape")
                out += self.esc(c, nxt)
            else:
                out += c
            i += 1
        # an octal or hex escape must not swallow a digit that follows: esc looked at it
        return out

    def single(self, s, op, cl):
        r = self.r
        bal = op is not None and self.balanced(s, op, cl)
        out = ""
        for i, c in enumerate(s):
            nxt = s[i + 1:i + 2]
            if c == "\\":
                free = nxt and nxt not in ("\\", cl, op) and r.random() < 0.6
                out += "\\" if free else "\\\\"
            elif c in (cl, op) and not bal:
                out += "\\" + c
            else:
                out += c
        return out

    def quoted(self, s, depth=0):
        """a string literal whose value is `s`"""
        r = self.r
        k = r.random()
        if len(s) == 1 and k < 0.3 and depth == 0:
            self.tags.add("?c")
            c = s
            if c.isalnum() and c.isascii() or c in "_+-*/=.,":
                return "?" + c
            if c in "\n\t\x1b\x07":
                return "?\\" + SIMPLE[c]
            if c == " ":
                return "?\\s"
        if k < 0.45 or depth >= 2:
            self.tags.add('""')
            return '"%s"' % self.inner(s, None, '"', depth=depth)
        if k < 0.6:
            self.tags.add("''")
            return "'%s'" % self.single(s, None, "'")
        if depth == 0 and k < 0.68 and s:
            self.tags.add("adjacent literals")
            i = r.randint(0, len(s))
            return ('"%s"' % self.inner(s[:i], None, '"', interp=r.random() < 0.5)) + r.choice((" ", "  ", " \\\n")) + "'%s'" % self.single(s[i:], None, "'")
        op = r.choice("([{<|!/")
        cl = PAIRS.get(op, op)
        opn = op if op in PAIRS else None
        if k < 0.84:
            self.tags.add("%Q" + op)
            return "%" + r.choice(("Q", "Q", "")) + op + self.inner(s, opn, cl, depth=depth) + cl
        self.tags.add("%q" + op)
        return "%q" + op + self.single(s, opn, cl) + cl

    def heredoc(self, s):
        """the opening of a here document; its text waits in `body`. Returns (text, value)."""
        r = self.r
        tag = r.choice(("EOT", "A", "_x1", "end", "Eof2"))
        mode = r.choice(("", "-", "~"))
        quote = r.choice(("", "'", '"'))
        s = "".join(c for c in s if c not in "\r\0")
        lines = s.split("\n")
        if mode == "~":
            lines = [x if not x or x[0] not in " \t" else "x" + x for x in lines]
            keep = [i for i, x in enumerate(lines) if x.strip()]
            lines = [x if x.strip() else "" for x in lines]
            if quote != "'":
                pass
            extra = {i: r.choice(("", "", " ", "   ", "\t")) for i in keep}
            if keep:
                extra[r.choice(keep)] = ""
            lines = [extra.get(i, "") + x for i, x in enumerate(lines)]
        lines = [x for x in lines if x.strip() != tag]
        val = "".join(x + "\n" for x in lines)
        pad = r.choice(("", "  ", "      ", "\t")) if mode == "~" else ""
        if pad == "\t":
            # a tab is as wide as eight blanks: keep to lines that add nothing
            lines = [x.lstrip(" \t") for x in lines]
            val = "".join(x + "\n" for x in lines)
        text = ""
        for x in lines:
            if quote == "'":
                y = x
            else:
                lead = len(x) - len(x.lstrip(" \t")) if mode == "~" else 0
                y = x[:lead] + self.inner(x[lead:], None, None, esc=0.1, brk=False, interp=mode != "~" and False)
            text += (pad + y if x.strip() or not mode == "~" else "") + "\n"
        if quote == "'" and mode == "~":
            pass
        self.tags.add("<<" + mode + quote)
        self.body.append(text + (r.choice(("", "  ", "\t")) if mode else "") + tag + "\n")
        return "<<%s%s%s%s" % (mode, quote, tag, quote), val

    def symbol(self, s):
        r = self.r
        if r.random() < 0.5 and s and s.isascii() and (s.replace("_", "a").isalnum() and not s[0].isdigit() or s in ("+", "-", "*", "/", "==", "<=>", "[]", "[]=", "<<", "!", "a?", "b!", "c=", "@a", "@@b", "$c")):
            self.tags.add(":name")
            return ":" + s
        if r.random() < 0.5:
            self.tags.add(':""')
            return ':"%s"' % self.inner(s, None, '"', interp=r.random() < 0.3, brk=False)
        self.tags.add(":''")
        return ":'%s'" % self.single(s, None, "'")

    def number(self, x):
        r = self.r
        s = lay.Lay(r, 1).number(x) if r.random() < 0.7 else str(x)
        if s.isdigit() or s[:2].lower() not in ("0x", "0b", "0o", "0d"):
            return s
        return s[0] + (s[1].upper() if r.random() < 0.3 else s[1]) + s[2:]

    def floats(self):
        r = self.r
        a = str(r.choice((0, 1, 12, 1234567, r.randint(0, 10 ** 9))))
        b = "".join(r.choice("0123456789") for _ in range(r.randint(1, 8)))
        e = r.randint(-20, 20)
        t = r.choice(("%s.%s", "%s.%s", "%s.%se%d", "%s.%sE+%d", "%se%d"))
        if t == "%se%d":
            t = "%se%d" % (a, e)
        elif t.count("%") == 2:
            t = t % (a, b)
        else:
            t = t % (a, b, abs(e) if "+" in t else e)
        x = float(t)
        if r.random() < 0.4:
            t = t.replace("12345", "1_2345", 1)
        return t, x

    def value(self, d, here=True):
        """(text, value) of any literal"""
        r = self.r
        k = r.random()
        if k < 0.4 or d <= 0 and k < 0.6:
            s = self.content()
            if r.random() < 0.15 and here:
                return self.heredoc(s)
            return self.quoted(s), RStr(s)
        if k < 0.5 or d <= 0 and k < 0.75:
            s = r.choice(("a", "b_1", "Cx", "+", "-", "==", "<=>", "[]", "[]=", "a?", "b!", "c=", "@a", "@@b", "$c", "if", "end", "nil")) if r.random() < 0.5 else self.content()
            return self.symbol(s), Sym(s)
        if k < 0.58 or d <= 0 and k < 0.9:
            x = r.choice((0, 1, 7, 8, 63, 255, 4096, r.randint(0, 1 << 30), (1 << 62) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, 1 << 64, r.randint(0, 1 << 90)))
            self.tags.add("integer")
            t = self.number(x)
            if r.random() < 0.3:
                return "-" + t, -x
            return t, x
        if k < 0.62 or d <= 0:
            self.tags.add("float")
            return self.floats()
        if k < 0.68:
            self.tags.add("%w")
            op = r.choice("([{<|")
            cl = PAIRS.get(op, op)
            ws = [self.content(r.randint(1, 6), [c for c in CHARS if c not in "\r\0\x0b"]) for _ in range(r.randint(0, 4))]
            ws = [w for w in ws if w]
            sy = r.random() < 0.3
            if sy:
                ws = ["".join(c for c in w if c.isalnum() and c.isascii() or c in "_+") or "s" for w in ws]

            def word(w):
                out = ""
                for i, c in enumerate(w):
                    if c in " \t\n\\" or c in (op, cl):
                        out += "\\" + c
                    else:
                        out += c
                return out
            sp = lambda: r.choice((" ", " ", "  ", "\n", "\t", " \n "))
            t = "%" + ("i" if sy else "w") + op + r.choice(("", " ", "\n")) + "".join((sp() if i else "") + word(w) for i, w in enumerate(ws)) + r.choice(("", " ")) + cl
            return t, [Sym(w) if sy else RStr(w) for w in ws]
        sub = [self.value(d - 1) for _ in range(r.randint(0, 3))]
        if k < 0.84:
            self.tags.add("[]")
            tail = "," if sub and r.random() < 0.2 else ""
            return "[" + (", " if r.random() < 0.7 else ",").join(t for t, _ in sub) + tail + "]", [x for _, x in sub]
        self.tags.add("{}")
        h, ts = [], []
        for t, x in sub:
            w = r.random()
            if w < 0.3:
                key = r.choice(("a", "b", "c1", "_d", "if", "class", "Ab", "nil", "self"))
                ts.append(key + ":" + r.choice((" ", "  ", " ")) + t)
                h.append((Sym(key), x))
            elif w < 0.45:
                s = self.content(r.randint(1, 5))
                ts.append('"%s": ' % self.inner(s, None, '"', interp=False, brk=False) + t)
                h.append((Sym(s), x))
            else:
                kt, kv = self.value(0, False)
                if isinstance(kv, float):
                    kt, kv = "1", 1
                if isinstance(kv, str) and not isinstance(kv, Sym):
                    kv = RStr(kv)
                # (`:a!=>1`: the sign would belong to the name)
                ts.append(kt + r.choice((" => ", " =>", "=>" if kt[-1] not in "?!<>=*+-]&|" or isinstance(kv, list) else " => ")) + t)
                h.append((kv, x))
        hh = RHash()
        for a, b in h:
            hh[a] = b
        return "{" + ", ".join(ts) + "}", hh


def literals(chk, n):
    r = chk.rng("literal")
    cases = []
    for _ in range(n):
        L = Lit(r)
        t, x = L.value(r.choice((0, 0, 1, 2)))
        lines = ["=" + ins(x)]
        body = "".join(L.body)
        k = r.random()
        if L.body and "\n" in t:
            continue            # a line break before the here document's own line ends
        if k < 0.5:
            src = "v(%s)\n" % t + body
        elif k < 0.65:
            src = "x = %s\n" % t + body + "v(x)\n"
        elif k < 0.75 and not t.startswith("{"):
            src = "v %s\n" % t + body
        elif k < 0.85:
            src = "x = [1, %s, 2]\n" % t + body + "v x[1]\n"
        else:
            src = "v(eval(" + ins_str("x = %s\n" % t + body + "x") + "))\n"
            L.tags.add("eval")
        cases.append(Case(src, lines, {"literal " + k for k in L.tags}, r.choice(("top", "top", "def", "block"))))
    return cases


# -- inspect reads back
def reads_back(chk, n):
    r = chk.rng("inspect")
    L = Lit(r)
    cases = []

    def val(d):
        k = r.random()
        if k < 0.3 or d <= 0 and k < 0.5:
            return RStr(L.content())
        if k < 0.4 or d <= 0 and k < 0.7:
            return Sym(r.choice(("a", "B", "c?", "d!", "e=", "+", "[]=", "@f", "@@g", "$h", "if")) if r.random() < 0.5 else L.content())
        if k < 0.52 or d <= 0:
            return r.choice((None, True, False, r.randint(-50, 50), r.randint(-1 << 70, 1 << 70), r.randint(-1 << 64, 1 << 64) / 1024.0, 1.5e300, 2.5e-9))
        if k < 0.58:
            a = r.randint(-20, 20)
            return Rng(a, a + r.randint(-3, 9), r.random() < 0.5)
        if k < 0.8:
            return [val(d - 1) for _ in range(r.randint(0, 4))]
        h = RHash()
        for _ in range(r.randint(0, 4)):
            key = val(0)
            # (`:a?=>1`, `:<=>1`: no Ruby reads these back)
            if not isinstance(key, float) and not (isinstance(key, Sym) and sym(key)[-1] in "?!<>=*+-"):
                h[key] = val(d - 1)
        return h
    for _ in range(n):
        x = val(r.randint(0, 3))
        cases.append(Case("x = %s\ns = x.inspect\nputs s\ny = eval(s)\nv(y == x)\nv(y.inspect == s)\nv(y.class == x.class)\n" % lit(x),
                          [ins(x), "=true", "=true", "=true"], {"read back " + type(x).__name__}, r.choice(("top", "def"))))
    return cases


# -- text that is no program: nothing of it runs
BROKEN = ["1 = 2", "1 +", "x = = 1", "x = ", "foo(", "[1, 2", "{1 => }", "{1 2}", "def", "def f", "def f(", "def f(a", "class", "class a; end", "class A", "module", "module m; end",
          "if true", "if", "unless 1", "while true", "while", "until 1", "case 1", "case 1; when 2", "begin", "begin; 1; rescue", "begin; 1; ensure", "for i in 1", "for in [1]; end",
          "end", "else", "elsif 1", "when 1", "ensure", "rescue", "then", "do", "in 1", "1.", "1.foo(", "foo.", "a.b = ", "a ? 1", "a ? 1 :", "a ?", ")", "]", "}", "(", "(1", "[",
          "[1, ", "{", "{a: ", "{a:", "->(", "-> {", "-> do", "->(a", "lambda {", "[1].each do", "[1].each do |x|", "[1].each { |x|", "[1].each { |x", "'abc", "\"abc", "\"a#{\"", "\"a#{1\"", "%w(a b", "%q(a",
          "%(a(b)", "/abc", "/a#{1", "`ls", ":\"a", "<<A\nabc", "<<~A\n  abc\n", "x = <<'B'\nabc\nBB\n", "0x", "0b2", "08", "1e", "0o8", "1.5e", "@", "@1", "@@", "$", "\"\\u{}\"", "\"\\u{110000}\"", "\"\\xg\"", "\"\\u12\"",
          "&& 1", "1 &&", "1 ||", "|| 1", "* 2", "/", "1 *", "1 /", "1 **", "1 <", "1 <=>", "1 ==", "1 ===", "1 == 2 == 3", "1 <=> 2 <=> 3", "1 != 2 == 3", "1..2..3", "1 << ", "=> 1", "1 => ",
          "f(1,", "f(a: ", "f(&", "f(*", "def f(a b) end", "def f(a,) end", "def f(1) end", "def f(&b, a) end", "def 1; end", "x.y z = ", "return = 1", "nil = 1", "self = 1", "true = 1", "if = 1", "and 1", "1 and", "or",
          "1 or", "1 if", "1 unless", "1 while", "1 rescue", "1 2", "\"a\" 1", "x 1 2", "[1 2]", "[1,,2]", "[,1]", "f(,1)", "f(1,,2)", "f(1 2)", "{a: 1 b: 2}", "yield = 1", "alias", "alias a", "alias 1 2", "defined?", "super(", "break 1,", "begin; end end",
          "if 1; end; end", "def f; end; end", "class A; end; end", "while 1; end; end", "if 1 then 2 else 3 else 4 end", "begin; 1; else 2; else 3; end", "case 1; else 2; when 3; end", "def f; if 1; end", "def f; [1; end", "def f; (1; end",
          "f { |x| ", "f { ) }", "(1 end)", "[1 end]", "{ 1 => 2 end", "begin 1 }", "if 1 }", "def f }", "(1]", "[1)", "f(1]", "f[1)", "{a: 1)", "x += ", "x ||=", "x + = 1", "x =+ ", "1 += 2", "f(1) = 1", "a.f(2) += 1", "a, b", "a, = ", "a, 1 = 2", "=begin\n1", "\"a\" = 1", "[1] = 2",
          "::", "A::", "A::1", "::1", "a::", "a.1", "a..b.", "..", "->", "!", "~", "-", "+", "class A < ; end", "class A < B", "class << self", "class A::b; end", "module A::", "def self.; end", "def a.; end", "def self.f", "-> (a { }", "x = if 1", "x = [1", "puts 1,", "puts [1",
          "unless 1; 2; elsif 3; end", "while 1 do", "until 1 do 2", "for i in [1] do", "loop do |", "loop do |x", "loop { |x,", "begin; rescue => 1; end", "begin; rescue A =>; end", "begin; rescue A, ; end", "def f(a = ) end", "def f(a: b: ) end", "def f(*) ) end", "f(**)", "f(a:, )x", "case; end", "case 1; end"]


# accepted, and an existing test needs them to be
OPEN = ["f(1", "puts(1", "x = f(1, 2", "a.b(1"]


def invalid(chk, n):
    r = chk.rng("invalid")
    cases, files = [], []
    texts = list(BROKEN)
    out = []
    for t in texts:
        out.append((t, "broken"))
    L = lay.Lay(r, 0)
    while len(out) < n:
        try:
            src, _, _ = ctl.program(r, "", ctl.ALL - {"bare_raise"}, depth=2, budget=r.choice((8, 20)), closures=False, render=lay.Lay(r, r.choice((0, 0.4))).method)
        except (ctl.Discard, RecursionError):
            continue
        k = r.random()
        if k < 0.2:
            # the last `end` of the text: what it closes never ends
            i = src.rstrip().rfind("\nend")
            if i < 0 or src[i + 4:].strip():
                continue
            out.append((src[:i] + "\n", "last end left out"))
        elif k < 0.4:
            out.append((src + r.choice(("end\n", "}\n", ")\n", "]\n", "else\n", "then\n", ", 1\n", "=> 1\n", "* 2\n")), "something too much at the end"))
        elif k < 0.55:
            out.append((r.choice(("def zz\n", "begin\n", "class Zz\n", "if 1\n", "x = [\n", "while true\n", "p((\n", "zz {\n", "case 1\nwhen 1\n", "x = \"\n")) + src, "never closed"))
            if out[-1][0].startswith('x = "'):
                out.pop()
        else:
            b = r.choice(BROKEN)
            if b.startswith("<<") or b.startswith("x = <<") or b.startswith("=begin") or b in ("'abc", "\"abc", "`ls", "/abc"):
                continue
            # in front: whatever follows may complete it; at the end nothing does
            out.append((src + "\n" + b + "\n", "broken at the end"))
    for t in OPEN:
        cases.append(Case("begin\n  eval(%s)\n  puts 'accepted'\nrescue SyntaxError => e\n  puts e.class.to_s\nend\n" % ins_str(t), ["SyntaxError"], {"invalid: missing parenthesis"}, "top", key="missing-paren"))
    for t, kind in out:
        t = "puts 'ran'\n$ran = 1\n" + t
        ctx = r.choice(("top", "def", "block"))
        w = r.random()
        if w < 0.25:
            files.append((t, kind))
            continue
        cases.append(Case("begin\n  eval(%s)\n  puts 'accepted'\nrescue SyntaxError => e\n  puts e.class.to_s\nend\n" % ins_str(t), ["SyntaxError"], {"invalid: " + kind}, ctx))
    return cases, files


def whole_files(chk, files):
    """The same as programs of their own: nothing but the error comes out."""
    binary = build.build("mon")
    lock = threading.Lock()

    def one(f):
        t, kind = f
        res = run_program(binary, t)
        bad = None
        if res.wall_timeout or res.oom:
            with lock:
                chk.inconclusive += 1
            return
        if res.crashed():
            bad = "a text that is no program: " + res.how()
        elif res.out:
            bad = "a text that is no program printed %r" % res.out[:80]
        elif "SyntaxError" not in res.err:
            bad = "a text that is no program was not refused: %r" % res.err[:120]
        with lock:
            chk.evaluations += 1
            if bad:
                chk.violation(bad, t)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, files))
    chk.extra["texts refused as whole programs"] = len(files)


def check(chk):
    chk.rule = ("distinct programs. Expression trees over objects that record which operator was applied to what are written with the fewest parentheses "
                "and random layout: precedence, associativity, order of evaluation, short circuits. Integer trees do the same for the machine's own operators. "
                "Programs with all control structures are printed in random layouts (separators, comments, =begin, modifiers, then, unless, until, "
                "command calls, braces or do .. end) and must print what their tree means. Literals in every notation, inspect read back, "
                "and texts that are no program, which must be refused before anything of them runs.")
    chk.assumptions = ["unary +, ! and !~ are not sent to methods by this implementation and are judged by their built-in meaning",
                       "a `do` block after a command call belongs to the call only where its last argument takes no block (existing tests pin this)",
                       "`{:a?=>1}` and the like (names ending in ? ! = or operators as symbol keys) do not read back in Ruby before 3.4 either and are left out",
                       "forms this implementation does not have are left out (listed in DESIGN.md)"]
    n = chk.scale(6000, 60000)
    chk.run(trees(chk, n), size=120, prelude=PRE)
    chk.run(ints(chk, chk.scale(6000, 60000)), size=200)
    chk.run(layout(chk, chk.scale(1500, 15000)), size=12, prelude=ctl.PRELUDE)
    chk.run(literals(chk, chk.scale(9000, 80000)), size=60)
    chk.run(reads_back(chk, chk.scale(4000, 40000)), size=80)
    cases, files = invalid(chk, chk.scale(1200, 6000))
    chk.run(cases, size=40)
    whole_files(chk, files)
