"""Ruby text of the syntax trees of ctl.py in any layout the grammar allows: fewest or more parentheses, separators, line breaks,
comments, modifiers, `then`, `unless`, `until`, command calls, blocks in braces or do .. end."""
import re

import ctl
from rb import RStr, ins

BIN = {"**": 80, "*": 60, "/": 60, "%": 60, "+": 50, "-": 50, "<<": 40, ">>": 40, "&": 35, "|": 30, "^": 30,
       "<": 25, ">": 25, "<=": 25, ">=": 25, "==": 20, "!=": 20, "<=>": 20, "===": 20, "=~": 20, "!~": 20}
PRIM, NOT, UMINUS, AND, OR, RANGE, TERN, RES, ASG, WAND, STMT = 100, 90, 70, 15, 12, 10, 8, 6, 5, 1, 0
COMMENTS = ("# x", "#", "# end", "# \"", "# '", "# {", "# }", "# do |x|", "# #{1}", "#=begin", "# if", "#\t", "# \\", "# <<A", "# )")
BLOCKC = ("=begin\nend\n=end\n", "=begin x\nputs 'never'\n # }\n=end y\n", "=begin\n=end\n")


class Lay:
    """`r` chooses; `tame` leaves out what the interpreter does not read (listed in DESIGN.md)."""

    def __init__(self, r, spread=0.5):
        self.r = r
        self.spread = spread        # how often a choice departs from the plain layout
        self.nodo = 0               # a `do` here would belong to something further out
        self.seen = {}
        self.flat = 0               # no line breaks (inside a one-line construct chosen as such)

    def note(self, k):
        self.seen[k] = self.seen.get(k, 0) + 1

    def p(self, x=1.0):
        return self.r.random() < self.spread * x

    # -- white space
    def sp(self):
        """At least one blank."""
        if self.p(0.15):
            self.note("blanks")
            return self.r.choice(("  ", "   ", " \t ", "\t"))
        return " "

    def osp(self):
        return self.r.choice(("", " ", "  ")) if self.p(0.6) else " "

    def brk(self):
        """Room after an operator or a comma: a line may end here."""
        if self.p(0.25):
            self.note("line break after operator or comma")
            k = self.r.random()
            if k < 0.6:
                return self.r.choice(("\n", " \n  ", "\n\n", "\n\t"))
            if k < 0.8:
                self.note("comment after operator or comma")
                return " " + self.r.choice(COMMENTS) + "\n "
            self.note("backslash")
            return " \\\n "
        return " "

    def sep(self):
        """Between statements."""
        k = self.r.random()
        if not self.p():
            return "\n"
        self.note("separator")
        if k < 0.35:
            return self.r.choice((";", " ; ", ";;", "; "))
        if k < 0.5:
            return self.r.choice(("\n\n", "\n  ", " \n", ";\n", "\n;"))
        if k < 0.85:
            self.note("comment")
            return self.r.choice((" ", "\n", "\n   ", "; ")) + self.r.choice(COMMENTS) + "\n"
        if k < 0.93:
            self.note("=begin")
            return "\n" + self.r.choice(BLOCKC)
        return "\n"

    def term(self):
        """After a condition or a clause head."""
        k = self.r.random()
        if not self.p():
            return "\n"
        self.note("term")
        if k < 0.5:
            return self.r.choice((";", " ; ", "; "))
        if k < 0.8:
            return " " + self.r.choice(COMMENTS) + "\n"
        return "\n\n"

    def then(self):
        if self.p(0.5):
            self.note("then")
            return self.r.choice((" then ", " then\n", "\nthen ", "; then "))
        return self.term()

    # -- expressions
    def paren(self, s):
        if self.lastcomment(s):
            return "(%s\n)" % s
        if self.p(0.2):
            self.note("wide parentheses")
            return "( %s )" % s
        if self.p(0.1):
            self.note("lines in parentheses")
            return "(\n%s\n)" % s
        return "(%s)" % s

    def ex(self, n, ctx=STMT, first=False):
        """`n` where an operator of strength `ctx` applies to it; `first` = the text is the start of a command's arguments"""
        s, p = self.raw(n, ctx)
        if p < ctx or (p < PRIM and self.p(0.12)):
            if p >= ctx:
                self.note("extra parentheses")
            return self.inpar(n)
        if p == PRIM and self.p(0.04) and n[0] not in ("return", "break", "next"):
            self.note("extra parentheses")
            return self.inpar(n)
        return s

    def inpar(self, n):
        nd, self.nodo = self.nodo, 0
        s = self.paren(self.raw(n, STMT)[0])
        self.nodo = nd
        return s

    def args(self, ns):
        return ("," + self.brk() if self.p(0.5) else ", ").join(self.ex(x, RES + 1) for x in ns)

    def call(self, name, ns, amp=None):
        """name(args) with parentheses"""
        nd, self.nodo = self.nodo, 0
        a = [self.ex(x, RES + 1) for x in ns] + ([amp] if amp else [])
        self.nodo = nd
        if not a:
            return name + "()" if self.p(0.15) else name
        s = a[0]
        for x in a[1:]:
            s += "," + self.brk() + x
        if self.p(0.08):
            self.note("line break in parentheses")
            return "%s(\n%s\n)" % (name, s)
        if self.p(0.15):
            return "%s( %s )" % (name, s)
        return "%s(%s)" % (name, s)

    def binary(self, op, l, rr, p):
        left = p + 1 if op == "**" or p in (20,) else p
        right = p if op == "**" else p + 1
        a, b = self.ex(l, left), self.ex(rr, right)
        if op == "**" and a[0] in "-+!~":
            a = "(%s)" % a if l[0] != "lit" or not a[1:2].isdigit() else a
        # on both sides or on none; a sign after an operator stays apart
        if self.p(0.4) and b[0] not in "-+!~*&:[{(/%<" and a[-1] not in "?!" and not a[-1].isspace():
            self.note("no blanks around an operator")
            return a + op + b, p
        return a + self.sp() + op + self.brk() + b, p

    def raw(self, n, ctx):
        k = n[0]
        f = getattr(self, "r_" + k, None)
        if f:
            return f(n, ctx)
        s = self.stmtx(n)
        if s is not None:
            return s, PRIM
        raise AssertionError(k)

    def r_lit(self, n, ctx):
        x = n[1]
        if isinstance(x, int) and not isinstance(x, bool):
            if x < 0:
                return str(x), UMINUS
            return self.number(x), PRIM
        return ins(x), PRIM

    def number(self, x):
        if not self.p(0.3):
            return str(x)
        self.note("number notation")
        k = self.r.choice("xboud")
        if k == "x":
            return "0x" + (("%x" if self.r.random() < 0.5 else "%X") % x)
        if k == "b":
            return "0b" + bin(x)[2:]
        if k == "o" and x > 0:
            return "0" + oct(x)[2:]
        s = str(x)
        return s[0] + "".join(("_" if self.r.random() < 0.3 else "") + c for c in s[1:])

    def r_var(self, n, ctx):
        return n[1], PRIM
    r_gvar = r_var

    def assign(self, lhs, op, rhs, ctx):
        if rhs[0] in ("lit", "var", "bin", "call", "t", "arr", "and", "or") and self.p(0.3):
            s = self.ex(rhs, ASG)
        else:
            s = self.ex(rhs, RES + 1)
        # an assignment takes all that follows: it ends an expression
        return lhs + (self.osp() + op + self.osp() if op != "=" or s[0] not in "~>=" else " = ") + s, ASG

    def r_asg(self, n, ctx):
        return self.assign(n[1], "=", n[2], ctx)
    r_gasg = r_asg

    def r_op(self, n, ctx):
        return self.assign(n[1], n[2] + "=", n[3], ctx)

    def r_oror(self, n, ctx):
        return self.assign(n[1], "||=", n[2], ctx)

    def r_bin(self, n, ctx):
        return self.binary(n[1], n[2], n[3], BIN[n[1]])

    def word(self, w, sym, n, ctx, p):
        if ctx <= WAND and self.p(0.6):
            self.note(w)
            # same strength, from the left: a statement on the right side is what it takes
            a, b = self.ex(n[1], WAND), self.ex(n[2], WAND + 1)
            return a + " " + w + (" " if self.p(0.8) else self.brk()) + b, WAND
        a, b = self.ex(n[1], p), self.ex(n[2], p + 1)
        return a + self.sp() + sym + self.brk() + b, p

    def r_and(self, n, ctx):
        return self.word("and", "&&", n, ctx, AND)

    def r_or(self, n, ctx):
        return self.word("or", "||", n, ctx, OR)

    def r_not(self, n, ctx):
        return "!" + self.ex(n[1], NOT), NOT

    def r_arr(self, n, ctx):
        nd, self.nodo = self.nodo, 0
        xs = [self.ex(x, RES + 1) for x in n[1]]
        self.nodo = nd
        if not xs:
            return self.r.choice(("[]", "[ ]")), PRIM
        s = ("," + self.brk()).join(xs)
        if self.p(0.15):
            self.note("comma at the end")
            s += self.r.choice((",", " ,", ",\n"))
        if self.p(0.15):
            self.note("line break in brackets")
            return "[\n%s\n]" % s, PRIM
        return self.r.choice(("[%s]", "[%s]", "[ %s ]")) % s, PRIM

    def r_v(self, n, ctx):
        return self.call("v", [n[1]]), PRIM

    def r_t(self, n, ctx):
        return self.call("t", [("lit", n[1]), n[2]]), PRIM

    def r_trip(self, n, ctx):
        return self.call("trip", [n[1]]), PRIM

    def r_fuse(self, n, ctx):
        return "fuse", PRIM

    def r_given(self, n, ctx):
        return "block_given?", PRIM

    def string(self, s):
        return self.r.choice((ins(RStr(s)), "'%s'" % s, "%%q(%s)" % s, "%%{%s}" % s, "%%Q[%s]" % s)) if self.p(0.5) and not set(s) & set("'\\()[]{}#\"") else ins(RStr(s))

    def r_puts(self, n, ctx):
        return "puts(%s)" % self.string(n[1]), PRIM

    def r_seq(self, n, ctx):
        if not n[1]:
            return "nil", PRIM
        if len(n[1]) == 1:
            return self.raw(n[1][0], ctx) if n[1][0][0] not in ("while", "for", "begin") else (self.inpar(n[1][0]), PRIM)
        nd, self.nodo = self.nodo, 0
        s = self.body(n[1]).rstrip("\n")
        self.nodo = nd
        return ("(%s\n)" % s if self.lastcomment(s) else "(%s)" % s), PRIM

    def lastcomment(self, s):
        return "#" in s.rsplit("\n", 1)[-1] or s.rsplit("\n", 1)[-1].startswith("=end") or s.endswith("\\")

    def r_call(self, n, ctx):
        b, amp = n[3], None
        if isinstance(b, tuple) and b and b[0] == "amp":
            amp, b = "&" + self.ex(b[1], PRIM), None
        if b is None:
            return self.call(n[1], n[2], amp) if n[2] or amp else n[1] + "()", PRIM
        return self.call(n[1], n[2], amp) + self.blk(b), PRIM

    def dot(self):
        if self.p(0.15):
            self.note("line break before a dot")
            return self.r.choice(("\n  .", "\n.", " \n\t.", " # x\n  ."))
        if self.p(0.1):
            self.note("line break after a dot")
            return ".\n  "
        return "."

    def r_native(self, n, ctx):
        kind = n[1]
        if kind == "loop":
            return "loop" + self.blk(n[3]), PRIM
        if kind == "upto":
            return "1" + self.dot() + self.call("upto", [n[2]]) + self.blk(n[3]), PRIM
        if kind == "inject":
            return self.ex(n[2], PRIM) + self.dot() + "inject(0)" + self.blk(n[3]), PRIM
        return self.ex(n[2], PRIM) + self.dot() + kind + self.blk(n[3]), PRIM

    def r_yield(self, n, ctx):
        nd, self.nodo = self.nodo, 0
        s = "yield" + ("(" + self.args(n[1]) + ")" if n[1] else "")
        self.nodo = nd
        return s, PRIM

    def r_lambda(self, n, ctx):
        params, body = n[1]
        if self.p(0.6):
            self.note("->")
            ps = ", ".join(params)
            b = self.blk(([], body))
            return "->" + (("(%s)" % ps if self.p(0.6) else " " + ps) if ps else "") + b, PRIM
        return "lambda" + self.blk(n[1]), PRIM

    def r_proc(self, n, ctx):
        return ("Proc.new" if self.p(0.3) else "proc") + self.blk(n[1]), PRIM

    def r_pcall(self, n, ctx):
        a = self.ex(n[1], PRIM)
        nd, self.nodo = self.nodo, 0
        s = self.args(n[2])
        self.nodo = nd
        k = self.r.random() if self.p() else 1
        if k < 0.3:
            self.note(".()")
            return "%s.(%s)" % (a, s), PRIM
        if k < 0.6 and not s.startswith("*"):
            self.note("[] of a proc")
            return "%s[%s]" % (a, s), PRIM
        return "%s%scall(%s)" % (a, self.dot(), s), PRIM

    def r_rescuemod(self, n, ctx):
        a, b = self.ex(n[1], RES + 1), self.ex(n[2], RES + 1)
        return a + " rescue " + b, RES

    def r_raise(self, n, ctx):
        return "raise(%s, %s)" % (n[1], self.string(n[2])), PRIM

    def r_reraise(self, n, ctx):
        return "raise(%s)" % n[1][1] if n[1][0] == "var" else "raise(%s)" % self.ex(n[1], RES + 1), PRIM

    def r_bareraise(self, n, ctx):
        return "raise", PRIM

    def r_msg(self, n, ctx):
        return self.r.choice(('puts("m " + %s.class.to_s + " " + %s.message)', 'puts("m #{%s.class} #{%s.message}")', 'puts "m " "#{%s.class.to_s} #{%s.message}"')) % (n[1], n[1]), PRIM

    def r_kls(self, n, ctx):
        return 'puts("c " + %s.class.to_s)' % n[1], PRIM

    def r_return(self, n, ctx):
        if n[1] is None:
            return n[0], STMT
        nd = self.nodo
        self.nodo += 1
        s = self.operand(n[1])
        self.nodo = nd
        return n[0] + self.sp() + s, STMT
    r_break = r_next = r_return

    # -- blocks and statements
    def blk(self, b):
        if b is None:
            return ""
        params, body = b
        ps = self.r.choice(("|%s|", "| %s |")) % (("," + self.osp()).join(params)) if params else ""
        nd, self.nodo = self.nodo, 0
        s = self.body(body)
        self.nodo = nd
        if nd or self.r.random() < 0.6:
            t = self.tight(s)
            op = self.r.choice((" {", "{")) if self.p() else " {"
            return op + (self.osp() + ps if ps else "") + t + "}"
        self.note("do")
        return self.sp() + "do" + (self.osp() + ps if ps else "") + self.opening(s, ps) + "end"

    def opening(self, s, ps):
        if self.p(0.4):
            return (" " if ps or self.p(0.9) else "; ") + s + ("\n" if not s.endswith("\n") else "")
        return "\n" + s + ("\n" if not s.endswith("\n") else "")

    def tight(self, s):
        if self.p(0.5):
            s2 = s.rstrip("\n")
            self.note("one-line braces")
            if not self.lastcomment(s2):
                return " " + s2 + (" " if self.p(0.5) else "")
        return self.r.choice((" ", "\n")) + s + ("" if s.endswith("\n") else "\n")

    def body(self, ns):
        if not ns:
            return self.r.choice(("", "nil\n")) if False else "\n"
        s = ""
        for i, n in enumerate(ns):
            s += self.st(n)
            s += self.sep() if i < len(ns) - 1 else (self.sep() if self.p(0.5) else "\n")
        return s

    def ended(self, s):
        return s if s.endswith("\n") else s + "\n"

    def operand(self, n):
        """What follows a keyword or a name that a modifier could follow too."""
        s = self.ex(n, RES + 1)
        return self.paren(s) if re.match(r"(if|unless|while|until|rescue|and|or)\b", s) else s

    def command(self, name, ns):
        """name a, b"""
        self.note("command call")
        nd = self.nodo
        self.nodo += 1
        a = [self.operand(ns[0])] + [self.ex(x, RES + 1) for x in ns[1:]]
        self.nodo = nd
        return name + self.sp() + ("," + self.brk()).join(a)

    def st(self, n):
        k = n[0]
        if k == "puts" and self.p():
            return "puts" + self.sp() + self.string(n[1])
        if k == "v" and self.p(0.6):
            return self.command("v", [n[1]])
        if k == "t" and self.p(0.6):
            return self.command("t", [("lit", n[1]), n[2]])
        if k == "raise" and self.p(0.6):
            return "raise" + self.sp() + n[1] + "," + self.brk() + self.string(n[2])
        if k == "call" and n[2] and n[3] is None and self.p(0.6):
            return self.command(n[1], n[2])
        if k == "call" and n[2] and n[3] and n[3][0] != "amp" and n[2][-1][0] in ("lit", "var", "gvar") and self.p(0.4):
            self.note("command call with do")
            s = self.command(n[1], n[2])
            params, body = n[3]
            ps = " |%s|" % ", ".join(params) if params else ""
            nd, self.nodo = self.nodo, 0
            b = self.body(body)
            self.nodo = nd
            return s + " do" + ps + self.opening(b, ps) + "end" if not nd else self.ex(n)
        if k == "yield" and n[1] and self.p(0.6):
            return self.command("yield", n[1])
        if k == "asg" and n[2][0] == "call" and n[2][2] and n[2][3] is None and self.p(0.4):
            self.note("assignment of a command call")
            return n[1] + " = " + self.command(n[2][1], n[2][2])
        if k == "rescuemod":
            return self.raw(n, STMT)[0]
        s = self.stmtx(n)
        return s if s is not None else self.ex(n, STMT)

    def cond(self, n, neg=False):
        if neg:
            n = n[1] if n[0] == "not" else ("not", n)
        nd = self.nodo
        s = self.raw(n, STMT)[0] if self.r.random() < 0.8 else self.inpar(n)
        self.nodo = nd
        return s

    def simple(self, body):
        """One statement that may stand before a modifier."""
        if len(body) != 1:
            return False
        n = body[0]
        return n[0] in ("v", "t", "asg", "gasg", "op", "puts", "call", "return", "break", "next", "raise", "msg", "kls", "native", "yield", "oror", "lit", "var")

    def stmtx(self, n):
        k = n[0]
        if k == "if":
            return self.s_if(n)
        if k == "case":
            s = "case" + self.sp() + self.cond(n[1]) + self.term()
            for vals, body in n[2]:
                s += "when" + self.sp() + ("," + self.brk()).join(self.ex(x, RES + 1) for x in vals) + self.then() + self.ended(self.body(body))
            if n[3]:
                s += "else" + self.r.choice((" ", "\n")) + self.ended(self.body(n[3]))
            return s + "end"
        if k == "while" and len(n) > 4:
            return "begin\n%send %s %s" % (self.ended(self.body(n[3])), "while" if n[2] else "until", self.cond(n[1]))
        if k == "while":
            w, neg = n[2], False
            if self.p(0.3):
                self.note("while/until")
                w, neg = not w, True
            kw = "while" if w else "until"
            if self.simple(n[3]) and self.p(0.3) and n[3][0][0] not in ("lit", "var") and not self.assigns(n[1]):
                self.note("loop modifier")
                return self.st(n[3][0]) + " " + kw + " " + self.cond(n[1], neg)
            self.nodo += 1
            c = self.cond(n[1], neg)
            self.nodo -= 1
            nd, self.nodo = self.nodo, 0
            b = self.body(n[3])
            self.nodo = nd
            if self.p(0.4):
                self.note("while do")
                return kw + " " + c + " do" + self.r.choice((" ", "\n", "; ")) + self.ended(b) + "end"
            return kw + (" " + c if c[0] != "(" or not self.p(0.3) else c) + self.term() + self.ended(b) + "end"
        if k == "for":
            self.nodo += 1
            c = self.ex(n[2], RES + 1)
            self.nodo -= 1
            nd, self.nodo = self.nodo, 0
            b = self.body(n[3])
            self.nodo = nd
            return "for %s in %s%s%send" % (n[1], c, self.r.choice((" do ", " do\n", "\n")) if self.p() else self.term(), self.ended(b))
        if k == "begin":
            return "begin" + (self.r.choice((" ", ";", "\n\n")) if self.p(0.5) else "\n") + self.begin_body(n) + "end"
        return None

    def s_if(self, n):
        c, a, b = n[1], n[2], n[3]
        r = self.r
        if not b and self.simple(a) and self.p(0.6) and not self.assigns(c):
            self.note("if modifier")
            neg = r.random() < 0.4
            s = self.st(a[0])
            return s + self.sp() + ("unless" if neg else "if") + self.sp() + self.cond(c, neg)
        if b and len(a) == 1 and len(b) == 1 and a[0][0] in ("v", "t", "lit", "var", "call", "bin") and b[0][0] in ("v", "t", "lit", "var", "call", "bin") and self.p(0.5):
            self.note("?:")
            t = self.ex(c, OR)
            if t[-1] in "?!":
                t += " "
            s = t + self.sp() + "?" + self.brk() + self.ex(a[0], RES + 1) + " :" + self.brk() + self.ex(b[0], RES + 1)
            return s if self.statement else "(" + s + ")"
        neg = self.p(0.4) and not (len(b) == 1 and b[0][0] == "if")
        kw = "if"
        if neg:
            self.note("unless")
            if b and r.random() < 0.5 and not self.assigns(("seq", a)) and not self.assigns(("seq", b)):
                a, b = b, a
                kw, cs = "unless", self.cond(c)
            else:
                kw, cs = "unless", self.cond(c, True)
        else:
            cs = self.cond(c)
        s = kw + (self.sp() + cs if cs[0] != "(" or not self.p(0.3) else cs) + self.then() + self.ended(self.body(a))
        while kw == "if" and len(b) == 1 and b[0][0] == "if" and self.p(1.2):
            self.note("elsif")
            m = b[0]
            s += "elsif" + self.sp() + self.cond(m[1]) + self.then() + self.ended(self.body(m[2]))
            b = m[3]
        if b:
            s += "else" + (r.choice((" ", ";", "\n\n")) if self.p(0.5) else "\n") + self.ended(self.body(b))
        return s + "end"

    def assigns(self, n):
        out = []
        ctl.assigned(n, out)
        return out

    statement = False

    def begin_body(self, n):
        body, rescues, els, ens = n[1:5]
        s = self.ended(self.body(body))
        for classes, var, rb in rescues:
            s += "rescue" + (" " + ("," + self.brk()).join(classes) if classes else "") + (self.sp() + "=>" + self.sp() + var if var else "")
            s += (self.then() if classes or var else "\n") + self.ended(self.body(rb))
        if els is not None:
            s += "else\n" + self.ended(self.body(els))
        if ens is not None:
            s += "ensure" + (self.r.choice((" ", ";")) if self.p(0.4) else "\n") + self.ended(self.body(ens))
        return s

    def method(self, name, params, body):
        ps = ("," + self.osp()).join(params)
        head = "def" + self.sp() + name
        if params:
            head += " " + ps + self.r.choice(("\n", ";", " # )\n")) if self.p(0.4) else "(%s)" % ps + self.r.choice(("\n", " ", "; ", " # x\n"))
        else:
            head += self.r.choice(("\n", "()\n", "; ", "() ", " # (\n"))
        b = self.begin_body(body) if body[0] == "begin" else self.ended(self.body(body[1]))
        return head + b + "end" + self.r.choice(("\n", ";", "\n\n"))
