"""C13: strings and symbols against a reference model of mutable character sequences, as histories of operations."""
from core import Case
from rb import RArr, RErr, Rng, RStr, Sym, ins, lit, slit

CHARS = "aabbcdexyzABZ019 _-.,!\n\t\"\\#{}$%'é日本ñ𝄞あÉ"
SPACE = " \t\n\v\f\r\0"
PIECES = ("a", "b", "ab", "aa", "aba", " ", "é", "日", "x", ",", "", "-", "zz", "abab", "日本")


def num(r, n):
    return r.choice((0, 1, -1, n, -n, n - 1, n + 1, -n - 1, n + 5, r.randint(-3, 6), r.randint(-30, 40)))


class World:
    def __init__(self, r):
        self.r = r
        self.vars = {}

    def text(self, lo=0, hi=8):
        r = self.r
        k = r.random()
        if k < 0.3:
            return "".join(r.choice("ab") for _ in range(r.randint(lo, hi)))
        if k < 0.45:
            return "".join(r.choice(("a", "b", "é", "日", "𝄞")) for _ in range(r.randint(lo, hi)))
        if k < 0.55:
            return "".join(r.choice("ab  ,") for _ in range(r.randint(lo, hi)))
        if k < 0.63:
            # around the length where the representation changes (31 bytes)
            n = r.choice((29, 30, 31, 32, 33, 62, 63))
            u = r.choice(("a", "é", "日", "ab"))
            return (u * n)[:r.choice((n, n // len(u.encode())))]
        return "".join(r.choice(CHARS) for _ in range(r.randint(lo, hi)))

    def piece(self, s=None):
        r = self.r
        if s and r.random() < 0.6:
            i = r.randint(0, len(s))
            return s[i:i + r.randint(0, 3)]
        return r.choice(PIECES) if r.random() < 0.7 else self.text(0, 4)

    def name(self):
        return self.r.choice(sorted(self.vars))

    def expr(self, d=1):
        """(source, thunk to a RStr or Sym..)"""
        if self.r.random() < 0.5:
            n = self.name()
            return n, self.vars[n]
        s = self.text()
        return slit(s), RStr(s)


def char_range(i, c, n):
    if i < 0:
        i += n
    if i < 0 or i > n or c < 0:
        return None
    return i, min(c, n - i)


def rng_range(b, e, x, n):
    p = char_range(b, 0, n)
    if p is None:
        return None
    b = p[0]
    if e < 0:
        e += n
    if not x:
        e += 1
    return char_range(b, max(0, e - b), n)


def charset(t):
    neg = len(t) > 1 and t[0] == "^"
    if neg:
        t = t[1:]
    out, i = [], 0
    while i < len(t):
        if t[i] == "\\" and i + 1 < len(t):
            out.append(t[i + 1])
            i += 2
        elif i + 2 < len(t) and t[i + 1] == "-":
            if t[i] > t[i + 2]:
                raise RErr("ArgumentError")
            out += [chr(c) for c in range(ord(t[i]), ord(t[i + 2]) + 1)]
            i += 3
        else:
            out.append(t[i])
            i += 1
    return out, neg


def split(s, sep, lim):
    if not s:
        return []
    if lim == 1:
        return [s]
    if sep is None or sep == " ":
        res, i, n = [], 0, len(s)
        while i < n and s[i] in SPACE:
            i += 1
        while True:
            j = i
            while j < n and s[j] not in SPACE:
                j += 1
            if j == n or (lim > 0 and len(res) == lim - 1):
                res.append(s[i:])
                break
            res.append(s[i:j])
            i = j
            while i < n and s[i] in SPACE:
                i += 1
    elif sep == "":
        if lim > 0:
            res = list(s[:lim - 1]) + [s[lim - 1:]]
        else:
            res = list(s) + [""]
    else:
        res = s.split(sep, lim - 1) if lim > 0 else s.split(sep)
    if lim == 0:
        while res and res[-1] == "":
            res.pop()
    return res


def succ(s):
    """ASCII; at most one run of alphanumerics."""
    if not s:
        return ""
    t = list(s)
    al = [i for i, c in enumerate(t) if c.isalnum()]
    if not al:
        t[-1] = chr(ord(t[-1]) + 1)
        return "".join(t)
    for i in reversed(al):
        c = t[i]
        if c == "9":
            t[i] = "0"
        elif c == "z":
            t[i] = "a"
        elif c == "Z":
            t[i] = "A"
        else:
            t[i] = chr(ord(c) + 1)
            return "".join(t)
    first = al[0]
    t.insert(first, {"0": "1", "a": "a", "A": "A"}[t[first]])
    return "".join(t)


def to_i(s):
    s = s.lstrip(" \t\n\v\f\r")
    neg = s[:1] == "-"
    if s[:1] in ("-", "+") and s:
        s = s[1:]
    d = ""
    i = 0
    while i < len(s):
        c = s[i]
        if "0" <= c <= "9":
            d += c
        elif c == "_" and d and i + 1 < len(s) and "0" <= s[i + 1] <= "9":
            pass
        else:
            break
        i += 1
    n = int(d or "0")
    return -n if neg else n


def fmt(r):
    """a format, its arguments and the result"""
    f, args, out = "", [], ""
    for _ in range(r.randint(1, 3)):
        t = r.choice(("x=", " ", "%%", "日", "|", ""))
        f += t
        out += "%" if t == "%%" else t
        k = r.choice("dddxXbfffssc")
        fl = r.choice(("", "", "0", "-", "+", " "))
        w = r.choice(("", "", "1", "4", "9", "12"))
        p = ""
        if k == "f" and r.random() < 0.6:
            p = "." + str(r.randint(0, 6))
        if k in "sc" and fl in ("0", "+", " "):
            fl = ""
        if k == "c":
            w = fl = ""
        if k in "dxXb":
            a = r.choice((0, 1, 7, 255, 12, 10 ** 6, 2 ** 31, 2 ** 62, 2 ** 63, 2 ** 70))
            if k == "d" and r.random() < 0.4:
                a = -a
            pk = "d" if k == "d" else k
            body = format(abs(a), pk)
            sign = "-" if a < 0 else "+" if fl == "+" else " " if fl == " " else ""
        elif k == "f":
            a = r.choice((0.0, 1.5, 2.25, 0.125, -3.75, 1e10, 12.345, 0.1, 99.999, 3, -2, 1234567.891))
            body = "%.*f" % (int(p[1:]) if p else 6, abs(a))
            sign = "-" if a < 0 else "+" if fl == "+" else " " if fl == " " else ""
        elif k == "s":
            a = r.choice(("ab", "", "日本", Sym("sym"), 12, 1.5, None, True))
            body = a if isinstance(a, str) else {None: "", True: "true"}.get(a, None) if a is None or a is True else ins(a)
            body = str(body)
            sign = ""
        else:
            a = r.choice((65, 97, 0x65e5, 0x1d11e))
            body, sign = chr(a), ""
        n = max(0, int(w or 0) - len(sign) - len(body))
        if fl == "-":
            o = sign + body + " " * n
        elif fl == "0":
            o = sign + "0" * n + body
        else:
            o = " " * n + sign + body
        f += "%" + fl + w + p + k
        args.append(a)
        out += o
    return f, args, out


def step(w):
    """-> tag, source, thunk"""
    r = w.r
    n = w.name()
    x = w.vars[n]
    ln = len(x.s)
    k = r.randint(0, 56)

    def st(f):
        return lambda: RStr(f(x.s))
    if k in (0, 1):
        i = num(r, ln)
        return "[i]", "%s[%d]" % (n, i), lambda: (lambda c: RStr(x.s[c[0]:c[0] + 1]) if c and c[1] else None)(char_range(i, 1, len(x.s)))
    if k in (2, 3):
        i, c = num(r, ln), num(r, ln)
        return "[i, n]", "%s[%d, %d]" % (n, i, c), lambda: (lambda q: RStr(x.s[q[0]:q[0] + q[1]]) if q else None)(char_range(i, c, len(x.s)))
    if k in (4, 5):
        b, e, ex = num(r, ln), num(r, ln), r.random() < 0.5
        return "[range]", "%s[%s]" % (n, lit(Rng(b, e, ex))[1:-1]), \
            lambda: (lambda q: RStr(x.s[q[0]:q[0] + q[1]]) if q else None)(rng_range(b, e, ex, len(x.s)))
    if k == 6:
        t = w.piece(x.s)
        return "[str]", "%s[%s]" % (n, slit(t)), lambda: RStr(t) if t in x.s else None
    if k in (7, 8, 9):
        i, t = num(r, ln), w.piece()
        three = k != 7
        c = num(r, ln) if three else 1
        src = "(%s[%d%s] = %s)" % (n, i, ", %d" % c if three else "", slit(t))

        def f():
            q = char_range(i, c, len(x.s))
            if q is None:
                raise RErr("IndexError")
            x.s = x.s[:q[0]] + t + x.s[q[0] + q[1]:]
            return RStr(t)
        return "[]=", src, f
    if k in (10, 11):
        kind = r.randint(0, 3)
        i, c, ex, t = num(r, ln), num(r, ln), r.random() < 0.5, w.piece(x.s)
        a = ["%d" % i, "%d, %d" % (i, c), lit(Rng(i, c, ex))[1:-1], slit(t)][kind]

        def f():
            s = x.s
            if kind == 0:
                q = char_range(i, 1, len(s))
                if q and not q[1]:
                    q = None
            elif kind == 1:
                q = char_range(i, c, len(s))
            elif kind == 2:
                q = rng_range(i, c, ex, len(s))
            else:
                q = (s.find(t), len(t)) if t in s else None
            if q is None:
                return None
            x.s = s[:q[0]] + s[q[0] + q[1]:]
            return RStr(s[q[0]:q[0] + q[1]])
        return "slice!", "%s.slice!(%s)" % (n, a), f
    if k in (12, 13):
        if r.random() < 0.3:
            c = r.choice((0x41, 0xe9, 0x65e5, 0x1d11e, 48))
            src, val = str(c), chr(c)
        else:
            e, o = w.expr()
            src, val = e, o
        m = r.choice(("<< ", ".concat "))

        def f():
            x.s += val if isinstance(val, str) else val.s
            return x
        return "<<", "(%s%s%s)" % (n, " << " if m == "<< " else ".concat ", src) if m == "<< " else "%s.concat(%s)" % (n, src), f
    if k == 14:
        e, o = w.expr()
        return "+", "(%s + %s)" % (n, e), lambda: RStr(x.s + o.s)
    if k == 15:
        c = r.choice((0, 1, 2, 3, 5, -1))

        def f():
            if c < 0:
                raise RErr("ArgumentError")
            return RStr(x.s * c)
        return "*", "(%s * %s)" % (n, lit(c)), f
    if k == 16:
        f_, a, o = fmt(r)
        src = "(%s %% [%s])" % (slit(f_), ", ".join(lit(v) for v in a))
        if len(a) == 1 and r.random() < 0.5:
            src = "(%s %% %s)" % (slit(f_), lit(a[0]))
        return "%", src, lambda: RStr(o)
    if k in (17, 18):
        e, o = w.expr()
        if r.random() < 0.15:
            e, o = lit(12), 12
        op = r.choice(("<=>", "==", "!=", "<", "<=", ">", ">=", ".eql?", "==="))

        def f():
            if not isinstance(o, RStr):
                if op in ("<", "<=", ">", ">="):
                    raise RErr("ArgumentError")
                return None if op == "<=>" else op == "!="
            a, b = x.s.encode(), o.s.encode()
            return {"<=>": (a > b) - (a < b), "==": a == b, "===": a == b, ".eql?": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        return op, ("%s.eql?(%s)" % (n, e)) if op == ".eql?" else "(%s %s %s)" % (n, op, e), f
    if k == 19:
        m, e = r.choice((("start_with?", "startswith"), ("end_with?", "endswith"), ("include?", "__contains__")))
        t = w.piece(x.s)
        return m, "%s.%s(%s)" % (n, m, slit(t)), lambda: getattr(x.s, e)(t)
    if k in (20, 21, 22):
        lim = r.choice((None, None, 0, 1, 2, 3, -1, 5))
        sep = r.choice((None, " ", "", ",", "a", "b", "ab", w.piece(x.s), " "))
        a = "" if sep is None and lim is None else "(%s%s)" % ("nil" if sep is None else slit(sep), "" if lim is None else ", %d" % lim)
        if r.random() < 0.15:
            t = w.piece()
            return "split block", "(t = []; q = %s.split%s { |e| t << e; %s << %s }; [t, q])" % (n, a or "(nil)", n, slit(t)), \
                lambda: split_block(x, sep, lim, t)
        return "split", "%s.split%s" % (n, a), lambda: RArr([RStr(p) for p in split(x.s, sep, lim or 0)])
    if k in (23, 24, 25):
        pat = w.piece(x.s)
        rep = w.piece()
        if "\\" in rep:
            rep = "r"
        m = r.choice(("sub", "gsub", "gsub", "gsub!"))
        blk = r.random() < 0.5
        cnt = 1 if m == "sub" else -1
        if blk:
            src = "%s.%s(%s) { |e| e + %s }" % (n, m, slit(pat), slit(rep))
            to = pat + rep
        else:
            src = "%s.%s(%s, %s)" % (n, m, slit(pat), slit(rep))
            to = rep

        def f():
            res = x.s.replace(pat, to, cnt)
            if m == "gsub!":
                if pat not in x.s:
                    return None
                x.s = res
                return x
            return RStr(res)
        return m + (" block" if blk else ""), src, f
    if k == 26:
        pat = w.piece(x.s)

        def occ():
            return len(x.s) + 1 if pat == "" else x.s.count(pat)
        if r.random() < 0.4:
            def fb():
                c = occ()
                return RArr([RArr([RStr(pat)] * c), x])
            return "scan block", "(t = []; q = %s.scan(%s) { |e| t << e }; [t, q])" % (n, slit(pat)), fb
        return "scan", "%s.scan(%s)" % (n, slit(pat)), lambda: RArr([RStr(pat)] * occ())
    if k in (27, 28):
        fr = r.choice(("a-c", "^a", "ab", "a-y", "abc", "^a-z", "é", "日本", "-a", "a-", "^", "0-9", w.piece(x.s) or "a"))
        to = r.choice(("b-d", "*", "xy", "b-z", "", "x-z", "é", "本日", "-", "A-C"))
        if "\\" in fr:
            fr = "a"

        def f():
            a, neg = charset(fr)
            b = charset(to)[0] if not to.startswith("^") else []
            out = ""
            for c in x.s:
                if (c in a) == neg:
                    out += c
                elif b:
                    i = len(b) if neg else a.index(c)
                    out += b[i] if i < len(b) else b[-1]
            return RStr(out)
        return "tr", "%s.tr(%s, %s)" % (n, slit(fr), slit(to)), f
    if k == 29:
        sets = [r.choice(("a-c", "^a", "ab", "aa", "é日", "^a-z", "a-", "-", "\\-a", w.piece(x.s) or "b")) for _ in range(r.choice((1, 1, 2)))]
        sets = [t if t != "^" and "\\" not in t[1:] else "a" for t in sets]

        def f():
            cs = [charset(t) for t in sets]
            return sum(all((c in a) != neg for a, neg in cs) for c in x.s)
        return "count", "%s.count(%s)" % (n, ", ".join(slit(t) for t in sets)), f
    if k == 30:
        m = r.choice(("size", "length"))
        return m, "%s.%s" % (n, m), lambda: len(x.s)
    if k == 31:
        return "empty?", "%s.empty?" % n, lambda: x.s == ""
    if k == 32:
        return "bytes", "%s.bytes" % n, lambda: RArr(list(x.s.encode()))
    if k == 33:
        return "chars", "%s.chars" % n, lambda: RArr([RStr(c) for c in x.s])
    if k == 34:
        return "codepoints", "%s.codepoints" % n, lambda: RArr([ord(c) for c in x.s])
    if k == 35:
        return "sum", "%s.sum" % n, lambda: sum(x.s.encode()) & 0xffff
    if k == 36:
        def f():
            if not x.s:
                raise RErr("ArgumentError")
            return ord(x.s[0])
        return "ord", "%s.ord" % n, f
    if k == 37:
        return "upcase", "%s.upcase" % n, st(str.upper)
    if k == 38:
        return "downcase", "%s.downcase" % n, st(str.lower)
    if k == 39:
        e, o = w.expr()

        def f():
            x.s = o.s
            return x
        return "replace", "%s.replace(%s)" % (n, e), f
    if k == 40:
        m = r.choice(("strip", "lstrip", "rstrip"))
        t = r.choice(("", " ", "\t\n", "  \n"))
        u = r.choice(("", " ", "\t\n", "  \n"))
        return m, "(%s + %s + %s).%s" % (slit(t), n, slit(u), m), lambda: RStr(getattr(t + x.s + u, m)(" \t\n\v\f\r"))
    if k == 41:
        t = r.choice(("", "\n"))

        def f():
            s = x.s.rstrip("\n") + t
            return RStr(s[:-1] if s.endswith("\n") else s)
        if "\n" in x.s:
            return "chomp", '"q\\n".chomp', lambda: RStr("q")
        return "chomp", "(%s.rstrip + %s).chomp" % (n, slit(t)) if False else "(%s + %s).chomp" % (n, slit(t)), f
    if k in (42, 43):
        t = r.choice(("12", " -12a", "+7", "1_000", "1__0", "-", "", "a1", "0x1f", "12345678901234567890123", "-9223372036854775808", "007", "_1", "1_", " 1 2",
                      str(r.randint(-2 ** 66, 2 ** 66))))
        return "to_i", "%s.to_i" % slit(t), lambda: to_i(t)
    if k in (44, 45):
        m = r.choice(("center", "ljust", "rjust"))
        wd = r.choice((0, 1, ln, ln + 1, ln + 2, ln + 3, ln + 7, 12, -1))
        pad = r.choice((None, None, "*", "ab", "日本語", ""))

        def f():
            if pad == "":
                raise RErr("ArgumentError")
            s, q = x.s, pad or " "
            t = max(0, wd - len(s))

            def g(c):
                return (q * (c + 1))[:c]
            if m == "center":
                return RStr(g(t // 2) + s + g(t - t // 2))
            return RStr(s + g(t) if m == "ljust" else g(t) + s)
        return m, "%s.%s(%d%s)" % (n, m, wd, "" if pad is None else ", " + slit(pad)), f
    if k == 46:
        t = r.choice(("", "a", "z", "Zz", "a9", "az", "zz", "9", "99", "a1z9", "Az9", "<<koala>>", "***", "1999", "ZZZ9999", "-9", "z!", "aZ9z",
                      "".join(r.choice("azAZ0918yY") for _ in range(r.randint(1, 6)))))
        return "succ", "%s.%s" % (slit(t), r.choice(("succ", "next"))), lambda: RStr(succ(t))
    if k == 47:
        return "lines", "%s.lines" % n, lambda: RArr([RStr(t) for t in lines(x.s)])
    if k == 48:
        t = w.piece()
        m = r.choice(("each_char", "each_byte", "each_char"))

        def f():
            it = [RStr(c) for c in x.s] if m == "each_char" else list(x.s.encode())
            for _ in it:
                x.s = x.s[:1] + t if len(x.s) > 40 else x.s + t
            return RArr([RArr(it), x])
        return m + " mutating", "(t = []; q = %s.%s { |e| t << e; if %s.size > 40 then %s.replace((%s[0] || \"\") + %s) else %s << %s end }; [t, q])" % (
            n, m, n, n, n, slit(t), n, slit(t)), f
    if k == 49:
        return "inspect", "%s.inspect.inspect" % n, lambda: RStr(ins(RStr(ins(x))))
    if k == 50:
        m = n2 = w.name()
        y = w.vars[n2]
        return "equal?", "%s.equal?(%s)" % (n, m), lambda: x is y
    if k == 51:
        n2 = w.name()
        how = r.choice((".dup", ".to_s.dup", " + \"\"", ""))

        def f():
            o = w.vars[n2]
            w.vars[n] = o if how == "" else RStr(o.s)
            return w.vars[n]
        return "assign", "(%s = %s%s)" % (n, n2, how), f
    if k == 52:
        t = w.text(1, 4)
        src = r.choice(("%s.to_sym.to_s", "%s.intern.id2name", "%s.to_sym.to_s.to_sym.to_s"))
        return "symbols", src % slit(t), lambda: RStr(t)
    if k == 53:
        a, b = w.piece() or "a", w.piece() or "b"
        if r.random() < 0.4:
            b = a
        u, y = a.encode(), b.encode()
        op = r.choice(("==", "<=>", "equal?", "eql?", "!=", "hash"))
        if op == "hash":
            return "symbol key", "{%s.to_sym => 1}.key?(%s.to_sym)" % (slit(a), slit(b)), lambda: a == b
        val = {"<=>": (u > y) - (u < y), "!=": a != b}.get(op, a == b)
        return "symbol " + op, ("(%s.to_sym %s %s.to_sym)" if op[0] in "=<!" else "%s.to_sym.%s(%s.to_sym)") % (slit(a), op, slit(b)), lambda: val
    if k == 54:
        # a string made from a symbol is not the symbol's own
        t = r.choice(("abc", "zed", "q_1"))
        return "symbol copy", '(y = :%s; s2 = y.to_s; s2 << "!"; s3 = y.to_s; [y.inspect, s2, s3])' % t, \
            lambda: RArr([RStr(":" + t), RStr(t + "!"), RStr(t)])
    if k == 55:
        # every evaluation of a literal makes a new string
        t = w.piece()
        c = r.randint(1, 4)
        return "literal", "(t = []; %d.times { |i| s2 = %s; s2 << \"+\"; t << s2 }; t)" % (c, slit(t)), lambda: RArr([RStr(t + "+")] * c)
    a, b, c = w.piece(), r.choice((1, -5, 2.5, None, Sym("q"), "é", True)), w.piece(x.s)
    return "interpolation", '"%s#{%s}%s#{%s}#{%s}"' % (slit(a)[1:-1], n, slit(c)[1:-1], lit(b), slit(a)), \
        lambda: RStr(a + x.s + c + ("" if b is None else b if isinstance(b, str) else ins(b)) + a)


def split_block(x, sep, lim, t):
    parts = [RStr(p) for p in split(x.s, sep, lim or 0)]
    for _ in parts:
        x.s += t
    return RArr([RArr(parts), x])


def lines(s):
    out = s.split("\n")
    res = [t + "\n" for t in out[:-1]]
    if out[-1]:
        res.append(out[-1])
    return res


def build(r):
    w = World(r)
    src, exp, tags = [], [], []
    for n in ("a", "b", "s"):
        t = w.text(0, 10)
        w.vars[n] = RStr(t)
        how = r.random()
        if how < 0.3:
            i = r.randint(0, len(t))
            src.append("%s = %s + %s" % (n, slit(t[:i]), slit(t[i:])))
        elif how < 0.5:
            src.append('%s = "" ; %s << %s' % (n, n, slit(t)))
        else:
            src.append("%s = %s" % (n, slit(t)))
    if r.random() < 0.3:
        src.append("b = a")
        w.vars["b"] = w.vars["a"]
    names = ("a", "b", "s")
    for _ in range(r.randint(4, 14)):
        tag, code, f = step(w)
        tags.append(tag)
        try:
            line = "=" + ins(f())
        except RErr as e:
            line = "!" + e.cls
        src.append("begin; v(%s); rescue StandardError => e; puts '!' + e.class.to_s; end" % code)
        exp.append(line)
        for n in names:
            if len(w.vars[n].s) > 120:
                w.vars[n].s = ""
                src.append("%s.replace(\"\")" % n)
        if r.random() < 0.4:
            src.append("v([a, b, s])")
            exp.append("=" + ins([w.vars[n] for n in names]))
    src.append("v([a, b, s])")
    exp.append("=" + ins([w.vars[n] for n in names]))
    return Case("\n".join(src), exp, tags, r.choice(("top", "def", "block", "lambda")))


def check(chk):
    chk.rule = ("seeded random histories of 4 to 14 operations over three (possibly shared) strings of ASCII and multibyte characters, "
                "with lengths around the change of representation; printed values and states are compared with a reference model")
    chk.assumptions = ["the reference model in harness/p_c13.py states Ruby's definitions",
                       "chomp on several newlines, \\r and strings that are not UTF-8 are outside the workload"]
    r = chk.rng("ops")
    chk.run([build(r) for _ in range(chk.scale(15000, 300000))], size=80)
