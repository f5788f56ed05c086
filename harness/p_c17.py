"""C17: regular expression operations against the matches of the engine, asked directly (harness/reoracle), as histories.

What the engine itself (the crates fancy-regex and regex) finds is compared with Python's `re`; where the two differ the
operations are still judged by the engine's matches, and the disagreements are counted.
"""
import re
import subprocess
import threading
import warnings

import build as build_

from core import Case
from rb import RArr, RErr, RStr, ins, slit

warnings.simplefilter("ignore", FutureWarning)
ALPHA = ["a", "b", "c", "é", "日", "1", " ", "-"]


class Match:
    """The part of the interface of re.Match that the model uses."""
    __slots__ = ("string", "spans", "re")

    def __init__(self, pat, string, spans):
        self.re, self.string, self.spans = pat, string, spans

    def start(self):
        return self.spans[0][0]

    def end(self):
        return self.spans[0][1]

    def group(self, n):
        p = self.spans[n]
        return None if p is None else self.string[p[0]:p[1]]

    def groups(self):
        return [self.group(i) for i in range(1, len(self.spans))]


class Engine:
    def __init__(self):
        self.p = subprocess.Popen([build_.reoracle()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
        self.lock = threading.Lock()
        self.cache = {}
        self.asked = self.differ = self.compared = 0

    def ask(self, pattern, text):
        key = (pattern, text)
        if key not in self.cache:
            self.p.stdin.write("%s %s\n" % (pattern.encode().hex(), text.encode().hex()))
            self.p.stdin.flush()
            self.cache[key] = self.p.stdout.readline().strip()
            self.asked += 1
        return self.cache[key]

    def close(self):
        self.p.stdin.close()
        self.p.wait()


class Refused(Exception):
    pass


class Pat:
    def __init__(self, engine, text, flags="m"):
        self.engine = engine
        self.pattern = "(?%s)%s" % (flags, text)
        if engine.ask(self.pattern, "") == "E":
            raise Refused(text)
        try:
            self.py = re.compile(text, re.M | (re.I if "i" in flags else 0) | (re.S if "s" in flags else 0))
        except (re.error, OverflowError):
            self.py = None

    def search(self, s, pos=0):
        t = self.engine.ask(self.pattern, s).split("|")
        if "!" in t:
            raise Refused(s)
        t = t[pos]
        m = None
        if t != "-":
            m = Match(self, s, [None if q == "-" else tuple(map(int, q.split(","))) for q in t.split(";")])
        if self.py is not None:
            q = self.py.search(s, pos)
            self.engine.compared += 1
            if (q is None) != (m is None) or (q and m and q.span() != m.spans[0]):
                self.engine.differ += 1
        return m


class Gen:
    """A random pattern."""

    def __init__(self, r):
        self.r = r
        self.groups = 0

    def atom(self, d):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.choice(ALPHA[:6] if k < 0.45 else ALPHA)
        if k < 0.58:
            return "."
        if k < 0.68:
            return r.choice(("[ab]", "[^a]", "[a-c]", "[日b]", "[^é1]", "[\\d-]", "[a-cé]", "[[:alpha:]]", "[^\\n]"))
        if k < 0.74:
            return r.choice(("\\d", "\\w", "\\s", "\\S", "\\D", "\\h", "\\p{Han}"))
        if k < 0.78:
            return r.choice(("\\A", "\\b", "\\B", "^", "$", "\\z", "(?=%s)" % r.choice("abc"), "(?!%s)" % r.choice("abc"), "(?<=%s)" % r.choice("ab"), "(?<!a)"))
        if k < 0.8 and self.groups:
            return "\\%d" % r.randint(1, self.groups)
        if d <= 0:
            return r.choice("abc")
        if k < 0.92 and self.groups < 3:
            self.groups += 1
            return "(%s)" % self.alt(d - 1)
        return "(?:%s)" % self.alt(d - 1)

    def piece(self, d):
        t = self.atom(d)
        if self.r.random() < 0.35:
            return t + self.r.choice(("*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{0,2}?"))
        return t

    def seq(self, d):
        return "".join(self.piece(d) for _ in range(self.r.choice((1, 1, 2, 2, 3))))

    def alt(self, d):
        t = self.seq(d)
        return t + "|" + self.seq(d) if self.r.random() < 0.25 else t


class State:
    """The match variables."""

    def __init__(self):
        self.m = None

    def dump(self):
        m = self.m
        if m is None:
            return RArr([None] * 6)
        g = [None if x is None else RStr(x) for x in m.groups()]
        g += [None] * (3 - len(g))
        return RArr([RStr(m.group(0)), RStr(m.string[m.end():])] + g[:3] + [RStr(m.group(0))])


DUMP = "[$&, $', $1, $2, $3, Regexp.last_match(0)]"


def expand(m, rep):
    out, i = "", 0
    while i < len(rep):
        if rep[i] == "\\" and i + 1 < len(rep):
            c = rep[i + 1]
            if c.isdigit():
                out += (m.group(int(c)) or "") if int(c) <= len(m.groups()) else ""
            else:
                out += c if c == "\\" else "\\" + c
            i += 2
        else:
            out += rep[i]
            i += 1
    return out


def find_all(pat, s):
    """Leftmost matches that do not overlap; an empty match may follow a match directly."""
    out, i = [], 0
    while i <= len(s):
        m = pat.search(s, i)
        if not m:
            break
        out.append(m)
        i = m.end() + (1 if m.end() == m.start() else 0)
    return out


def split(pat, s, lim):
    if not s:
        return []
    if lim == 1:
        return [s]
    beg = start = 0
    skipped = False
    res, n = [], 1
    while start <= len(s):
        m = pat.search(s, start)
        if not m:
            break
        if m.start() == m.end() == start:
            if not skipped:
                start += 1
                skipped = True
                continue
            res.append(s[beg:start])
            beg = start
        else:
            res.append(s[beg:m.start()])
            beg = start = m.end()
        skipped = False
        res += [g for g in m.groups() if g is not None]
        n += 1
        if n == lim:
            break
    res.append(s[beg:])
    if lim == 0:
        while res and res[-1] == "":
            res.pop()
    return res


def st(s):
    return None if s is None else RStr(s)


def build(r, engine):
    state = State()
    src, exp, tags = [], [], []

    def newpat():
        while True:
            g = Gen(r)
            t = g.alt(2)
            try:
                return t, Pat(engine, t), g.groups
            except Refused:
                continue
    pats = [newpat() for _ in range(2)]

    def text():
        # half of the texts are pieces of the pattern's own alphabet
        k = r.random()
        s = "".join(r.choice(ALPHA[:3] if k < 0.5 else ALPHA) for _ in range(r.randint(0, 9)))
        if r.random() < 0.15 and s:
            i = r.randint(0, len(s) - 1)
            s = s[:i] + "\n" + s[i:]
        return s
    src.append('$g = "z"')
    for i, (t, _, _) in enumerate(pats):
        src.append("r%d = %s" % (i, "Regexp.new(%s)" % slit(t) if r.random() < 0.2 else "/%s/" % t))
    for _ in range(r.randint(3, 9)):
        i = r.randint(0, 1)
        t, pat, ng = pats[i]
        s = text()
        if r.random() < 0.15:
            rs = "/%s/" % t if r.random() < 0.5 else "/#{%s}/" % slit(t)
        else:
            rs = "r%d" % i
        x = slit(s)
        k = r.randint(0, 20)
        code, val, tag = None, None, None
        keep = True     # are the match variables specified after the operation
        m = pat.search(s)
        if k in (0, 1):
            code = r.choice(("(%s =~ %s)" % (x, rs), "(%s =~ %s)" % (rs, x)))
            val, tag = (m.start() if m else None), "=~"
            state.m = m
        elif k == 2:
            code, val, tag = "(%s !~ %s)" % (x, rs), m is None, "!~"
            state.m = m
        elif k == 3:
            code, val, tag = "(%s === %s)" % (rs, x), m is not None, "==="
            state.m = m
        elif k in (4, 5):
            p = r.randint(0, len(s) + 1)
            arg = ", %d" % p if r.random() < 0.6 else ""
            if not arg:
                p = 0
            m = pat.search(s, p) if p <= len(s) else None
            if r.random() < 0.3:
                code = "%s.match(%s%s) { |q| [q, $1] }" % (x, rs, arg)
                val = RArr([RStr(m.group(0)), st(m.group(1)) if ng else None]) if m else None
            else:
                code = "%s.match(%s%s)" % (x, rs, arg)
                val = RArr([st(m.group(0))] + [st(g) for g in m.groups()]) if m else None
            tag = "match"
            state.m = m
        elif k in (6, 7):
            n = r.randint(-4, 4)
            if r.random() < 0.5:
                code, n = "%s[%s]" % (x, rs), 0
            else:
                code = "%s[%s, %d]" % (x, rs, n)
            q = n if n >= 0 else ng + 1 + n
            val = st(m.group(q)) if m and 0 <= q <= ng else None
            tag = "[]"
            state.m = m
        elif k == 8:
            code = "(z = %s; [z.slice!(%s), z])" % (x, rs)
            val = RArr([st(m.group(0)), RStr(s[:m.start()] + s[m.end():])]) if m else RArr([None, RStr(s)])
            tag = "slice!"
            state.m = m
        elif k in (9, 10, 11):
            rep = r.choice(("", "-", "<\\0>", "\\1", "[\\2\\1]", "日", "\\\\", "\\\\1", "x\\3y", "\\a"))
            name = r.choice(("sub", "gsub", "gsub", "gsub!"))
            ms = find_all(pat, s) if name != "sub" else ([m] if m else [])
            out, c = "", 0
            for q in ms:
                out += s[c:q.start()] + expand(q, rep)
                c = q.end()
            out += s[c:]
            if name == "gsub!":
                code = "(z = %s; [z.gsub!(%s, %s), z])" % (x, rs, slit(rep))
                val = RArr([RStr(out) if ms else None, RStr(out)])
            else:
                code, val = "%s.%s(%s, %s)" % (x, name, rs, slit(rep)), RStr(out)
            tag = name
            state.m = ms[-1] if ms else None
        elif k in (12, 13):
            name = r.choice(("sub", "gsub", "gsub", "gsub!"))
            ms = find_all(pat, s) if name != "sub" else ([m] if m else [])
            body = r.choice(("q + q", '"<#{$1}>"', '"#{$&}|#{$2}"', "q.size", '(t << q; $1.to_s + "é")', "nil", '(z << "more"; "!")'))
            out, c, log = "", 0, []
            for q in ms:
                g0, g = q.group(0), [v or "" for v in q.groups()] + ["", "", ""]
                res = {"q + q": g0 + g0, '"<#{$1}>"': "<%s>" % g[0], '"#{$&}|#{$2}"': g0 + "|" + g[1], "q.size": str(len(g0)),
                       "nil": "", '(z << "more"; "!")': "!"}.get(body)
                if res is None:
                    res = g[0] + "é"
                    log.append(RStr(g0))
                out += s[c:q.start()] + res
                c = q.end()
            out += s[c:]
            after = s + ("more" * len(ms) if "more" in body else "")
            if name == "gsub!":
                after = out
                first = RStr(out) if ms else None
            else:
                first = RStr(out)
            code = "(t = []; z = %s; [z.%s(%s) { |q| %s }, z, t])" % (x, name, rs, body)
            val = RArr([first, RStr(after), RArr(log)])
            tag = name + " block"
            state.m = ms[-1] if ms else None
        elif k in (14, 15):
            ms = find_all(pat, s)
            items = [RArr([st(g) for g in q.groups()]) if ng else RStr(q.group(0)) for q in ms]
            if r.random() < 0.3:
                code = "(t = []; z = %s; z.scan(%s) { |*q| t << q }; t)" % (x, rs)
                val = RArr([RArr([st(g) for g in q.groups()]) if ng else RArr([RStr(q.group(0))]) for q in ms])
                keep = False
                tag = "scan block"
            else:
                code, val, tag = "%s.scan(%s)" % (x, rs), RArr(items), "scan"
            state.m = ms[-1] if ms else None
        elif k in (16, 17):
            lim = r.choice((None, None, 0, 1, 2, 3, -1))
            code = "%s.split(%s%s)" % (x, rs, "" if lim is None else ", %d" % lim)
            val, tag = RArr([RStr(q) for q in split(pat, s, lim or 0)]), "split"
            keep = False
        elif k == 18:
            lit = "".join(r.choice("a.*+?()[]{}|^$\\b-") for _ in range(r.randint(1, 5)))
            s2 = "".join(r.choice(("ab", "zz", lit, ".")) for _ in range(3))
            code = "(%s =~ Regexp.new(Regexp.%s(%s)))" % (slit(s2), r.choice(("escape", "quote")), slit(lit))
            j = s2.find(lit)
            val, tag = (None if j < 0 else j), "escape"
            state.m = None if j < 0 else Match(None, s2, [(j, j + len(lit))])
        elif k == 19:
            other, pat2, _ = pats[1 - i]
            m2 = pat2.search(s)
            code = "(case %s when %s then [1, $1] when r%d then [2, $1] else [3, $1] end)" % (x, rs, 1 - i)
            state.m = m or m2
            mm = state.m
            val = RArr([1 if m else 2 if m2 else 3, st(mm.group(1)) if mm and len(mm.spans) > 1 else None])
            tag = "case"
        else:
            flag = r.choice(("i", "m"))
            lit = r.choice(("aB", "a.c", "b.", "B+", "[a-c]"))
            s2 = r.choice(("xABc", "a\nc", "AbbB", "b\n", "", "é")) + s
            pp = Pat(engine, lit, "mi" if flag == "i" else "ms")
            state.m = pp.search(s2)
            code = "(%s =~ /%s/%s)" % (slit(s2), lit, flag)
            val, tag = (state.m.start() if state.m else None), "flag " + flag
        tags.append(tag)
        src.append("begin; v(%s); rescue StandardError => e; puts '!' + e.class.to_s; end" % code)
        exp.append("=" + ins(val))
        if keep and r.random() < 0.7:
            src.append("v(%s)" % DUMP)
            exp.append("=" + ins(state.dump()))
        elif not keep:
            src.append('("ab" =~ /a(b)/)')
            state.m = Match(None, "ab", [(0, 2), (1, 2)])
    return Case("\n".join(src), exp, tags, r.choice(("top", "def", "block")))


def history(r, engine):
    while True:
        try:
            return build(r, engine)
        except Refused:     # the engine gives up on some match
            pass


# Matches that the engine gets wrong: (pattern, text, position of the leftmost match)
ENGINE = (("leftmost-suffix", ".aa|a", "ccccaa", 3), ("leftmost-group", "(?:(acc))|c", "aaccbac", 1), ("lazy-suffix", ".*?cc|c", "abccb", 0))


def check(chk):
    chk.rule = ("seeded random patterns (literals, classes, groups, alternation, greedy and lazy quantifiers, back references, anchors, look-around) on short "
                "texts over a small alphabet with multibyte characters; histories of 3 to 9 operations, results and match variables compared with what "
                "the matches of the engine imply")
    chk.assumptions = ["the crates fancy-regex and regex are asked directly for the matches; the model in harness/p_c17.py builds every operation on them",
                       "\\Z and the match variables after split are outside the workload"]
    r = chk.rng("ops")
    engine = Engine()
    cases = [history(r, engine) for _ in range(chk.scale(12000, 200000))]
    chk.extra["engine"] = {"pattern and text pairs": engine.asked, "matches compared with Python's re": engine.compared, "differ": engine.differ}
    engine.close()
    for key, p, s, pos in ENGINE:
        cases.append(Case("v(%s =~ /%s/)" % (slit(s), p), ["=%d" % pos], ("engine",), key=key))
    chk.run(cases, size=80)
