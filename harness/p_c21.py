"""C21: random file trees that load each other, and file and path functions, compared with a model."""
import concurrent.futures
import os
import re
import shutil
import tempfile

import build
from core import JOBS, Case, run_program
from rb import RStr, lit

SCOPES = {"Object": None, "M0": "Object", "M1": "M0", "M0::N": "Object", "Q": None}  # ancestors
HEAD = {"M0": "class M0", "M1": "class M1 < M0", "M0::N": "class M0::N", "Q": "module Q"}
NEST = {"Object": ["Object"], "M0": ["M0"], "M1": ["M1"], "M0::N": ["M0::N"], "Q": ["Q"]}
NAMES = ("a", "b", "c", "a.b", "lib.x", "d_e")
DIRS = ("", "d0", "d1", "d0/s")


class Err(Exception):
    def __init__(self, cls, msg):
        self.cls = cls
        self.msg = msg


class Discard(Exception):
    pass


class Tree:
    def __init__(self, r, root):
        self.r = r
        self.root = root
        self.files = {}  # relative path without .rb: statements, or None for a faulty file
        self.disk = {}  # what is on the disk now, in the model
        self.n = 0
        self.methods = []
        self.consts = ["K%d" % i for i in range(5)]
        self.lp = [r.choice(DIRS[1:]) for _ in range(r.choice((0, 1, 2)))]
        for _ in range(r.randint(3, 7)):
            d = r.choice(DIRS)
            self.files[(d + "/" if d else "") + r.choice(NAMES)] = 1
        self.order = sorted(self.files)
        self.missing = ["d1/none", "zork"]
        for f in self.order:
            self.files[f] = self.body(f, r.randint(2, 6)) if r.random() > 0.08 else None

    def num(self):
        self.n += 1
        return self.n

    def target(self):
        return self.r.choice(self.order) if self.r.random() > 0.06 else self.r.choice(self.missing)

    def name(self, at, t, kind):
        """(expression for the file name, what the model looks for): at is the file which has the statement, None for the main program."""
        r = self.r
        ext = ".rb" if kind == "load" or r.random() < 0.4 else ""
        d = os.path.dirname(at or "")
        if kind == "relative":
            n = os.path.relpath(t, d or ".")
            if r.random() < 0.2 and "/" not in n:
                n = "./" + n
            elif r.random() < 0.2 and d:
                n = "../" + os.path.basename(d) + "/" + n
            elif r.random() < 0.1:
                n = self.root + "/" + t
            return '"%s%s"' % (n, ext), t
        k = r.random()
        if k < 0.25:
            return '"%s/%s%s"' % (self.root, t, ext), t
        if k < 0.4 and t.startswith("d0/"):
            return '"%s/ln/%s%s"' % (self.root, t[3:], ext), t
        if k < 0.5:
            return '"%s/d1/../%s%s"' % (self.root, t, ext), t
        if k < 0.6:
            return '(__dir__ + "/%s%s")' % (os.path.relpath(t, d or "."), ext), t
        if k < 0.7:
            return 'File.join("%s", "%s%s")' % (self.root, t, ext), t
        if k < 0.8:
            return '"./%s%s"' % (t, ext), t
        if k < 0.9 and self.lp:
            b = os.path.basename(t)
            return '"%s%s"' % (b, ext), ("path", b)
        return '$root + "/%s%s"' % (t, ext), t

    def ref(self):
        return (self.r.choice(list(SCOPES)), self.r.choice(self.consts))

    def stmt(self, at, depth=0):
        r = self.r
        k = r.random()
        if k < 0.12:
            return ("say", self.num())
        if k < 0.42:
            kind = r.choice(("require", "require", "relative", "relative", "load"))
            e, t = self.name(at, self.target(), kind)
            return ("req", kind, e, t, r.random() < 0.7, r.choice((1, 1, 1, 2)), self.num())
        if k < 0.5:
            return ("raise", self.num(), r.choice((1, 1, 2, 9)))
        if k < 0.62:
            return ("const", self.ref(), self.num())
        if k < 0.74:
            e, t = self.name(at, self.target(), "require")
            return ("auto", self.ref(), e, t)
        if k < 0.88:
            return ("ref", r.choice(("path", "lex")), self.ref(), r.random() < 0.8, r.choice((1, 1, 2)))
        if k < 0.92:
            return ("dir",)
        if k < 0.96 and depth == 0:
            m = "m%d" % self.num()
            self.methods.append(m)
            return ("def", m, [self.stmt(at, 1) for _ in range(r.randint(1, 2))], at)
        if self.methods:
            return ("call", r.choice(self.methods))
        return ("say", self.num())

    def body(self, at, n):
        return [self.stmt(at) for _ in range(n)]

    def main(self):
        r = self.r
        out = []
        for _ in range(r.randint(5, 14)):
            if r.random() < 0.12:
                t = r.choice(self.order + self.missing)
                self.files.setdefault(t, 1)
                b = self.body(t, r.randint(1, 3)) if r.random() < 0.85 else None
                out.append(("write", t, b))
            else:
                s = self.stmt(None)
                if s[0] == "raise":
                    continue
                if s[0] == "req":
                    s = s[:4] + (True,) + s[5:]
                if s[0] == "ref":
                    s = s[:3] + (True,) + s[4:]
                out.append(s)
        for f in r.sample(self.order, min(3, len(self.order))):
            out.append(("req", "require", '"%s/%s"' % (self.root, f), f, True, 1, self.num()))
        return out


BROKEN = ("def (", "x = = 1", "class Foo\n  def a\n  end\n", "puts 'never'\n1 +* 2\n", "if true\n")


def guard(body, on):
    if not on:
        return body + "\n"
    return "begin\n%s\nrescue SyntaxError => e\n  puts 'SyntaxError'\nrescue LoadError => e\n  puts 'LoadError'\nrescue NameError => e\n  puts 'NameError'\nrescue => e\n  puts e.class.to_s + ' ' + e.message\nend\n" % body


def text(b):
    if b is None:
        return None
    out = ""
    for s in b:
        k = s[0]
        if k == "say":
            out += "puts 'say %d'\n" % s[1]
        elif k == "req":
            m = {"require": "require", "relative": "require_relative", "load": "load"}[s[1]]
            one = "puts 'r%d ' + (%s %s).inspect" % (s[6], m, s[2]) if s[6] % 3 else "x = %s(%s)\nputs \"r%d #{x}\"" % (m, s[2], s[6])
            if s[5] > 1:
                one = "%d.times do\n%s\nend" % (s[5], one)
            if s[1] == "load":
                one = "$l%d = ($l%d || 0) + 1\nif $l%d < 3\n%s\nend" % (s[6], s[6], s[6], one)
            out += guard(one, s[4])
        elif k == "raise":
            out += "$x%d = ($x%d || 0) + 1\nputs \"x%d #{$x%d}\"\nraise 'e%d' if $x%d <= %d\n" % (s[1], s[1], s[1], s[1], s[1], s[1], s[2])
        elif k == "const":
            (sc, c), n = s[1], s[2]
            one = "%s = [%d, ($k += 1)]" % (c, n)
            out += one + "\n" if sc == "Object" else "%s\n  %s\nend\n" % (HEAD[sc], one)
        elif k == "auto":
            sc, c = s[1]
            out += "Object.autoload(:%s, %s)\n" % (c, s[2]) if sc == "Object" else "%s\n  autoload :%s, %s\nend\n" % (HEAD[sc], c, s[2])
        elif k == "ref":
            sc, c = s[2]
            if s[1] == "path" or sc == "Object":
                one = "puts 'c %s::%s ' + %s::%s.inspect" % (sc, c, sc, c)
                if sc == "Object":
                    one = "puts 'c %s::%s ' + %s.inspect" % (sc, c, c)
            else:
                one = "%s\n  puts 'c %s::%s ' + %s.inspect\nend" % (HEAD[sc], sc, c, c)
            if s[4] > 1 and "\n" not in one:
                one = "%d.times { %s }" % (s[4], one)
            out += guard(one, s[3])
        elif k == "dir":
            out += "puts 'd ' + __dir__\n"
        elif k == "def":
            out += "def %s\n%send\n" % (s[1], text([x for x in s[2] if x[0] not in ("const", "auto") and not (x[0] == "ref" and x[1] == "lex")]))
        elif k == "call":
            out += guard(s[1] + "()", True)
        elif k == "write":
            out += "File.write(\"%s.rb\", %s)\n" % (s[3], lit(RStr(s[4])))
    return out


class World:
    """What Ruby does."""

    def __init__(self, tree):
        self.t = tree
        self.out = []
        self.loaded = set()
        self.disk = dict(tree.files)
        for m in tree.missing:
            self.disk.pop(m, None)
        self.count = {}
        self.k = 0
        self.consts = {s: {} for s in SCOPES}
        self.methods = {}
        self.autoloading = []
        self.depth = 0
        self.steps = 0

    def find(self, t, kind):
        if isinstance(t, tuple):
            for d in self.t.lp:
                f = (d + "/" if d else "") + t[1]
                if f in self.disk:
                    return f
            return t[1] if kind == "load" and t[1] in self.disk else None
        return t if t in self.disk else None

    def run(self, f):
        if self.depth > 25:
            raise Discard()
        b = self.disk[f]
        if b is None:
            raise Err("SyntaxError", "")
        self.depth += 1
        try:
            self.exec(b, f)
        finally:
            self.depth -= 1

    def req(self, t, kind):
        f = self.find(t, kind)
        if f is None:
            raise Err("LoadError", "")
        if kind == "load":
            self.run(f)
            return "true"
        if f in self.loaded:
            return "false"
        self.loaded.add(f)
        try:
            self.run(f)
        except Err:
            self.loaded.discard(f)
            raise
        return "true"

    def entry(self, s, c):
        v = self.consts[s].get(c)
        if isinstance(v, tuple):
            self.autoloading.append((s, c))
            try:
                self.req(v[1], "require")
            finally:
                self.autoloading.pop()
            v = self.consts[s].get(c)
            if isinstance(v, tuple):
                v = None
        return v

    def look(self, how, sc, c):
        s = sc
        while s:
            v = self.entry(s, c)
            if v is not None:
                return v
            s = SCOPES[s]
            if s == "Object" and how == "path" and sc != "Object":
                s = None
        if how == "lex" and sc == "Q":
            v = self.entry("Object", c)
            if v is not None:
                return v
        raise Err("NameError", "")

    def guarded(self, on, f):
        if not on:
            return f()
        try:
            f()
        except Err as e:
            self.out.append(e.cls if e.cls != "RuntimeError" else "RuntimeError " + e.msg)

    def bump(self, key):
        self.count[key] = self.count.get(key, 0) + 1
        return self.count[key]

    def exec(self, b, at):
        for s in b:
            self.steps += 1
            if self.steps > 600:
                raise Discard()
            k = s[0]
            if k == "say":
                self.out.append("say %d" % s[1])
            elif k == "req":
                def one(s=s):
                    if s[1] == "load" and self.bump(("l", s[6])) >= 3:
                        return
                    for _ in range(s[5]):
                        self.out.append("r%d %s" % (s[6], self.req(s[3], s[1])))
                self.guarded(s[4], one)
            elif k == "raise":
                n = self.bump(("x", s[1]))
                self.out.append("x%d %d" % (s[1], n))
                if n <= s[2]:
                    raise Err("RuntimeError", "e%d" % s[1])
            elif k == "const":
                self.k += 1
                self.consts[s[1][0]][s[1][1]] = "[%d, %d]" % (s[2], self.k)
            elif k == "auto":
                if s[1] in self.autoloading:
                    raise Discard()
                if not isinstance(self.consts[s[1][0]].get(s[1][1]), str):
                    self.consts[s[1][0]][s[1][1]] = ("auto", s[3])
            elif k == "ref":
                def one(s=s):
                    n = s[4] if s[1] == "path" or s[2][0] == "Object" else 1
                    for _ in range(n):
                        v = self.look(s[1], *s[2])
                        self.out.append("c %s::%s %s" % (s[2][0], s[2][1], v))
                self.guarded(s[3], one)
            elif k == "dir":
                self.out.append("d " + os.path.dirname(os.path.join(self.t.root, at or "main")))
            elif k == "def":
                self.methods[s[1]] = ([x for x in s[2] if x[0] not in ("const", "auto") and not (x[0] == "ref" and x[1] == "lex")], at)
            elif k == "call":
                def one(s=s):
                    if s[1] not in self.methods:
                        raise Err("NameError", "")
                    self.depth += 1
                    if self.depth > 25:
                        raise Discard()
                    m = self.methods[s[1]]
                    try:
                        self.exec(m[0], m[1])
                    finally:
                        self.depth -= 1
                self.guarded(True, one)
            elif k == "write":
                self.disk[s[1]] = s[2]


def loader(r, root):
    """(files {path: text}, main text, expected lines) or None"""
    t = Tree(r, root)
    first = dict(t.files)
    main = t.main()
    t.files = first
    main = [s if s[0] != "write" else s + (os.path.join(root, s[1]), text(s[2]) if s[2] is not None else r.choice(BROKEN)) for s in main]
    w = World(t)
    try:
        w.exec(main, None)
    except Discard:
        return None
    except Err:
        return None
    head = "$root = %s\n$k = 0\n$:.clear\n" % lit(RStr(root))
    for d in t.lp:
        head += "$: << %s\n" % lit(RStr(os.path.join(root, d)))
    head += "class M0\nend\nclass M1 < M0\nend\nclass M0::N\nend\nmodule Q\nend\n"
    return {f + ".rb": text(b) if b is not None else r.choice(BROKEN) for f, b in first.items()}, head + text(main), w.out


# ---------------------------------------------------------------- files and paths

def basename(s):
    t = s.rstrip("/")
    return t.rsplit("/", 1)[-1] if t else ("/" if s else "")


def dirname(s):
    t = s.rstrip("/")
    if not t:
        return "/" if s else "."
    if "/" not in t:
        return "."
    return t.rsplit("/", 1)[0].rstrip("/") or "/"


def extname(s):
    b = basename(s)
    if b in ("..", "/"):
        return ""
    i = b.rfind(".")
    return b[i:] if i > 0 else ""


def join(ps):
    out = None
    for p in ps:
        if out is None:
            out = p
        elif out.endswith("/"):
            out += p[1:] if p.startswith("/") else p
        else:
            out += p if p.startswith("/") else "/" + p
    return out or ""


def expand(cwd, home, p, base=None):
    if p == "~" or p.startswith("~/"):
        p = home + p[1:]
    if not p.startswith("/"):
        p = (cwd if base is None else expand(cwd, home, base)) + "/" + p
    out = []
    for c in p.split("/"):
        if c in ("", "."):
            continue
        if c == "..":
            out = out[:-1]
        else:
            out.append(c)
    return "/" + "/".join(out)


def globre(p):
    out, i = "", 0
    if p[:1] in ("*", "?"):
        out = r"(?!\.)"
    while i < len(p):
        c = p[i]
        if c == "*":
            out += ".*"
        elif c == "?":
            out += "."
        elif c == "[":
            j = p.index("]", i)
            out += p[i:j + 1]
            i = j
        elif c == "{":
            j = p.index("}", i)
            out += "(?:%s)" % "|".join(re.escape(x) for x in p[i + 1:j].split(","))
            i = j
        else:
            out += re.escape(c)
        i += 1
    return re.compile(out + r"\Z", re.S)


def globber(root, comps, rel):
    """Paths below root/rel that match comps."""
    if not comps:
        return {rel}
    out = set()
    try:
        names = os.listdir(os.path.join(root, rel))
    except (NotADirectoryError, FileNotFoundError):
        return out
    if comps[0] == "**" and len(comps) > 1:
        out |= globber(root, comps[1:], rel)
        for n in names:
            if not n.startswith(".") and os.path.isdir(os.path.join(root, rel, n)):
                out |= globber(root, comps, os.path.join(rel, n))
        return out
    m = globre(comps[0].replace("**", "*"))
    for n in names:
        if m.match(n):
            if len(comps) == 1:
                out.add(os.path.join(rel, n))
            elif os.path.isdir(os.path.join(root, rel, n)):
                out |= globber(root, comps[1:], os.path.join(rel, n))
    return out


COMP = ("a", "b.rb", ".h", "x.y.z", "\u00e9", "..", "a b", "c.", "A", "d-1", "~", "e+f", "(g)", "$h", "z^")
TEXTS = ("", "a", "a\n", "\n", "a\nb", "a\r\nb\r\n", "\u00e9\u3042", "\0x", "tab\t\"q\" \\ #{1}", "l\n" * 50, "\n\n\n")


def path(r, comps=COMP):
    p = "/".join(r.choice(comps) for _ in range(r.choice((1, 1, 2, 2, 3, 4))))
    if r.random() < 0.25:
        p = "/" + p
    if r.random() < 0.15:
        p += "/"
    return p


def files(r, root):
    """A tree on the disk, and questions about it."""
    dirs, fs = ["."], {}
    comps = [c for c in COMP if c not in ("..", "~")]
    for _ in range(r.randint(1, 5)):
        d = os.path.normpath(os.path.join(r.choice(dirs), r.choice(comps)))
        if d not in dirs:
            dirs.append(d)
    for _ in range(r.randint(1, 7)):
        f = os.path.normpath(os.path.join(r.choice(dirs), r.choice(comps)))
        if f not in dirs and f not in fs:
            fs[f] = (r.choice(TEXTS), r.random() < 0.3)
    for d in dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for f, (t, x) in fs.items():
        with open(os.path.join(root, f), "wb") as fh:
            fh.write(t.encode())
        os.chmod(os.path.join(root, f), 0o755 if x else 0o644)
    now = {f: t for f, (t, x) in fs.items()}
    exe = {f: x for f, (t, x) in fs.items()}
    src, want = "", []

    def ask(e, w):
        nonlocal src
        src += "begin; puts((%s).inspect); rescue => e; puts 'error'; end\n" % e
        want.append(w if isinstance(w, str) else w[0])

    def q(s):
        return lit(RStr(s))

    def ins(s):
        return ("=", s)

    from rb import ins_str
    for _ in range(r.randint(8, 25)):
        k = r.random()
        if k < 0.12:
            d, c = r.choice(dirs), r.choice(comps)
            f = os.path.normpath(os.path.join(d, c))
            if f in dirs:
                continue
            t = r.choice(TEXTS) * r.choice((1, 1, 3, 400))
            src += "begin; puts File.write(%s, %s); rescue => e; puts 'error'; end\n" % (q(f if r.random() < 0.5 else os.path.join(root, f)), q(t))
            want.append("%d" % len(t.encode()))
            now[f] = t
            exe.setdefault(f, False)
        elif k < 0.3:
            f = r.choice(sorted(now)) if now and r.random() < 0.85 else r.choice(("nope", "a/nope", dirs[-1]))
            e = q(f if r.random() < 0.5 else os.path.join(root, f))
            how = r.choice(("read", "read", "readlines", "binread"))
            if f in now and f not in dirs:
                t = now[f]
                if how == "readlines":
                    ask("File.readlines(%s).join(\"\\n\")" % e, ins_str(t))
                elif how == "binread":
                    ask("File.binread(%s).bytes == %s.bytes" % (e, q(t)), "true")
                else:
                    ask("File.read(%s)" % e, ins_str(t))
            else:
                ask("File.%s(%s)" % (how, e), "XX")
                src = src.replace("XX", "XX")
                want[-1] = "error"
        elif k < 0.5:
            f = r.choice(sorted(now) + dirs) if r.random() < 0.7 else path(r, comps)
            g = f
            if r.random() < 0.2:
                g = "./" + f
            elif r.random() < 0.3 and not f.startswith("/"):
                g = os.path.join(root, f)
            if f.startswith("/") and len(f) < 30:
                continue
            isf, isd = os.path.normpath(f) in now, os.path.normpath(f) in dirs
            if f.endswith("/") and isf:
                continue
            m = r.choice(("File.exist?", "File.file?", "File.directory?", "File.executable?", "Dir.exist?"))
            w = {"File.exist?": isf or isd, "File.file?": isf, "File.directory?": isd, "Dir.exist?": isd, "File.executable?": isd or isf and exe[os.path.normpath(f)]}[m]
            ask("%s(%s)" % (m, q(g)), "true" if w else "false")
        elif k < 0.65:
            p = path(r)
            m = r.choice(("basename", "dirname", "extname"))
            ask("File.%s(%s)" % (m, q(p)), ins_str({"basename": basename, "dirname": dirname, "extname": extname}[m](p)))
        elif k < 0.75:
            ps = [r.choice(("", "/", "a", "b/", "/c", "d/e", "x.rb", "\u00e9")) for _ in range(r.randint(1, 4))]
            if r.random() < 0.3 and len(ps) > 2:
                ask("File.join(%s, [%s])" % (q(ps[0]), ", ".join(q(x) for x in ps[1:])), ins_str(join(ps)))
            else:
                ask("File.join(%s)" % ", ".join(q(x) for x in ps), ins_str(join(ps)))
        elif k < 0.85:
            p = path(r, COMP + (".", ".."))
            b = path(r, ("a", "..", ".", "~", "b")) if r.random() < 0.5 else None
            if p.startswith("//") or b and b.startswith("//"):
                continue
            ask("File.expand_path(%s%s)" % (q(p), "" if b is None else ", " + q(b)), ins_str(expand(root, root + "/home", p, b)))
        elif k < 0.9:
            f = r.choice(sorted(now) + dirs)
            ask(r.choice(("File.realpath(%s)", "File.expand_path(%s)")) % q(f), ins_str(os.path.realpath(os.path.join(root, f))))
        elif k < 0.92:
            ask("Dir.pwd", ins_str(root))
            ask("Dir.home", ins_str(root + "/home"))
        else:
            def comp(last):
                return r.choice(("*", "*", "**" if not last else "*", "?", "*.rb", "a*", ".*", "[a-c]*", "*[.]*", "{a,b.rb}", "x.*", "*+*", "(g)", "$h", "e+f", "*.", "??*", "a", "A", "a b", "d-?", "{a,\u00e9}*", "z^"))
            n = r.choice((1, 1, 2, 2, 3))
            g = [comp(i == n - 1) for i in range(n)]
            if any(x == "**" and y == "**" for x, y in zip(g, g[1:])):
                continue
            # what was written by the program so far is not on the disk yet: make it so
            for f, t in now.items():
                if not os.path.exists(os.path.join(root, f)):
                    g = None
            if g is None:
                continue
            pat = "/".join(g)
            res = globber(root, g, "")
            res -= {"."}
            absolute = r.random() < 0.3
            if absolute:
                pat = root + "/" + pat
                res = {os.path.join(root, x) for x in res}
            res = {x for x in res if os.path.basename(x) not in (".", "..")}
            ask("%s(%s).sort" % (r.choice(("Dir.glob", "Dir[]" if False else "Dir.glob")), q(pat)), "[%s]" % ", ".join(ins_str(x) for x in sorted(res, key=lambda x: x.encode())))
    return src, want


def check(chk):
    chk.rule = ("file trees whose files require, require_relative, load and autoload each other (cycles, several names of one file, load path, links, files that raise, are faulty or are written by the program itself), and "
                "questions about files, paths and directories; every program in a directory of its own; distinct by source text")
    chk.assumptions = ["LoadError is a StandardError here; readlines takes the newlines off (pinned by the tests)"]
    binary = build.build("mon")
    r = chk.rng("c21")
    top = tempfile.mkdtemp(prefix="c21")
    jobs = []
    for i in range(chk.scale(1200, 30000)):
        jobs.append(("load", r.randrange(1 << 60), i))
    for i in range(chk.scale(700, 15000)):
        jobs.append(("file", r.randrange(1 << 60), i))

    def one(job):
        import random
        kind, seed, i = job
        rr = random.Random(seed)
        root = os.path.realpath(os.path.join(top, "%s%d" % (kind[0], i)))
        os.makedirs(root)
        note = ""
        try:
            if kind == "load":
                got = loader(rr, root)
                if got is None:
                    return None
                fs, src, want = got
                for d in DIRS[1:]:
                    os.makedirs(os.path.join(root, d), exist_ok=True)
                os.symlink(os.path.join(root, "d0"), os.path.join(root, "ln"))
                for f, t in fs.items():
                    with open(os.path.join(root, f), "w") as fh:
                        fh.write(t)
                    note += "# --- %s\n%s" % (f, "".join("#   %s\n" % x for x in t.split("\n")))
            else:
                src, want = files(rr, root)
            res = run_program(binary, src, rr.choice(("", "cache", "gc=rand:%d:20,poison" % (seed & 0xffff))), cwd=root, where=root if kind == "load" else top, extra_env={"HOME": root + "/home"})
            return kind, src, want, res, note
        finally:
            shutil.rmtree(root, ignore_errors=True)

    try:
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for x in ex.map(one, jobs):
                if x is None:
                    continue
                kind, src, want, res, note = x
                chk.count(Case(src + note, want, (kind,)))
                chk.lines += len(want)
                if res.wall_timeout or res.cpu_timeout or res.oom:
                    chk.inconclusive += 1
                    continue
                lines = res.out.split("\n")[:-1]
                bad = None
                for j, (a, b) in enumerate(zip(want, lines)):
                    if a != b:
                        bad = "line %d: expected %r, printed %r" % (j, a[:200], b[:200])
                        break
                if bad is None and len(want) != len(lines):
                    bad = "%d lines expected, %d printed: %r" % (len(want), len(lines), (want + lines)[min(len(want), len(lines))][:200])
                if bad is None and res.crashed():
                    bad = res.how()
                if bad and len(chk.violations) < 25:
                    chk.violation(bad + "\n" + res.err[-1500:], src + note)
    finally:
        shutil.rmtree(top, ignore_errors=True)
