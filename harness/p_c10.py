"""C10: every exit from a piece of code (value, exception, return, break, next) does what the nesting of the text says."""
import ctl
from core import Case

FEATS = ctl.ALL - {"bare_raise"}

KNOWN = [
    ("bare-raise", "begin\n  begin\n    raise E1, 'a'\n  rescue\n    raise\n  end\nrescue => e\n  v(e.class)\nend\n", ["=E1"]),
    ("break-proc", "def kf\n  pr = proc { break 5 }\n  pr.call\n  :no\nend\nbegin\n  v(kf)\nrescue LocalJumpError => e\n  v(1)\nend\n", ["=1"]),
]

def tower(r, i):
    """An exit that leaves a random tower of frames, each of which notes how it was left."""
    n = r.randint(1, 7)
    t = "_t%d" % i
    kind = r.choice(("return", "break", "raise", "next", "raise", "return"))
    src, exp = [], []
    # layers from the outside in; each wraps the next as a block
    layers = [r.choice(("each", "pass", "ens", "begin", "while", "map", "rescue", "loop", "send", "times", "eachhash", "fwd", "proc", "case")) for _ in range(n)]
    opened = []
    val = r.randint(10, 99)
    for k, l in enumerate(layers):
        opened.append((l, k))
    body = {"return": "return %d" % val, "break": "break %d" % val, "next": "next %d" % val, "raise": "raise E2, 'm%d'" % val}[kind]
    # the target of break and next is the innermost block or loop
    blocks = [k for k, l in enumerate(layers) if l not in ("begin", "rescue", "case")]
    if kind in ("break", "next") and not blocks:
        kind, body = "return", "return %d" % val
    if kind in ("break", "next") and layers[blocks[-1]] == "loop" and kind == "next":
        kind, body = "break", "break %d" % val
    if kind == "break" and layers[blocks[-1]] == "proc":
        kind, body = "next", "next %d" % val
    text = "puts 'in'\n%s\nputs 'never'\n" % body
    out = ["in"]
    # state: how control leaves the text built so far: kind still pending, or a value
    pend, res = kind, None
    for l, k in reversed(opened):
        if l == "begin":
            text = "begin\n%sensure\nputs 'e%d'\nend\n" % (text, k)
            out.append("e%d" % k)
        elif l == "case":
            text = "case 1\nwhen 1\n%send\n" % text
        elif l == "rescue":
            cl = r.choice(("E1", "E3", "E2", "StandardError", "X1"))
            text = "begin\n%srescue %s => e\nputs 'r%d ' + e.message\n%d\nend\n" % (text, cl, k, k)
            if pend == "raise" and cl in ctl.HIER["E2"]:
                out.append("r%d m%d" % (k, val))
                pend, res = None, k
        else:
            again = pend == "next" or pend is None
            inner = list(out)
            x = None
            v = val if pend == "next" else res
            done = None
            if l == "each":
                text = "[7].each do |q|\n%send\n" % text
                done = [7]
            elif l == "eachhash":
                text = "{ 1 => 2 }.each do |q, w|\n%send\n1\n" % text
                done = 1
            elif l == "times":
                text = "1.times do\n%send\n" % text
                done = 1
            elif l == "map":
                text = "[8].map do |q|\n%send\n" % text
                done = [v]
            elif l in ("pass", "fwd"):
                text = "%s do |q|\n%send\n" % (l, text)
                done = v
                if l == "fwd" and again:
                    out.append("fwd")
            elif l == "ens":
                text = "ens do |q|\n%send\n" % text
                out.insert(0, "ens-in")
                if again:
                    out.append("ens-mid")
                out.append("ens-out")
                done = v
            elif l == "send":
                text = "send(:pass) do\n%send\n" % text
                done = v
            elif l == "proc":
                text = "pr = proc do\n%send\npr.call\n" % text
                done = v
            elif l == "loop":
                text = "loop do\n%sbreak %d\nend\n" % (text, k)
                done = k
            elif l == "while":
                text = "while true\n%sbreak %d\nend\n" % (text, k)
                done = k
                if pend == "next":
                    return None      # would loop forever
            if pend == "break":
                pend, res = None, (1 if l == "eachhash" else val)
            elif again:
                pend, res = None, done
    last = r.random() < 0.5
    text = "def g%s\n%s%send\n" % (t, text, "puts 'after'\n%d\n" % n if last else "")
    text += "begin\n  v([0, g%s, 1])\nrescue Exception => e\n  puts '!' + e.class.to_s\nend\n" % t
    if pend is None:
        if last:
            out.append("after")
            res = n
        out.append("=[0, %s, 1]" % ctl.ins(res))
    elif pend == "return":
        out.append("=[0, %d, 1]" % val)
    else:
        out.append("!E2")
    return Case(text, out, ("tower " + kind,), "raw")


LEAK = r"""
class LkE < StandardError
end
class LkF < LkE
end
class LkO
  def initialize
    @a = {}
  end
  def [](*i)
    @a[i]
  end
  def []=(*i, x)
    @a[i] = x
  end
  def a
    nil
  end
  def a=(x)
    @x = x
  end
  def method_missing(m, *r)
    r[0]
  end
end
def lk_id(a, b = 2, *c)
  a
end
def lk_y
  yield(1)
end
def lk_pass(&b)
  lk_y(&b)
end
def lk_ret
  [1].each { |q| return 5 }
  6
end
def lk_ret2
  begin
    lk_y { |q| [1].each { |z| return 5 } }
  ensure
    1
  end
end
def lk_ret3
  while true
    begin
      return 3
    ensure
      2
    end
  end
end
def lk_raise
  raise LkF, "x"
end
def lk_deep
  [1, lk_id(2, lk_raise)]
end
def lk_sp
  [1, 2]
end
"""
LEAKS = """[1].each { break 5 }
[1].each { |q| next 5 }
lk_ret
lk_ret2
lk_ret3
while true do break 5 end
while true do break end
(raise "q" rescue 2)
(lk_raise rescue 2)
(lk_deep rescue 2)
lk_id(1, (lk_deep rescue 2))
[1, (lk_raise rescue 2), 3]
{1 => (lk_raise rescue 2), 2 => [1].each { break 3 }}
"a#{(lk_raise rescue 2)}b#{lk_y { break 2 }}"
lambda { return 5 }.call
lambda { |q| next q }.call(1)
proc { next 1 }.call
->(a, b = a) { return [a, b] }.call(1)
lk_y { break 5 }
lk_y { next 5 }
lk_pass { break 5 }
lk_pass { |q| next q }
lk_id(1, lk_y { break 3 })
lk_id(*lk_sp)
lk_id(*lk_sp, *[3])
lk_id(1, *(lk_raise rescue [2]))
[1, *lk_sp, lk_y { break 2 }]
o[0] ||= 1
o[*lk_sp] ||= 1
o[*lk_sp, 1] += 1 if o[1, 2, 1]
o[1, 2] = 3
o[*lk_sp] = 1
o.a ||= 1
o.a &&= 1
(o.a = 5)
o&.a
nil&.a
nil&.a(1)
o.foo(1, 2)
$lk ||= 1
$lk &&= 2
o[3] = [1].each { break 4 }
a, b = 1, 2
a, b = lk_sp
a, o[5] = *lk_sp, 3
a, b = b, a
for q in [1, 2] do break end
for q in [1, 2] do next end
for q in 1..2 do lk_id(q) end
3.times { |z| next if z == 1; break if z == 2 }
loop { break }
loop { break 3 }
1.upto(3) { |z| break z }
case 1 when 2 then 3 else 4 end
case "x" when "y", "x" then 3 end
case 7 when Integer then lk_id(1) end
case when nil then 1 end
(1 if nil)
(1 unless nil)
(lk_id(1) if lk_id(2))
!(nil || 5)
(nil or lk_id(1))
(1 and nil)
1 < 2 && 2 < 3
1 if 1 == 2
-lk_id(1)
(1..3).each { |z| break }
[3, 1].sort { |x, y| x <=> y }
[1, 2].map { |x| break x }
[1, 2].inject(0) { |x, y| break y }
[[1, 2]].each { |x, y| break y }
{1 => 2}.each { |x, y| break y }
send(:lk_id, 1)
send(:lk_y) { break 1 }
[1, 2].map(&:to_s)
defined?(zz)
defined?(lk_id)
yy = 1 if nil
"#{1}" + "#{lk_id(2)}"
lk_id((1; 2))
(1; 2; 3)
lk_id(begin 1; 2 end)
[begin lk_raise; rescue LkE; 1; else 2; ensure 3 end]
x = begin lk_raise; rescue LkF, TypeError => e; e end
begin lk_id(1); ensure lk_id(2) end
begin raise LkE; rescue; 1 end
begin 1; rescue; 2; else 3 end
begin lk_y { raise LkF }; rescue LkE; end
begin begin lk_raise; ensure 1 end; rescue LkE; 2 end
begin lk_raise; rescue *[TypeError, NoMethodError, LkE] ; 1 end
begin 1 end while nil
begin break end while true
while true do begin break; ensure 1 end end
while true do [1].each { |z| break }; break end
until nil do lk_id(1, (break)) end
while true do [1, (break)] end
while true do "#{break}" end
[1].each { |z| [1, (next)] }
[1].each { |z| lk_id(1, (break 2)) }
lk_y { |z| while true do break z end }
lk_y { |z| begin next z; ensure 1 end }
lk_y { |z| begin break z; ensure 1 end }
lk_id(*[1, 2].each { break [3] })
[*(1..3)]
lambda { |*q| lk_y { return 4 } }.call(1)"""
WRAPS = ["%s", "%s", "if true\n%s\nend", "begin\n%s\nensure\nz = 1\nend", "[1].each { |w|\n%s\n}", "1.times { |w|\n%s\n}", "begin\n%s\nrescue LkE\nend", "case 1\nwhen 1\n%s\nend", "x = begin\n%s\nend",
         "lk_y { |w|\n%s\n}", "unless true\nelse\n%s\nend", "lk_pass { |w|\n%s\n}", "lambda { |w|\n%s\n}.call(1)", "begin\nlk_raise\nrescue LkE => e\n%s\nend", "begin\nensure\n%s\nend", "for w in [1]\n%s\nend",
         "begin\n1\nrescue LkE\nelse\n%s\nend", "begin\nbegin\n%s\nraise LkF\nensure\nz = 2\nend\nrescue LkE\nend"]


def leak(r, pool):
    """A loop that repeats constructs whose jumps or values are not used; anything left on the stack adds up."""
    body, picks = [], []
    for _ in range(r.choice((1, 1, 2, 3))):
        c = r.choice(pool)
        picks.append(c)
        u = r.random()
        if u < 0.2 and not c.startswith("a,") and " if " not in c:
            c = "x = (%s)" % c
        elif u < 0.3 and not c.startswith("a,") and " if " not in c:
            c = "lk_id(0, (%s))" % c
        for _ in range(r.choice((0, 0, 0, 1, 1, 2))):
            w = r.choice(WRAPS)
            if ("break }" in c or "next)" in c or "(break)" in c) and False:
                continue
            c = w % c
        body.append(c)
    n = r.choice((9000, 9500))
    head = r.choice(("while i < %d\n%s\ni += 1\nend", "until i >= %d\n%s\ni += 1\nend", "%d.times { |ii|\n%s\ni += 1\n}", "for ii in 1..%d do\n%s\ni += 1\nend", "loop do\nbreak if i == %d\n%s\ni += 1\nend"))
    text = "def lk_m(o)\na = 1\nb = 2\nx = nil\ni = 0\n%s\n[i, 1]\nend\nv([3, lk_m(LkO.new)])\n" % (head % (n, "\n".join(body)))
    return Case(text, ["=[3, [%d, 1]]" % n], ("repeated",), "raw")


RESC = r"""
class RA < StandardError
end
class RB < RA
end
class RC < RB
end
class RD < StandardError
end
class RX < Exception
end
"""
ANC = {"RA": ["RA"], "RB": ["RB", "RA"], "RC": ["RC", "RB", "RA"], "RD": ["RD"], "RX": ["RX"], "RuntimeError": ["RuntimeError"], "ArgumentError": ["ArgumentError"], "TypeError": ["TypeError"]}


def resc(r, i):
    """Class lists of rescue clauses: splats, many classes, a StandardError of the program's own."""
    out = []
    mod = r.random() < 0.4
    own = r.random() < 0.5
    pre, uses = [], [0]
    classes = sorted(ANC)

    def clause():
        k = r.random()
        if k < 0.2:
            return "", ["StandardError!"], False
        items, names, traced = [], [], False
        for _ in range(r.choice((1, 1, 2, 3, 4))):
            if r.random() < 0.5:
                l = [r.choice(classes) for _ in range(r.choice((0, 1, 2, 3, 3, 4, 5)))]
                uses[0] += 1
                n = "L%d_%d" % (i, uses[0])
                f = r.random()
                if f < 0.4:
                    pre.append("%s = [%s]" % (n, ", ".join(l)))
                    items.append("*" + n)
                elif f < 0.7:
                    pre.append("def self.l%s\n[%s]\nend" % (n, ", ".join(l)) if mod else "def l%s\n[%s]\nend" % (n, ", ".join(l)))
                    items.append("*l" + n)
                else:
                    items.append("*[%s]" % ", ".join(l))
                names += l
            else:
                c = r.choice(classes + ["StandardError!", "Exception!"])
                items.append({"StandardError!": "::StandardError", "Exception!": "Exception"}.get(c, c))
                names.append(c)
        return " " + ", ".join(items), names, traced

    def hit(names, c):
        return any(n in ANC[c] or n == "Exception!" or (n == "StandardError!" and c != "RX") for n in names)
    cls = [clause() for _ in range(r.choice((1, 1, 2, 3)))]
    text = ["def self.f%d(c)" % i if mod else "def f%d(c)" % i, "begin", "raise c, 'm'"]
    for j, (s, names, _) in enumerate(cls):
        text.append("rescue%s%s" % (s, " => e" if r.random() < 0.4 else ""))
        text.append("puts 'r%d'" % j)
    ens = r.random() < 0.3
    if ens:
        text += ["ensure", "puts 'en'"]
    text += ["end", "end"]
    if mod and own:
        pre.append("StandardError = " + r.choice(("TypeError", "RX", "RD", "Array", "5")))
    calls = []
    for c in r.sample(classes, 4):
        calls.append("begin\nf%d(%s)\nrescue Exception => e\nputs 'out ' + e.class.to_s\nend" % (i, c))
        h = [j for j, (_, names, _) in enumerate(cls) if hit(names, c)]
        if h:
            out.append("r%d" % h[0])
        if ens:
            out.append("en")
        if not h:
            out.append("out " + c)
    src = "\n".join(pre + text + calls)
    if mod:
        src = "module Mr%d\n%s\nend" % (i, src)
    return Case(src, out, ("rescue lists",), "raw")


def gen(r, tag, **k):
    while True:
        try:
            src, out, ev = ctl.program(r, tag, FEATS, **k)
        except ctl.Discard:
            continue
        if len(out) < 12 and r.random() < 0.8:
            continue        # few statements run
        return Case(src, out, tuple(sorted(ev)), "raw")


def check(chk):
    chk.rule = ("random methods that nest begin/rescue/else/ensure, while, until, for, begin..end while, case, if, blocks of methods of the program "
                "and of builtin iterators, yield, lambdas and procs, and leave them by value, return, break, next, raise and method calls, in "
                "statements and inside expressions; a reference interpreter gives the trace of every statement that runs and every value; towers "
                "of frames left by one exit; distinct by source text")
    chk.assumptions = ["retry, redo, catch/throw and bare raise are outside (unsupported or known findings)"]
    r = chk.rng("prog")
    cases = [gen(r, "_%d" % i, closures=i % 2 == 0, depth=4 if i % 5 == 0 else 3, budget=160 if i % 5 == 0 else 90)
             for i in range(chk.scale(9000, 200000))]
    r = chk.rng("tower")
    ts = [t for t in (tower(r, i) for i in range(chk.scale(3000, 60000))) if t]
    r = chk.rng("leak")
    pool = [x for x in LEAKS.split("\n") if x]
    lk = [leak(r, pool) for _ in range(chk.scale(400, 4000))]
    r = chk.rng("resc")
    rs = [resc(r, i) for i in range(chk.scale(1500, 20000))]
    known = [Case(s, o, ("known",), "raw", key=k) for k, s, o in KNOWN]
    chk.run(cases + ts + known, size=20, prelude=ctl.PRELUDE)
    chk.run(rs, size=50, prelude=ctl.PRELUDE + RESC)
    if not hasattr(chk, "groups"):      # too long for the checks that run these programs under forced collections
        chk.run(lk, size=4, prelude=ctl.PRELUDE + LEAK)
