"""C01: the same programs with no collection and with collections at chosen and at random GC points."""
import importlib
import re

import gcgen
import p_c20
from core import PRELUDE, Case, Collector

OTHERS = ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C22", "C24")


def foreign(chk, n):
    out = []
    for p in OTHERS:
        try:
            m = importlib.import_module("p_" + p.lower())
        except ModuleNotFoundError:
            continue
        c = Collector(chk, p, n)
        m.check(c)
        for prelude, cases in c.groups:
            for case in cases:
                case.tags = ("from-" + p,)
                case.key = None
            out.append((prelude, cases))
    return out


HOSTILE_PRE = PRELUDE + p_c20.PRE.replace("""def ps(x)
  x
""", """def ps(x)
  puts x.inspect.gsub(/0x[0-9a-f]+/, "")[0, 300]
""")
assert HOSTILE_PRE.count("puts x.inspect.gsub") == 1


def hostile(r):
    """A program of C20, the state of which is shown at the end."""
    case = p_c20.hostile(r)
    while "Time" in case.src or "rand" in case.src or "object_id" in case.src:
        case = p_c20.hostile(r)
    assert "[$a, $h, $s, $st, $x].inspect.size" in case.src
    case.src = case.src.replace("  [$a, $h, $s, $st, $x].inspect.size\n", "  ps([$a, $h, $s, $st, $x, $o.k])\n  ps($keep.map { |k| k.to_s.gsub(/0x[0-9a-f]+/, \"\") })\n")
    return case


CHURN_PRE = PRELUDE + """
class A
  def m
    1
  end
  def self.k
    21
  end
end
class B
  def m
    2
  end
  def self.k
    22
  end
end
class C < A
  def m
    10 + super
  end
  def self.k
    100 + super
  end
end
module M
  def m
    5 + super
  end
  def self.included(x)
  end
end
$ks = [A, B, C]
$ms = [1, 2, 11]
$kk = [21, 22, 121]
def c1(o)
  o.m
end
def c2(o)
  o.send(:m)
end
def c3(o)
  o.k
end
def c4(o)
  [o].map(&:m)[0]
end
def c5(o)
  o.zork rescue 7
end
"""


def churn(r):
    """Classes and singleton classes come and go by the thousand, under the collector's own timing; every call is checked."""
    ops = ["c = Class.new($ks[q]); bad += 1 unless c1(c.new) == $ms[q]", "c = Class.new($ks[q]); bad += 1 unless c3(c) == $kk[q]",
           "o = $ks[q].new; o.singleton_class; bad += 1 unless c1(o) == $ms[q]", "o = Class.new($ks[q]).new; o.singleton_class; bad += 1 unless c2(o) == $ms[q]",
           "c = Class.new(Class.new($ks[q])); bad += 1 unless c4(c.new) == $ms[q] && c3(c) == $kk[q]", "bad += 1 unless c1($ks[q].new) == $ms[q]",
           "bad += 1 unless c3($ks[q]) == $kk[q]", "bad += 1 unless c5(Class.new($ks[q]).new) == 7", "a = [1]; a.singleton_class; bad += 1 unless c5(a) == 7",
           "keep[q] = Class.new($ks[q]).new; bad += 1 unless c1(keep[q]) == $ms[q]", "bad += 1 unless keep[q] == 0 || c1(keep[q]) == $ms[q]",
           "o = Object.new; o.singleton_class; bad += 1 unless c5(o) == 7", "Module.new; x = Class.new($ks[q]); x.class_eval { @z = 1 }; bad += 1 unless c1(x.new) == $ms[q]"]
    rare = ["o = $ks[q].new; o.extend(M); bad += 1 unless c1(o) == $ms[q] + 5", "o = $ks[q].new; def o.m; 9; end; bad += 1 unless c1(o) == 9",
            "c = Class.new($ks[q]); c.include(M); bad += 1 unless c1(c.new) == $ms[q] + 5", "c = Class.new($ks[q]) { def m; 3; end }; bad += 1 unless c1(c.new) == 3"]
    body = "".join("    %s\n    s = (s * 1103 + 12345) %% 65536\n    q = (s / 256) %% 3\n" % r.choice(ops) for _ in range(r.randint(2, 5)))
    if r.random() < 0.5:
        body += "    if j %% %d == 0\n      %s\n    end\n" % (r.choice((40, 150, 400)), r.choice(rare))
    src = ("s = %d\nq = 1\nbad = 0\nkeep = [0, 0, 0]\n%d.times do |i|\n  %d.times do |j|\n%s  end\n  keep = [0, 0, 0] if i %% 5 == 4\nend\nv bad\n"
           % (r.randint(1, 65535), r.randint(10, 30), r.randint(300, 900), body))
    return Case(src, ["=0"], ("churn",))


DROP_PRE = PRELUDE + """
def mk(n)
  ["f" + n.to_s + "x" * (n % 40), [n, "e" + n.to_s]]
end
def jk
  a = []
  6.times { |i| a << "junk" + i.to_s; a << [i, i] }
  a.size
end
class Dr
  include Comparable
  def initialize(n)
    @n = n
    @f = mk(n)
  end
  def n
    @n
  end
  def inspect
    s = "D" + @f.inspect
    jk
    s
  end
  def to_s
    s = "d#{@f[0]}"
    jk
    s
  end
  def to_str
    s = "s" + @f[0]
    jk
    s
  end
  def to_ary
    r = [@n, mk(@n)]
    jk
    r
  end
  def to_a
    r = [mk(@n), Dr.new(@n)]
    jk
    r
  end
  def to_proc
    n = @n
    r = lambda { |*z| mk(n) }
    jk
    r
  end
  def hash
    jk
    @n % 3
  end
  def eql?(o)
    r = o.is_a?(Dr) && @n == o.n
    o = nil
    jk
    r
  end
  def ==(o)
    r = o.is_a?(Dr) && @n == o.n
    o = nil
    jk
    r
  end
  def !=(o)
    r = !(o.is_a?(Dr) && @n == o.n)
    o = nil
    jk
    r
  end
  def ===(o)
    r = o.is_a?(Dr) && @n == o.n
    o = nil
    jk
    r
  end
  def <=>(o)
    r = o.is_a?(Dr) ? @n <=> o.n : nil
    o = nil
    jk
    r
  end
  def coerce(o)
    r = [Dr.new(7), Dr.new(8)]
    o = nil
    jk
    r
  end
  def +(o)
    n = o.is_a?(Dr) ? o.n : 5
    o = nil
    jk
    Dr.new(@n + n)
  end
  def <<(o)
    o = nil
    jk
    Dr.new(@n + 1)
  end
  def [](i)
    i = nil
    jk
    mk(@n)
  end
  def []=(i, x)
    i = nil
    x = nil
    jk
    1
  end
  def a=(x)
    x = nil
    jk
    2
  end
  def call(*x)
    x = nil
    jk
    mk(@n)
  end
  def each
    yield mk(@n)
    jk
    yield Dr.new(@n)
    self
  end
  def method_missing(m, *x, &b)
    r = b ? b.call(mk(@n)) : mk(@n)
    x = nil
    b = nil
    jk
    r
  end
end
def kw(a, b = Dr.new(3), *c, d: Dr.new(4), **e, &f)
  r = [a, b, c, d, e]
  jk
  r
end
def tm(x)
  x.inspect
  x
end
"""
DROPS = """(%D..%D)|(%D...%D)|Range.new(%D, %D)|(%D..%D) == (%D..%D)|(%D..%D).include?(%D)|(%D..%D) === %D|%D == %D|%D != %D|%D <=> %D|%D < %D|%D >= %D|[%D, %F, %D] == [%D, %F, %D]|[%D, %D] != [%D, %D]
[%D, %D, %F] <=> [%D, %D]|[%D, %D].include?(%D)|[%D, %D].index(%D)|[%D, %F, %D].delete(%D)|[%D, %D, %D].count(%D)|[%D, %D] - [%D, %D]|[%D, %D] & [%D, %D]|[%D, %D] + [%D]|[%D, %D, %D].uniq|[%D, %D] * 2
[%D, %D, %D].sort|[%D, %D, %D].min|[%D, %D, %D].max|[%D, %D, %D].sort { |x, y| y <=> x }|[%D, %D, %D].sort_by { |x| jk; x }|[%D, %D].max_by { |x| jk; x }|[%D, %D].min_by { |x| jk; x }|[%D, %D].group_by { |x| jk; x }
[%D, %D].each_with_index { |x, i| x = nil; jk }|[%D, %D].map { |x| x = nil; jk; mk(5) }|[%D, %D].select { |x| x = nil; jk }|[%D, %D].reject { |x| x = nil; jk; false }|[%D, %D].flat_map { |x| x = nil; jk; [mk(4)] }
[%D, %D].inject { |x, y| x = nil; y = nil; jk; mk(6) }|[%D, %D].inject(%D) { |x, y| y = nil; jk; x }|[%D, %D].zip([%D, %D])|[[%D, [%F]], %D].flatten|[%D, %D].join("-")|[%D, [%D]].join|[%D, %F].inspect|[%D, %F].to_s
[%D, %D].partition { |x| x = nil; jk }|[%D, %D].each_slice(1) { |x| x = nil; jk }|[%D, %D].each_with_object([]) { |x, m| x = nil; jk }|[%D, %D].any? { |x| x = nil; jk; nil }|[%D, %D].all? { |x| x = nil; jk }|[%D, %D].find { |x| x = nil; jk; nil }
[%D, %D].rotate|[%D, %D].reverse|[%D, %D].first|[%D, %D].take_while { |x| x = nil; jk }|[%D, %D].each_cons(2) { |x| x = nil; jk }|[%D, %D].cycle { |x| x = nil; jk; break mk(2) }|Array.new(3) { |i| jk; mk(i) }|[%D, %D].fill(%D)
[%D, %D].map(&:to_s)|[%D, %D].map(&%D)|[%D, %D].each_entry|[%D, %D].sum(%D)|[%D, %D].inject(:+)|[%D, %D].delete_if { |x| x = nil; jk; false }|[%D, %D].index { |x| x = nil; jk; nil }|[%D, %D].uniq { |x| x = nil; jk }|[%D, %D].map! { |x| x = nil; jk; mk(3) }
{%D => %F, %D => %F}|{1 => %D, 2 => %D} == {1 => %D, 2 => %D}|{%D => %F}[%D]|{%D => %F}.merge({%D => %F})|{%D => %F}.key?(%D)|{%D => %F, %D => %F}.delete(%D)|{%F => %D}.value?(%D)|{%D => %F, %D => %D}.sort|{%D => %F, %D => 2}.invert
{%D => %F}.each { |k, x| k = nil; x = nil; jk }|{%D => %F}.select { |k, x| k = nil; x = nil; jk }|{%D => %F}.each_key { |k| k = nil; jk }|{%D => %F}.each_value { |k| k = nil; jk }|{1 => %D}.fetch(2) { |k| jk; mk(1) }|{1 => %D}.inspect|{%D => %D}.to_s
"a#{%D}b#{%D}c"|"x" + %F[0]|"a-b".gsub("-") { |m| m = nil; jk; mk(3)[0] }|"a-b".gsub(/[ab]/) { jk; mk(3)[0] }|"%s %s" % [%D, %D]|"%s" % %D|"abc".each_char { |m| m = nil; jk }|"a b".split.map { |x| jk; x + mk(2)[0] }|"abc".tr("a", mk(2)[0][0, 1])
/#{%D}/ =~ %F[0]|"a,b".split(",").each { |x| x = nil; jk }|"ab".scan(/./) { |x| x = nil; jk }|%F[0].sub("f") { |x| x = nil; jk; mk(2)[0] }|"q".send(:+, %F[0])|%F[0].to_sym|[%F[0], %F[0]].join(%F[0])
%D + %D|%D << %D|%D[%D]|(%D[%D] = %D)|(%D.a = %D)|%D.zork(%D)|%D.zork(%D) { |x| x = nil; jk; mk(9) }|1 + %D|1.5 * %D rescue 0|2 <=> %D|3 == %D|kw(%D)|kw(%D, %D, %D, d: %D)|kw(%D, z: %D)|kw(*%D)|kw(1, *%D, *%D)|kw(*[%D, %D], d: %D)
kw(%D, **{z: %D, y: %D})|kw(%D, &%D)|[*%D, %D]|[%D, *%D, *%D]|[%D, jk, %D]|{a: %D, b: jk, c: %D}|send(:kw, %D, %D)|method(:kw).call(%D, %D)|(x, y = %D, %D; jk; [x, y])|(x, y = *%D; jk; [x, y])|(x = %D; y = x.dup; x = nil; jk; y)
(case %D when %D, %D then %F else mk(1) end)|(case %D when *[%D] then 1 end rescue 0)|(raise %F[0] rescue jk)|(begin; raise %F[0]; rescue => e; jk; e.message; end)|%D.each { |x| x = nil; jk }|Enumerator.new(%D).next|Enumerator.new([%D, %D]).next
lambda { |x, y = %D| x = nil; jk; y }.call(%D)|proc { |x, *y| x = nil; jk; y }.call(%D, %D, %D)|proc { |x, y| jk; [x, y] }.call([%D, %D])|Fiber.new { |x| y = Fiber.yield(%D); jk; [x, y] }.resume(%D)|(f = Fiber.new { |x| y = Fiber.yield(x); jk; [x, y] }; f.resume(%D); jk; f.resume(%D))
Struct.new(:p, :q).new(%D, %D).p|(st = Struct.new(:p, :q).new(%D, %D); jk; [st.p, st.q])|Complex(1, 2) == %D|(2 ** 70) == %D|nil == %D|:a == %D|"a" == %D|1.0 == %D|[1, %D].pack("C*") rescue 0|%D.instance_variable_set(:@f, %F)|%D.instance_variable_get(:@f)
%D.dup|%D.clone|%D.then { |x| x = nil; jk } rescue 0|%D.tap { |x| x = nil; jk } rescue 0|%D.respond_to?(:n)|%D.is_a?(Comparable)|%D.instance_exec(%D) { |x| x = nil; jk; @f }|%D.method(:call).unbind.bind(%D).call(%D)|%D.method(:+).to_s.size > 3|Class.new(Dr).new(4).inspect
eval("[mk(3), jk, mk(4)]")|binding.eval("[mk(3), jk, mk(4)]") rescue 0|[%F, %F].sort|[%F, %F, %F].min|[%F, %F].max|%F <=> %F|%F == %F|%F.eql?(%F)|%F.hash == %F.hash|{%F => %F}[%F]|[%F, %F].uniq|[%F, %F] - [%F]|%F * "-"|%F.flatten"""


def drops(r, pool):
    """Operands that only the running operation refers to, while a user method lets go of its parameters and collects."""
    def one(m):
        n = r.choice((1, 2, 3, 3, 4))
        if m == "%F":
            return "mk(%d)" % n
        k = r.random()
        return "Dr.new(%d)" % n if k < 0.85 else "tm(Dr.new(%d))" % n
    lines = []
    for _ in range(r.randint(1, 3)):
        e = re.sub("%[DF]", lambda m: one(m.group(0)), r.choice(pool))
        if r.random() < 0.25:
            e = "[mk(7), (%s), mk(8)]" % e
        elif r.random() < 0.1:
            e = "kw(mk(7), (%s), d: mk(8))" % e
        lines.append("begin\nv((%s))\nrescue Exception => e\nputs e.class\nend" % e)
    return Case("\n".join(lines), [], ("dropped operands",), r.choice(("top", "def", "block", "lambda")))


def check(chk):
    chk.rule = ("programs that keep fresh objects reachable through one kind of root or another (variables, captured scopes, arguments in flight, "
                "containers, exceptions, fibers, bindings ...) and the programs of the other checks, each executed with no collection at all and with "
                "collections forced at pseudo-randomly chosen GC points, freed cells poisoned and kept from reuse; traces have to be equal; "
                "distinct by source text")
    r = chk.rng("gc")
    hard = "quarantine=40,poison,audit,stats"
    k = chk.seed * 1000

    def mons(i):
        s = k + i
        return ["gc=every:1,%s" % hard if i % 4 == 0 else "gc=rand:%d:%d,%s" % (s, (2, 3, 7)[i % 3], hard),
                "gc=rand:%d:%d,poison,audit,stats" % (s + 77, (3, 5, 11)[i % 3])]
    cases = [gcgen.build(r) for _ in range(chk.scale(2400, 60000))]
    chk.run_diff(cases, mons, size=20, prelude=PRELUDE + gcgen.PRE)
    cases = [hostile(r) for _ in range(chk.scale(1200, 50000))]
    chk.limits_undecided = True  # programs that grow without end
    chk.run_diff(cases, mons, size=20, prelude=HOSTILE_PRE, cpu=(8, 8))
    chk.limits_undecided = False
    r = chk.rng("drops")
    pool = p_c20.items(DROPS)
    chk.run_diff([drops(r, pool) for _ in range(chk.scale(1600, 40000))],
                 lambda i: ["gc=every:1,%s" % hard if i % 2 == 0 else "gc=rand:%d:2,%s" % (k + i, hard), "gc=every:1,poison,audit,stats"], size=20, prelude=DROP_PRE)
    r = chk.rng("churn")
    chk.run([churn(r) for _ in range(chk.scale(60, 1500))], size=2, prelude=CHURN_PRE, mon="cache,stats")
    for prelude, cs in foreign(chk, chk.scale(60, 3000)):
        chk.run_diff(cs, lambda i: [mons(i)[i % 2]], size=20, prelude=prelude)
