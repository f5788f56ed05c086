"""Random programs that keep fresh objects alive through every kind of root while collections may happen."""
from core import Case

PRE = r"""
$n = 0
def mk(i)
  $n += 1
  "s#{i}." + $n.to_s
end
def junk(k)
  k.times { |i| [i.to_s, {i => "j" + i.to_s}] }
  nil
end
def idf(a, b = mk(1), *r, k: mk(2), **kr, &blk)
  t = mk(3)
  junk(2)
  x = blk ? blk.call(a, t) : t
  [a, b, r, k, kr, x]
end
def va(*a)
  junk(1)
  a
end
def y1(a)
  r = yield(a)
  junk(1)
  [r, a]
end
def y2(a, b)
  t = [a, b]
  r = yield(b, a)
  s = yield(r, t.size.to_s)
  [r, s, t]
end
def pass(a, &b)
  [a].map(&b)
end
def opt(a, b = [a, mk(4)], c = {b.size => mk(5)})
  junk(1)
  [a, b, c]
end
def rz
  yield
rescue => e
  junk(2)
  e.message
end
def en(a)
  r = mk(6)
  begin
    r = [r, yield(a)]
  ensure
    junk(1)
    $e << a.to_s if $e.size < 40
  end
  r
end
$e = []
def deep(n, a)
  t = [a, mk(n)]
  r = n == 0 ? t : deep(n - 1, t.size.to_s)
  [t, r]
end
def cl(a)
  c = mk(7)
  [->() { c = c + "!"; [c, a] }, ->(x) { a = x; [c, a] }]
end
def co(a)
  f = cl(a)
  junk(2)
  [f[0].call, f[1].call(mk(8)), f[0].call]
end
def fb(a)
  l = mk(9)
  f = Fiber.new do |x|
    t = [x, l, mk(1)]
    q = Fiber.yield(t)
    q = Fiber.yield([q, t])
    [q, t, yield(l)]
  end
  r = [f.resume(a)]
  junk(3)
  r << f.resume(mk(2))
  junk(1)
  r << f.resume([mk(3)])
  r
end
def fe(a)
  f = Fiber.new { x = [a, mk(4)]; Fiber.yield(x); x }
  f.resume
  $fs << f
  $fs.shift if $fs.size > 12
  g = $fs[0]
  rz { g.resume }
end
$fs = []
def enu(a)
  e = a.each
  r = []
  a.size.times { r << e.next; junk(1) }
  r
end
class Pt
  attr_accessor :x, :y
  @@c = ["cv"]
  CON = ["con", "k" + "x"]
  def initialize(x, y = mk(1))
    @x = x
    @y = y
  end
  def inspect
    "P(#{@x.inspect},#{@y.inspect})"
  end
  def to_s
    "pt#{@x}"
  end
  def cv(a)
    @@c << a
    @@c.shift if @@c.size > 6
    [@@c[0], CON]
  end
  def ==(o)
    junk(1)
    o.is_a?(Pt) && @x == o.x
  end
  def <=>(o)
    junk(1)
    t = mk(2)
    [@x.to_s, t.size] <=> [o.x.to_s, t.size]
  end
  def eql?(o)
    junk(1)
    self == o
  end
  def hash
    junk(1)
    @x.to_s.size
  end
  def +(o)
    t = mk(3)
    junk(1)
    Pt.new([@x, t], o)
  end
  def [](i)
    junk(1)
    [i, @x]
  end
  def []=(i, val)
    junk(1)
    @y = [i, val]
  end
  def each
    yield @x
    junk(1)
    yield [@y]
    yield mk(4)
  end
  def method_missing(name, *args)
    junk(1)
    [name, args, mk(5)]
  end
  def m(a, *b)
    t = mk(6)
    junk(1)
    [a, b, t]
  end
  def to_proc
    x = @x
    ->(a) { [x, a] }
  end
  def bind
    z = mk(7)
    binding
  end
end
class Pu < Pt
  def initialize(x, y = mk(8))
    super
    @z = mk(9)
  end
  def m(a, *b)
    [super, @z]
  end
  def inspect
    "U(#{super},#{@z.inspect})"
  end
end
St = Struct.new(:a, :b)
class Er < StandardError
  def initialize(m, o = nil)
    super(m)
    @o = o
  end
  def o
    @o
  end
end
module Mo
  def self.f(a)
    @s = [a, @s ? @s[0] : nil]
    junk(1)
    @s
  end
  def mo(a)
    [a, mk(1)]
  end
end
class Pt
  include Mo
end
class Pt
  def self.fresh
    @@c = ["cv"]
  end
end
module Mo
  def self.fresh
    @s = nil
  end
end
class To
  def initialize(x)
    @x = x
  end
  def to_a
    t = mk(1)
    junk(2)
    [@x, t, mk(2)]
  end
end
class Tc < To
  def to_a
    @x.clear
    junk(3)
    super
  end
end
# holds on to a value, and looks at those held for a while
def keep(x)
  $k << x
  junk(1)
  o = $k.size > 4 ? $k.shift : $k[0]
  case o
  when Range
    [o.begin, o.end, o.exclude_end?]
  when UnboundMethod
    m = o.owner
    junk(1)
    pt = m.is_a?(Class) && m != Pt ? m.new(1) : Pt.new(2)
    pt.extend(m) unless m.is_a?(Class)
    [o.name, m.inspect.size > 0, m.is_a?(Class), o.bind(pt).call(mk(3))]
  else
    [o.inspect.gsub(/0x[0-9a-f]+/, "").size > 9, o.singleton_class?, o.instance_methods.size > 10, o.singleton_class.inspect.size > 9]
  end
end
def fresh
  $n = 0
  $e = []
  $fs = []
  $h = {}
  $w = Hash.new { |h, k| junk(1); h[k] = [k, mk(2)] }
  $l = []
  $k = []
  Pt.fresh
  Mo.fresh
end
"""


class G:
    def __init__(self, r):
        self.r = r
        self.vars = []
        self.blockvars = []
        self.nid = 0

    def atom(self):
        r = self.r
        vs = self.vars + self.blockvars
        k = r.random()
        if vs and k < 0.35:
            return r.choice(vs)
        if k < 0.75:
            return "mk(%d)" % r.randint(0, 9)
        return r.choice(("2**70", "(2**65 + %d)" % r.randint(1, 99), "1.5", "%d" % r.randint(0, 99), ":sy", "nil", "'lit%d'" % r.randint(0, 9),
                         "(1..3)", "1e200", "[mk(0)]", "Pt.new(mk(1))", "true", "%w(a b c)", "'a' * 30", "Complex(1.5, 2**70)"))

    def E(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.08:
            return self.atom()
        e = lambda: self.E(d - 1)
        k = r.randint(0, 60)
        if k < 3:
            return "[%s]" % ", ".join(e() for _ in range(r.randint(1, 4)))
        if k < 5:
            return "{:k => %s, %s => %s}" % (e(), e(), e())
        if k < 7:
            return '"<#{%s}|#{%s}>"' % (self.q(d - 1), self.q(d - 1))
        if k < 9:
            return "%s.new(%s)" % (r.choice(("Pt", "Pu")), ", ".join(e() for _ in range(r.randint(1, 2))))
        if k < 11:
            return r.choice(("idf(%s, %s, %s, k: %s, z: %s)" % (e(), e(), e(), e(), e()), "idf(%s)" % e(), "idf(%s, k: %s)" % (e(), e()),
                             "idf(%s) { |p, q| [%s, p, q] }" % (e(), e()), "opt(%s)" % e(), "opt(%s, [%s])" % (e(), e())))
        if k < 13:
            return "va(*[%s, %s], %s, *va(%s))" % (e(), e(), e(), e())
        if k < 15:
            v = self.bv()
            b = self.inblock([v], lambda: self.E(d - 1))
            return r.choice(("y1(%s) { |%s| %s }" % (e(), v, b), "pass(%s) { |%s| %s }" % (e(), v, b), "[%s, %s].map { |%s| [%s, %s] }" % (e(), e(), v, v, b),
                             "[%s].map(&->(%s) { %s })" % (e(), v, b),
                             "[%s].flat_map { |%s| [%s] }" % (e(), v, b),
                             "3.times.map { |%s| %s }" % (v, b)))
        if k < 17:
            a, c = self.bv(), self.bv()
            b = self.inblock([a, c], lambda: self.E(d - 1))
            return r.choice(("y2(%s, %s) { |%s, %s| %s }" % (e(), e(), a, c, b), "[%s, %s].inject(1) { |%s, %s| [%s, %s] }" % (e(), e(), a, c, c, b),
                             "[%s, %s].inject(%s) { |%s, %s| [%s, %s] }" % (e(), e(), e(), a, c, a, b)))
        if k < 19:
            return r.choice(("deep(%d, %s)" % (r.randint(1, 5), e()), "co(%s)" % e(), "cl(%s)[1].call(%s)" % (e(), e())))
        if k < 22:
            v = self.bv()
            b = self.inblock([v], lambda: self.E(d - 1))
            return r.choice(("fb(%s) { |%s| %s }" % (e(), v, b), "fe(%s)" % e(), "enu([%s, %s])" % (e(), e()),
                             "Fiber.new { |%s| %s }.resume(%s)" % (v, b, e()),
                             "[%s, %s].map.with_index { |%s, i| [%s, i] }" % (e(), e(), v, b)))
        if k < 24:
            return r.choice(("rz { raise Er.new((%s).to_s, %s) }" % (e(), e()), "rz { [%s, %s.undefd] }" % (e(), "3"),
                             "rz { raise ArgumentError, (%s).to_s }" % e(), "en(%s) { |z| %s }" % (e(), e()),
                             "rz { raise (%s).to_s }" % e()))
        if k < 26:
            v = self.bv()
            b = self.inblock([v], lambda: self.E(d - 1))
            return r.choice(("[%s, %s, %s].sort_by { |%s| [%s].to_s.size }" % (e(), e(), e(), v, v), "[%s, %s].select { |%s| %s }" % (e(), e(), v, b),
                             "[%s, %s].zip([%s, %s])" % (e(), e(), e(), e()), "[%s, %s].reject { |%s| (%s).to_s.size > 5 }" % (e(), e(), v, v),
                             "[%s, %s].partition { |%s| %s }" % (e(), e(), v, b), "[Pt.new(%s), Pt.new(%s), Pt.new(mk(2))].sort" % (e(), e()),
                             "[Pt.new(%s), Pt.new(%s)].max" % (e(), e()), "[Pt.new(%s), Pt.new(%s)].uniq" % (e(), e()),
                             "([%s, Pt.new(%s)] == [%s, Pt.new(%s)])" % (e(), e(), e(), e()),
                             "([Pt.new(%s)] - [Pt.new(%s)])" % (e(), e()), "[Pt.new(%s)].include?(Pt.new(%s))" % (e(), e()),
                             "[%s, [%s, [%s]]].flatten" % (e(), e(), e()),
                             "Array.new(3) { |%s| %s }" % (v, b), "[%s, %s].reverse" % (e(), e()),
                             "[[%s, %s], [%s, 1]].transpose" % (e(), e(), e())))
        if k < 28:
            v = self.bv()
            b = self.inblock([v], lambda: self.E(d - 1))
            return r.choice(('"axbxc".gsub(/x/) { |%s| (%s).to_s }' % (v, b), '"k1=v1;k2=v2".scan(/(\\w+)=(\\w+)/).map { |%s| [%s, $1] }' % (v, b),
                             '(%s).to_s.split("").map { |%s| %s }' % (r.choice(("1234", ":ab")), v, b),
                             '("ab%s12" =~ /(\\d+)/; junk(2); [$1, $&])' % r.choice("xyz"),
                             "%s.inspect.upcase" % e(), '("%%s:%%p" %% [%s, %s])' % (e(), e()),
                             "[%s, %s].join(mk(3))" % (e(), e()), "mk(1).sub(/s/, (%s).to_s)" % self.atom()))
        if k < 31:
            v, w = self.bv(), self.bv()
            b = self.inblock([v, w], lambda: self.E(d - 1))
            return r.choice(("{%s => %s, 2 => %s}.select { |%s, %s| %s }" % (e(), e(), e(), v, w, b), "{mk(1) => %s}.merge({mk(2) => %s})" % (e(), e()),
                             "{Pt.new(%s) => %s, Pt.new(%s) => 4}.keys" % (e(), e(), e()), "$w[(%s).to_s]" % e(), "($h[(%s).to_s] ||= %s)" % (e(), e()),
                             "{%s => 1, %s => 2}.reject { |%s, %s| %s }.size" % (self.atom(), e(), v, w, v + ".to_s"), "{1 => %s}.fetch(2) { |%s| %s }" % (e(), v, self.inblock([v], lambda: self.E(d - 1))),
                             "{%s => %s}.values" % (e(), e()), "{1 => %s}.length" % e()))
        if k < 35:
            return r.choice(("Pt.new(%s).m(%s, %s)" % (e(), e(), e()), "Pu.new(%s).m(%s)" % (e(), e()), "Pt.new(%s).method(:m).call(%s)" % (e(), e()),
                             "Pt.new(%s).send(:m, %s, %s)" % (e(), e(), e()), "Pt.new(%s).mzz(%s, %s)" % (e(), e(), e()), "Pt.new(%s).cv(%s)" % (e(), e()),
                             "Mo.f(%s)" % e(), "Pt.new(%s).mo(%s)" % (e(), e()), "(Pt.new(%s) + %s)" % (e(), e()), "Pt.new(%s)[%s]" % (e(), e()),
                             "[%s].map(&Pt.new(%s))" % (e(), e()), "Pt.new(%s).instance_eval { [@x, %s] }" % (e(), e()),
                             "Pt.new(%s).instance_variable_get(:@x)" % e(), "Pt.new(%s).dup" % e(), "Pu.new(%s, %s)" % (e(), e()),
                             "Class.new(Pt) { def q(a); [a, @x, mk(1)]; end }.new(%s).q(%s)" % (e(), e()),
                             "St.new(%s, %s).a" % (e(), e()), "St.new(%s, %s).b" % (e(), e())))
        if k < 37:
            # text evaluated with the variables of the place (no escapes inside)
            vs = self.vars or ["$n.class"]
            return r.choice(("eval('[%s, mk(3), mk(4)]')" % r.choice(vs), "eval('[z, @x, mk(2)]', Pt.new(%s).bind)" % e(),
                             "->(a, b = %s) { [a, b, %s] }.call(%s)" % (e(), e(), e()), "proc { |a, b| [a, b, %s] }.call(%s, %s)" % (e(), e(), e()),
                             "proc { |*a| [a, %s] }.call([%s], mk(2))" % (e(), e())))
        if k < 40:
            c = r.choice(("%s.nil?" % e(), "%s == %s" % (e(), e()), "(%s).to_s.size > 6" % e(), "$n.even?"))
            return "(%s ? %s : %s)" % (c, e(), e())
        if k < 42:
            return r.choice(("(%s || %s)" % (e(), e()), "(%s && %s)" % (e(), e()), "(%s; %s)" % (e(), e()), "[*%s, %s]" % ("va(%s)" % e(), e()),
                             "(2**64 + $n) * (2**66)", "[2**70, %s, 2**71 + $n].map(&:to_s)" % e(), "%s&.inspect" % e()))
        if k < 44:
            return "($l << %s; $l.shift if $l.size > 8; $l.size > 3 ? $l[-3] : $l[0])" % e()
        if k < 47:
            return "y1(%s) { |z| junk(%d); [z, %s] }" % (e(), r.randint(1, 6), e())
        if k < 49:
            return "(case %s\n when String, nil then [1, %s]\n when Array then [2, %s]\n else [3, %s]\n end)" % (e(), e(), e(), e())
        if k < 52:
            return r.choice(("[*%s, *To.new(%s)]" % (e(), e()), "[*{mk(1) => %s, 2 => mk(3)}, *To.new(%s), *To.new(%s)]" % (e(), e(), e()),
                             "va(*{mk(1) => %s}, *To.new(%s), %s)" % (e(), e(), e()), "va(*To.new(%s), *To.new(%s), k: %s)" % (e(), e(), e()),
                             "[*[%s, mk(1)], *To.new(%s), *(1..3), *To.new(%s)]" % (e(), e(), e()), "(sa = [mk(1), %s]; [*sa, *Tc.new(sa), *Tc.new(sa)])" % e(),
                             "y1(%s) { |z| next [*To.new(z), %s] }" % (e(), e())))
        if k < 55:
            return r.choice(("keep(Pt.new(%s).singleton_class)" % e(), "keep((%s).dup.singleton_class)" % r.choice(("mk(1)", "'abc'", "[mk(2)]", "{1 => mk(2)}")),
                             "keep(Pt.new(%s).extend(Mo).singleton_class)" % e(),
                             "keep(Pt.new(%s).method(:m).unbind)" % e(), "keep(Class.new(Pt) { def m(a); [a, mk(1)]; end }.instance_method(:m))",
                             "keep(Module.new { def mq(a); [a, mk(2)]; end }.instance_method(:mq))",
                             "keep(Class.new(Pu) { def m(a); [a, super]; end }.new(%s).method(:m).unbind)" % e()))
        if k < 58:
            a = r.choice(("mk(1)", "Pt.new(%s)" % e(), "1e200", "(2**70)", "mk(3)"))
            return r.choice(("keep(%s..%s)" % (a, a), "keep(%s...%s)" % (a, a), "keep(Range.new(%s, %s))" % (a, a), "(x1 = %s; keep(x1..%s); x1)" % (a, a), "keep((Pt.new(%s)..Pt.new(%s)))" % (e(), e())))
        return self.E(d - 1)

    def q(self, d):
        """An expression that may stand in an interpolation (no double quotes inside)."""
        for _ in range(20):
            s = self.E(d)
            if '"' not in s and "\n" not in s:
                return s
        return "mk(7)"

    def bv(self):
        self.nid += 1
        return "b%d" % self.nid

    def inblock(self, vs, f):
        self.blockvars += vs
        s = f()
        del self.blockvars[len(self.blockvars) - len(vs):]
        return s

    def S(self, d):
        r = self.r
        k = r.random()
        if k < 0.45 or not self.vars:
            e = self.E(d)
            v = "v%d" % r.randint(1, 6)
            if v not in self.vars:
                self.vars.append(v)
            return "%s = %s" % (v, e)
        if k < 0.55:
            a, b = self.E(d - 1), self.E(d - 1)
            v, w = "v%d" % r.randint(1, 3), "v%d" % r.randint(4, 6)
            for x in (v, w):
                if x not in self.vars:
                    self.vars.append(x)
            return "%s, %s = %s, %s" % (v, w, a, b)
        if k < 0.65:
            v = r.choice(self.vars)
            return "%s = [%s, junk(1)]" % (v, self.E(d))
        if k < 0.72:
            return "begin\n  %s\n  raise Er.new((%s).to_s, %s) if (%s).to_s.size.even?\nrescue Er => er\n  junk(1)\n  v [er.message, er.o]\nend" % (
                    "v [%s]" % self.E(d - 1), self.E(1), self.E(1), self.E(1))
        if k < 0.78:
            return "[%s, %s].each { |it| v [it, %s] }" % (self.E(d - 1), self.E(d - 1), self.E(d - 1))
        if k < 0.82:
            return "i = 0\nwhile i < 3\n  i += 1\n  v [i, %s]\nend" % self.E(d - 1)
        if k < 0.86:
            v = r.choice(self.vars)
            return "ff = ->(x) { %s = [x, (%s).to_s.size]; %s }\njunk(2)\nv ff.call(%s)\nv %s" % (v, v, v, self.E(d - 1), v)
        if k < 0.9:
            return "def g%d(a)\n  b = %s\n  junk(1)\n  c = yield [a, b]\n  [a, b, c]\nend\nv(g%d(%s) { |z| [z, %s] })" % (
                (i := r.randint(0, 3)), "[mk(1), a]", i, self.E(d - 1), self.E(d - 1)) if self.ctx == "top" else "v [%s]" % self.E(d)
        return "v [%s, %s]" % (self.E(d), self.E(d - 1))


def build(r, depth=None):
    g = G(r)
    g.ctx = r.choice(("top", "top", "def", "block", "lambda"))
    body = ["fresh"]
    for _ in range(r.randint(2, 6)):
        body.append(g.S(depth or r.choice((1, 2, 2, 3))))
    body.append("v [%s]" % ", ".join(g.vars))
    body.append("v $e.size\nv $fs.size")
    return Case("\n".join(body), None, ("gc-" + g.ctx,), g.ctx)
