"""C02: heap audits after every collection, and programs that hold a known amount of data and then let go of it."""
import importlib
import re

import gcgen
from core import PRELUDE, Case, Collector

OTHERS = ("C05", "C07", "C08", "C10", "C11", "C12", "C13", "C15", "C17", "C22", "C23")

PRE = r"""
class Cell
  attr_accessor :iv, :next
  def initialize(iv, nx = nil)
    @iv = iv
    @next = nx
  end
  def id_
    self
  end
end
class Key
  attr_reader :k
  def initialize(k)
    @k = k
  end
end
St = Struct.new(:m, :n)
class Bad < StandardError
  def initialize(v)
    super("bad")
    @v = v
  end
end
class Hold
  def self.iv=(x)
    @iv = x
  end
  def cv=(x)
    @@cv = x
  end
  @@cv = nil
end
def probe
  GC.start
  GC.start
  s = GC.stat
  [s[:heap_live_slots], s[:heap_allocated_pages], s[:heap_free_slots], s[:count], s[:total_allocated_objects], s[:malloced]]
end
def use(x)
  x.size
end
def yielder(x)
  yield x
end
def holder_l(x)
  lambda { x }
end
def holder_p(x)
  y = x
  proc { [1].map { y } }
end
def holder_b(x)
  y = x
  binding
end
def holder_f(x)
  f = Fiber.new do |z|
    t = z
    Fiber.yield 1
    t.size
  end
  f.resume(x)
  f
end
def holder_f0(x)
  Fiber.new { x.size }
end
def holder_f2(x)
  f = Fiber.new { [1].each { |q| t = [x]; Fiber.yield q; t.size } }
  f.resume
  f
end
def holder_e(x)
  begin
    raise Bad.new(x)
  rescue => e
    e
  end
end
def holder_en(x)
  e = x.each
  e.next if x.size > 0
  e
end
def holder_en0(x)
  [x].each
end
def holder_m(x)
  Cell.new(x).method(:id_)
end
def holder_d(x)
  Hash.new { |h, k| x }
end
def early(x)
  [1, 2].each { |i| y = x; return i if i == 1 }
end
def raiser(x)
  y = x
  raise "r" if y
end
def deep_(n, x)
  y = [x]
  n == 0 ? y.size : deep_(n - 1, x)
end
def opt_(a, b = [a], *c, k: [a])
  b.size
end
"""

# expression of the i-th element (%E: expression of another element), objects in it
ELEMS = (('"s#{i}"', 1), ("[i]", 1), ("[i, [i]]", 2), ("{i => i}", 1), ('{"k" => [i]}', 3), ("Cell.new(i)", 1), ("Cell.new([i])", 2), ("St.new(i, 2)", 1), ("i..(i + 1)", 1), ("(2**70) + i", 1), ("i * 1e-200", 1),
         ("Object.new", 1), ("Key.new(i)", 1), ('"x" * (i % 50)', 1), ("Complex(i, 2**66)", 2), ("RuntimeError.new", 1), ("Cell.new(i).method(:iv)", 2), ("Cell.instance_method(:iv)", 1), ('/a#{i % 9}/', 1), ("Time.now", 1),
         ("holder_l(i)", 1), ("holder_p([i])", 2), ("[i].each", 2), ("holder_b(i)", 1), ('c = Cell.new(i); c.next = c; c', 1), ("a = [i]; a << a; a", 1), ("h = {}; h[:a] = [h]; h", 2), ("x = Cell.new(1); x.iv = lambda { x }; x", 2),
         ('"a#{i}b".split("")', 3), ("[i].map { |z| [z] }", 2), ("[[i]].flatten", 1), ("St.new([i], St.new(1, 2))", 3), ("Hash.new { |h, k| 1 }", 1), ("Cell.new(i).dup", 1), ('"q#{i}".dup.clone', 1), ("Bad.new([i])", 2),
         ("holder_e([i])", 2), ("Fiber.new { i }", 1))
FEW = (("holder_f([i])", 2), ("holder_f2([i])", 2), ("holder_en([i])", 2), ("Class.new", 1), ("Class.new(Cell).new(i)", 2), ("Module.new", 1), ("o = Cell.new(i); o.singleton_class; o", 2), ("o = Cell.new(i); def o.zz; 1; end; o", 2),
       ("o = Cell.new(i); o.extend(Comparable); o", 2))
# ways to put N elements together; E the element
SHAPES = ("(1..N).map { |i| E }", "t = []; i = 0; while i < N; t << (E); i += 1; end; t", "t = {}; N.times { |i| t[i] = (E) }; t", "t = nil; N.times { |i| t = Cell.new((E), t) }; t", "t = []; N.times { |i| t = [t, (E)] }; t",
          "Array.new(N) { |i| E }", "t = {}; N.times { |i| t[Key.new(i)] = (E) }; t", "t = St.new(1, 2); N.times { |i| t = St.new((E), t) }; t", "N.times.map { |i| E }", "t = [[], []]; N.times { |i| t[i % 2].unshift(E) }; t",
          "t = nil; N.times { |i| x = (E); y = t; t = lambda { [x, y] } }; t", "t = {}; N.times { |i| t[[i]] = (E) }; t", 't = {}; N.times { |i| t["k#{i}"] = (E) }; t', "t = nil; N.times { |i| t = {a: t, b: (E)} }; t")
# places: (keep V, let go). V is the value
PLACES = (("$h = V", "$h = nil"), ("$c.iv = V", "$c.iv = 1"), ("$a[3] = V", "$a.clear"), ("$a.push(V)", "$a.pop"), ("$a.unshift(V)", "$a.shift"), ("$a << V", "$a = []"), ("$a = [1, V, 2]", "$a[1, 1] = []"), ("$a = [1, V, 2]", "$a.slice!(0, 2)"),
          ("$a = [1, V]", "$a.map! { |x| 1 }"), ("$a = [V]", "$a.fill(0)"), ("$a = [V, 1]", "$a.compact!; $a.rotate!; $a.pop"), ("$m[:k] = V", "$m.delete(:k)"), ("$m[:k] = V", "$m.clear"), ("$m[:k] = V", "$m[:k] = 1"), ("$m[$c] = V", "$m.delete($c)"),
          ("$l = holder_l(V)", "$l = nil"), ("$l = holder_p(V)", "$l = nil"), ("$l = holder_b(V)", "$l = nil"), ("$l = holder_f(V)", "$l = nil"), ("$l = holder_f0(V)", "$l = nil"), ("$l = holder_f2(V)", "$l = nil"),
          ("$l = holder_e(V)", "$l = nil"), ("$l = holder_en0(V)", "$l = nil"), ("$l = holder_m(V)", "$l = nil"), ("$l = holder_m(V).unbind; $h = V", "$l = $h = nil"), ("Hold.iv = V", "Hold.iv = 0"),
          ("Hold.new.cv = V", "Hold.new.cv = 0"), ("l = V", "l = nil"), ("l = [V]", "l = 1"), ("u, l = 1, V", "u, l = 2, 3"), ("l = V; k = l; l = 1", "k = l"), ("l = holder_l(V)", "l = 0"), ("$st.m = V", "$st.m = 0"), ("@iv = V", "@iv = 3"),
          ("l = lambda { V }.call", "l = 0"), ("$h = nil; $h ||= V", "$h = nil"), ("$c.instance_variable_set(:@zz, V)", "$c.instance_variable_set(:@zz, 1)"), ("$l = $c.dup; $l.iv = V", "$l = $c"), ("$b.eval('q_ = 0'); $h = V; $b.eval('q_ = $h'); $h = 0", "$b.eval('q_ = 1')"),
          ("$l = 'a#{}'.singleton_class; $l.instance_variable_set(:@q, V)", "$l = nil"), ("eval('l = V2')", "l = 0"), ("$e = begin; raise Bad.new(V); rescue => e; e; end", "$e = nil; e = nil"), ("$l = V.each rescue $l = [V].each", "$l = nil"),
          ("$l = lambda { |x = V| lambda { x } }.call", "$l = nil"), ("$l = [V, 1].map { |x| lambda { x } }", "$l.clear"), ("for l in [V] do end", "l = 1"), ("$l = Class.new { @z = 1 }; $l.instance_variable_set(:@z, V)", "$l = 0"),
          ("$h = V; $l = [$h] * 3; $h = 1", "$l.uniq! rescue 0; $l.clear"), ("$l = {1 => V}.merge({2 => 3})", "$l = $l.reject { |k, z| k == 1 }"))
# values used and gone at the end of the statement
TRANSIENT = ("use([V])", "yielder(V) { |x| [x] }", "[V].each { |x| [x] }", "[V].map { |x| x }.select { |x| true }", "early(V)", "begin; raiser(V); rescue => e; end; e = nil", "deep_(20, V)", "opt_(V)", "opt_(1, 2, V, k: V)", "lambda { |x| [x] }.call(V)",
             "begin; [1].each { |i| x = V; raise 'q' }; rescue => e; e = nil; end", "begin; t = V; ensure; t = 0; end", "[V].inject(0) { |a, b| a }", "[V] + [V]", "Fiber.new { |x| [x] }.resume(V)",
             "Fiber.new { |x| Fiber.yield x; 1 }.resume(V)", "[V].each.next", "Cell.new(V).send(:iv)", "Cell.new(V).method(:iv).call", "[[V, 1]].each { |x, y| y }", "(l = V) && (l = 0)", "[1].each { |i| x = V; break }",
             "while true; w = V; break; end; w = 0", "case V when Integer then 1 else 2 end", "eval('V2; 1')", "binding.eval('V2; 1')", "w = V; w = w.size rescue w = 0", "a = [V, V]; a, b = 1, 2", "{V => 1}.size", "{1 => V}.values.size",
             "V; nil", "$c.iv, l = V, 2; $c.iv = 1", "loop { x = V; break }", "[3, 1].sort_by { |q| x = V; q }", "def tmp_; V; 1; end; tmp_", "lambda { V; return 1 }.call", "proc { |*r| next 1 }.call(V)", "[V].zip([V]).size", "([1] * 3).each_with_index { |q, i| x = V if i == 1 }",
             "Cell.new(V).dup.clone.iv.class", "opt_(*[V])", "use([*[V], 1])", "begin; Integer(V); rescue => e; e = nil; end", "begin; V + nil; rescue => e; e = nil; end", "begin; V.zork(V); rescue => e; e = nil; end", "$m.fetch(V) { 1 } rescue 0", "St.new(V, 2).m.class",
             "'a'.gsub(/a/) { x = V; 'b' }", "5.times { |i| x = (i == 2 ? V : 1) }", "rand; V.hash rescue 0")


def value(r, n):
    """An expression for data of about n objects; the least number of objects in it."""
    if r.random() < 0.12:
        e, k = r.choice(FEW)
        n = min(n, 120)
    else:
        e, k = r.choice(ELEMS)
    s = r.choice(SHAPES)
    least = n * k
    v = s.replace("N", str(n)).replace("E", "(%s)" % e)
    # no variable of the code around it
    v = re.sub(r"(?<![:@$.\w\"/])([txyahociz])\b(?!:)", r"\1v", v)
    return "lambda { %s }.call" % v, least


def put(text, v):
    if "V2" in text:
        return text.replace("V2", v.replace("\\", "\\\\").replace("'", "\\'"))
    return text.replace("V", "(%s)" % v)


SETUP = "$a = [0]; $m = {0 => 1}; $c = Cell.new(0); $st = St.new(0, 0); $l = $h = $e = nil; $b = binding\n"
SLACK = 60


def holding(r):
    """Phases of keeping and letting go. The numbers are judged by the two functions below."""
    src = SETUP + "base = probe\nputs base.inspect\n"
    steps = []
    held = []
    for _ in range(r.choice((2, 3, 4))):
        k = r.random()
        n = r.choice((300, 700, 1500, 4200))
        if k < 0.4:
            v, least = value(r, n)
            src += "begin\n  %s\nrescue StandardError => e\n  e = nil\nend\nputs probe.inspect\n" % put(r.choice(TRANSIENT), v)
            steps.append(("gone", sum(x for x in held)))
        else:
            p = r.randrange(len(PLACES))
            v, least = value(r, n)
            if "V; $l = [$h] * 3" in PLACES[p][0]:
                pass
            src += "%s\nputs probe.inspect\n" % put(PLACES[p][0], v)
            steps.append(("kept", least))
            if r.random() < 0.3:
                src += "GC.start\n%s\nputs probe.inspect\n" % r.choice(("200.times { |i| [i.to_s] }", "5000.times { |i| [i.to_s] }", "GC.start", "x_ = [1] * 9; x_ = nil"))
                steps.append(("kept", least))
            src += "%s\nputs probe.inspect\n" % PLACES[p][1]
            steps.append(("gone", 0))
    if r.random() < 0.5:
        src = "def c_hold\n%send\nc_hold\n" % src if "def tmp_" not in src else src

    def judge(lines):
        if any(not x.startswith("[") for x in lines):
            return "the program did not run: %r" % [x for x in lines if not x.startswith("[")][0][:200]
        rows = [[int(y) for y in x[1:-1].split(",")] for x in lines]
        if len(rows) != len(steps) + 1:
            return "%d probes instead of %d" % (len(rows), len(steps) + 1)
        base = rows[0]
        top = 0
        for i, (s, row) in enumerate(zip(steps, rows[1:])):
            d = row[0] - base[0]
            if s[0] == "kept" and d < s[1]:
                return "step %d: at least %d objects are reachable, the collector counts %d more than before" % (i, s[1], d)
            if s[0] == "gone" and d > SLACK:
                return "step %d: everything was let go, %d objects are still counted as live" % (i, d)
            if row[3] != rows[i][3] + 2 and row[3] < rows[i][3] + 2:
                return "step %d: two explicit collections, the count went from %d to %d" % (i, rows[i][3], row[3])
            if row[4] < rows[i][4] + (s[1] if s[0] == "kept" and steps[i - 1][0] != "kept" else 0):
                return "step %d: fewer objects were allocated in total than are reachable" % i
            # live + free are the cells handed out in the active pages; the current page may have cells never handed out
            cells = row[0] + row[2]
            if not (row[1] - 1) * 4032 <= cells <= row[1] * 4032:
                return "step %d: %d live and %d free cells do not fit %d pages" % (i, row[0], row[2], row[1])
        return None
    return Case(src, judge=judge, tags=("hold",), ctx="top" if src.startswith("def c_hold") or "def " in src.split("probe")[1] else r.choice(("top", "def")), alone=True)


LOOPS = ("i.to_s", "[i, i]", "{i => i}", '"a#{i}"', "i * 1.5e300", "(2**70) + i", "[1, 2].each { |z| z }", "[1, 2].map { |z| z.to_s }", "Object.new", "St.new(1, 2)", "Cell.new(i)", "Cell.new(i).to_s",
         'Cell.new(i).instance_variable_set("@k#{i % 7}", 1)', 'begin; raise "x"; rescue => e; end', "begin; raise Bad.new(i); rescue => e; end", "begin; foo_bar; rescue => e; end", 'begin; [1].each { |z| raise "q" }; rescue; end',
         "begin; 1 / 0; rescue ZeroDivisionError; end", "(1..3).to_a", "(i..i + 3).map { |z| z }", "1..i", '"abc".gsub(/b/) { "c" }', '"abc" =~ /b/', '"a b".split(" ")', '"%d" % i', "use([i])", "yielder(i) { |z| z }", "use([*[i], 2])", "opt_(i, k: 2)",
         "Cell.new(i).method(:iv)", "Cell.new(i).method(:iv).unbind", "Cell.new(i).send(:iv)", "Complex(i, 1) + 1", "Time.now", "[3, 1, 2].sort", "[3, 1, 2].sort_by { |z| z.to_s }", "[[1, 2], [3]].flatten", "[1, [2]].inspect", "{a: 1}.inspect",
         "yielder(i) { |z| early([z]) }", "[1].each { |z| break z }", "loop { break }", "x = [i]; x << x", "x = {}; x[:s] = x", "[i.to_s, 2].uniq rescue 0", "$h = [i]", '@iv = [i, "s"]', "x, y = [i, [i]]", "deep_(5, [i])", "Cell.instance_method(:iv)",
         "Cell.new(i).respond_to?(:k)", '"a".succ.succ', '"abcabc".scan(/b./)', '"abc".tr("a", "b")', "{1 => 2}.merge({3 => i}).select { |a, b| a }", "[1, 2].inject(0) { |a, b| a + b }", "Cell.new(i).instance_exec(1) { |z| @k }", "Cell.new(i).dup.clone",
         "[Cell.new(i)] == [Cell.new(i)]", '"abc".each_char { |z| z }', "$m[i % 50] = [i]", "$a[i % 90] = i.to_s", "$a.push([i]); $a.shift if $a.size > 30", "$a.unshift([i]); $a.pop if $a.size > 30", '$m["k#{i}"] = 1; $m.delete("k#{i - 20}")',
         '$s << "x"; $s.replace("") if $s.size > 50', '"x" * 3000', "[nil] * 500", '("ab" * 20) =~ /(a)(b)/; $1', '"é" * (i % 30)', "begin; early([i]); ensure; [i]; end", "[[i, 2], [3, 4]].transpose", "[i].zip([2])", '[i, "b"].join("-")', "[i].pack(\"U\") rescue 0",
         "$a[0, 2] = [i, [i]]; $a.slice!(1, 1)", "t = [1, 2, 3]; t.map! { |q| [q] }", '"abc".sub("b", "d")', '"a#{i}".upcase.downcase', "(2**100).to_s", "(2**(i % 90)).digits", "3.7e200.to_s", "i.chr rescue 0", "[2.5, 1.5].max", "GC.stat", "GC.count",
         "$f.resume", "$en.next")
# known not to give back their memory (the object cells are)
LEAKY = (("closures", "proc { |z| z }.call(i)"), ("closures", "[1, 2].each { |z| lambda { z } }"), ("closures", "binding"), ("closures", "holder_l(i)"), ("classes", "Class.new"), ("classes", "Struct.new(:a)"), ("classes", "o = Cell.new(i); o.singleton_class"),
         ("eval", 'eval("1 + i")'), ("eval", '$b.eval("q = 1")'), ("eval", '"a".to_sym.to_proc'))


def looping(r, body, n, key=None):
    """The same garbage over and over: after a quarter of the loop and at its end the heap is of the same size."""
    form = r.choice(("i = 0\nwhile i < %d\n  %s\n  i += 1\nend\n", "%d.times { |i| %s }\n", "1.upto(%d) { |i| %s }\n", "i = 0\nloop do\n  break if i >= %d\n  %s\n  i += 1\nend\n", "(0..%d).each { |i| %s }\n", "for i in 1..%d do\n  %s\nend\n"))
    per = r.choice((1, 1, 3))
    body = "; ".join(body)
    src = SETUP + "$s = ''; $f = Fiber.new { loop { Fiber.yield [1] } }; $en = Fiber.new { 1 }; $en = (1..(10**9)).each\n"
    one = form % (n // 4, body)
    src += one + "puts probe.inspect\n" + one * 3 + "puts probe.inspect\n"
    del per

    def judge(lines):
        if any(not x.startswith("[") for x in lines) or len(lines) != 2:
            return "the program did not run: %r" % lines[-1:]
        a, b = ([int(y) for y in x[1:-1].split(",")] for x in lines)
        if b[0] > a[0] + SLACK:
            return "%d live objects after a quarter of the loop, %d at its end" % (a[0], b[0])
        if b[1] > a[1] + 4:
            return "%d heap pages after a quarter of the loop, %d at its end" % (a[1], b[1])
        if b[5] > a[5] + 200000 + 4 * n:
            return "%d bytes of memory in use after a quarter of the loop, %d at its end" % (a[5], b[5])
        if b[3] <= a[3] + 2 and b[4] > a[4] + 30000:
            return "%d objects were allocated and no collection ran" % (b[4] - a[4])
        return None
    return Case(src, judge=judge, tags=("loop",), alone=True, key=key, ctx=r.choice(("top", "def")) if "def " not in body else "top")


def batches(r, elems, n, sizes=(5000, 9000, 14000)):
    """Pages full of objects are filled and emptied, again and again: the memory in use has to stay the same."""
    size = r.choice(sizes)
    body = "t = []; k = 0; while k < %d; %s; k += 1; end; t = nil; a = h = x = c = o = nil; GC.start" % (size // len(elems), "; ".join("t << (%s)" % re.sub(r"\bi\b", "k", e) for e in elems))
    case = looping(r, [body], 0)
    one = "i = 0\nwhile i < %d\n  %s\n  i += 1\nend\n"
    case.src = SETUP + "$pr = proc { 1 }\n" + one % (n // 4, body) + "puts probe.inspect\n" + one % (n - n // 4, body) + "puts probe.inspect\n"
    case.ctx = "top"
    return case


def switching(r):
    """GC.enable, disable, count and stat agree with what was done."""
    src = "on = true\n"
    want = []
    on = True
    n = 0
    src += "GC.enable\nc0 = GC.count\n"
    for _ in range(r.randint(3, 8)):
        k = r.random()
        if k < 0.3:
            src += "v GC.disable\n"
            want.append("=%s" % ("true" if on else "false"))
            on = False
        elif k < 0.6:
            src += "v GC.enable\n"
            want.append("=%s" % ("true" if on else "false"))
            on = True
        elif k < 0.8:
            src += "c = GC.count; v GC.start; v(GC.count - c)\n"
            want += ["=nil", "=%d" % (1 if on else 0)]
        elif not on:
            src += "c = GC.count; t = GC.stat[:total_allocated_objects]; x = (1..%d).map { |i| [i] }; x = nil; v(GC.count - c); v(GC.stat[:total_allocated_objects] - t >= %d)\n" % (n + 3000, n + 3000)
            want += ["=0", "=true"]
        else:
            src += "s = GC.stat; v(s[:count] == GC.count); v(s.keys.size >= 5)\n"
            want += ["=true", "=true"]
    src += "GC.enable\nGC.start\n"
    return Case(src, want, ("switch",), ctx="top")


def check(chk):
    chk.rule = ("programs which keep a known number of objects reachable from one kind of place, let go of them and ask the collector for its numbers after each step; loops which produce the same garbage over and over, "
                "whose heap pages, live objects and bytes have to be the same after a quarter of the loop and at its end; GC.enable, disable, start, count, stat; and the programs of the other checks under forced and under "
                "default collections with a full audit of the heap (every cell live or free exactly once) after each of them; distinct by source text")
    chk.assumptions = ["a few dozen objects may be kept by values left on the stack, match variables and the like",
                       "bytes are those the program's allocator handed out and did not take back"]
    r = chk.rng("c02")
    chk.run([holding(r) for _ in range(chk.scale(1100, 16000))], prelude=PRELUDE + PRE, mon="audit,stats")
    cases = []
    n = chk.scale(20000, 120000)
    for b in LOOPS:
        cases.append(looping(r, [b], n))
    for _ in range(chk.scale(40, 1500)):
        cases.append(looping(r, [r.choice(LOOPS) for _ in range(r.randint(2, 4))], n))
    for key, b in LEAKY:
        cases.append(looping(r, [b], n, key))
    for e, _ in ELEMS:
        if not re.search(r"holder_|lambda|Hash.new|\{ \|z\||Fiber", e):
            cases.append(batches(r, [e], 12))
    for e in ("[i].each", "Fiber.new(&$pr)", "[[i].each, i.to_s]", "5.times", "$c.to_enum(:iv)", "(1..i).each"):
        cases.append(batches(r, [e], 24, (500, 1000)))
    for _ in range(chk.scale(25, 400)):
        cases.append(batches(r, [r.choice([e for e, _ in ELEMS if not re.search(r"holder_|lambda|Hash.new|\{ \|z\||Fiber", e)]) for _ in range(r.randint(2, 4))], 12))
    chk.run(cases, prelude=PRELUDE + PRE, mon="audit,stats")
    chk.run([switching(r) for _ in range(chk.scale(300, 5000))], mon="audit,stats", size=10)
    k = chk.seed * 1000
    g = [gcgen.build(r) for _ in range(chk.scale(800, 14000))]
    for case in g:
        case.judge = lambda lines: None
    mons = ("audit,stats", "gc=rand:%d:5,audit,poison,stats" % (k + 1), "gc=rand:%d:40,audit,stats" % (k + 2))
    for i in range(3):
        chk.run(g[i::3], size=40, prelude=PRELUDE + gcgen.PRE, mon=mons[i])
    j = 0
    for p in OTHERS:
        c = Collector(chk, p, chk.scale(250, 3000))
        importlib.import_module("p_" + p.lower()).check(c)
        for prelude, cs in c.groups:
            cs = [case for case in cs if not case.key]
            for case in cs:
                case.tags = ("from-" + p,)
            chk.run(cs, size=60, prelude=prelude, mon=mons[j % 3])
            j += 1
