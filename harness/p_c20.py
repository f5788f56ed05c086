"""C20: hostile programs on a build with AddressSanitizer; any report, signal or broken invariant is a violation."""
import importlib

import gcgen
from core import PRELUDE, Case, Collector

OTHERS = ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C22", "C23", "C24")

PRE = r"""
def churn(n)
  a = []
  n.times { |i| a << "x" * (i % 60); a << [i] * (i % 12); a << {i => a.size}; a << [i, i].map { |x| [x] }; a << lambda { i } }
  n > 3 ? GC.start : nil
  nil
end
class U
  include Comparable
  attr_accessor :k
  def initialize(k)
    @k = k
  end
  def evil(w)
    if $left > 0
      $left -= 1
      $act.call(w)
    end
  end
  def ==(o)
    evil(1)
    U === o && @k == o.k
  end
  def <=>(o)
    evil(2)
    U === o ? @k <=> o.k : nil
  end
  def ===(o)
    evil(3)
    true
  end
  def to_s
    evil(4)
    "u#{@k}"
  end
  def inspect
    evil(5)
    "U#{@k}"
  end
  def coerce(o)
    evil(6)
    [o, @k]
  end
  def each
    evil(7)
    yield @k
    evil(8)
    yield self
    self
  end
  def to_proc
    evil(9)
    lambda { |*a| evil(10); a.size }
  end
  def to_a
    evil(11)
    [@k, self]
  end
  def +(o)
    evil(12)
    @k
  end
  def [](i)
    evil(13)
    i
  end
  def []=(i, x)
    evil(14)
    @k = x
  end
  def method_missing(*a)
    evil(15)
    a.size
  end
end
def ps(x)
  x
  nil
end
def opt(a, b = $act.call(20), *c, k: $act.call(21), &blk)
  [a, b, c, k]
end
S = Struct.new(:m, :n)
"""

def items(text):
    """Splits at line ends and at bars that are not inside of braces."""
    out, cur, depth = [], "", 0
    for ch in text:
        if ch in "{([":
            depth += 1
        elif ch in "})]":
            depth -= 1
        if ch == "\n" or ch == "|" and depth <= 0:
            out.append(cur)
            cur, depth = "", 0
        else:
            cur += ch
    return [x for x in out + [cur] if x]


ARRAY_ACTS = items("""$a.clear|$a.pop|$a.shift|$a.push(1, 2, 3)|300.times { |i| $a << i } if $a.size < 200|$a.unshift($a.size)|$a.concat($a) if $a.size < 200|$a.compact!
$a.uniq!|$a.reverse!|$a.rotate!|$a.fill(0)|$a.slice!(0, 3)|$a.slice!(1)|$a[0, 2] = []|$a[40] = 1|$a[0] = $a|$a[1, 1] = [1] * 70
$a.map! { 1 }|$a.delete($a[0])|$a.flatten!|$a[0, 0] = $a|$a.clear; churn(9)|$a = [1]; churn(9)|$a.push(*$a) if $a.size < 200|$a.clear; $a.push("y" * 40, U.new(3))
$a.collect! { |x| $a.clear; x }|$a[-1] = nil|$a.select { |x| $a.shift }""")
HASH_ACTS = items("""$h.clear|$h[$h.size] = 1|100.times { |i| $h[i + 1000] = [i] }|$h.delete($h.keys[0])|$h[:z] = $h|$h.compare_by_identity|$h = {}; churn(9)
$h.clear; churn(9)|$h[$a] = 1|$h[$s] = $a|$h.keys.each { |k| $h.delete(k) }|$h.merge({1 => 2})|$h.each { |k, v| $h[v] = k; break }""")
STR_ACTS = items("""$s << "q" * 90|$s.replace("")|$s.replace("z" * 200)|$s[0] = "ww"|$s[0, 3] = ""|$s.upcase|$s.gsub!(/./) { "kk" }|$s.chomp!|$s << $s if $s.size < 500|$s.slice!(0)
$s = "n"; churn(9)|$s.replace(""); churn(9)|$s.sub!("a", "b") rescue 0""")
OTHER_ACTS = items("""GC.start|churn(5)|churn(40)|$keep << binding|$keep << lambda { w }|raise "hostile"|Fiber.yield(w) rescue 0|$f.resume rescue 0|$keep.clear; GC.start
$o.instance_variable_set("@k", [1] * 50)|$o.singleton_class|$o.extend(Comparable)|class U; def extra_; 1; end; end|eval("w + 1")|$left += 1
$keep << Fiber.new { Fiber.yield 1; 2 }; $keep[-1].resume|Fiber.new { Fiber.yield $a.dup }.resume|$e.next rescue 0|$st.m = $st|$st.n = "n" * 77|$act2.call(w)
$o.k = [2, "k" * 50]|$x = [$x, $x]|ObjectSpace rescue 0""")

# %B: a block or a callable with the hostile action in it; %U an object with hostile methods
ARRAY_USES = items("""$a.each %B|$a.each_with_index %B|$a.map %B|$a.collect %B|$a.map! %B|$a.flat_map %B|$a.select %B|$a.reject %B|$a.filter %B|$a.find %B|$a.detect %B
$a.partition %B|$a.sort %B|$a.sort_by %B|$a.count %B|$a.find_index %B|$a.index %B|$a.any? %B|$a.all? %B|$a.inject(1) %B|$a.reduce(0) %B|$a.uniq %B|$a.uniq! %B
$a.min %B|$a.max %B|$a.fill %B|$a.delete(%U) %B|$a.bsearch %B|$a.bsearch_index %B|$a.drop(1).each %B|$a.zip($a) %B|$a.grep(U) %B|$a.grep(%U) %B|$a.each.next|$a.cycle %B rescue 0
$a.include?(%U)|$a.index(%U)|$a.delete(%U)|$a.count(%U)|$a - [%U]|$a & [%U] rescue 0|$a == $a.dup|$a == [%U, %U]|[%U] == $a|$a <=> [%U, 1]|[%U, 1] <=> $a|$a != $a.map { |x| x }
$a.sort|$a.min|$a.max|$a.uniq|$a.flatten|$a.join("-")|$a.join(%U) rescue 0|$a.inspect|$a.to_s|$a.transpose rescue 0|$a.zip(%U) rescue 0|$a.inject(:+)|$a.reduce(:+)|$a.map(&%U)|$a.each(&%U)
$a.map(&:to_s)|$a.map(&:inspect)|$a.sort_by { |x| %U }|$a + [%U].map %B|$a * %U rescue 0|[*%U]|[*$a, $act.call(30), *$a]|$a.push(*$a, *%U)|opt(*$a) %B|opt(%U)|ps($a.first) %B|$a.first(2).each %B
$a.last(3).map %B|$a[0..2].each %B|$a.each_slice(2) %B|$a[$act.call(31) ? 0 : 1]|$a[0], $a[1] = $act.call(32), 5|$a[0] = $act.call(33)|$a[0] += ($act.call(34); 1)|$a << ($act.call(35); $a.size)|$a.push($act.call(36), $a.pop)
x, y = *$a, $act.call(37)|case $a when %U then 1 when [%U] then 2 end|$a.pack("C*") rescue 0|"%s %p" % [%U, $a]|"%d" % %U rescue 0|$a.combination(2) rescue 0
yielder($a) %B|$a.each { |x| $a.each { |y| $act.call(38) } }|$a.map { |x| $a.map %B }|$a.each_with_index { |x, i| $a.slice!(i) }|$a.each { |x| $a.unshift(x) if $a.size < 50 }|$a.map { |x| next x if $act.call(39); x }
$a.each { |x| break $act.call(40) }|$a.to_enum(:each).map %B rescue 0|$a.each.with_index %B|$a.map.with_index %B|$a.sort { |x, y| $a.sort { |x, y| $act.call(41); 0 }; 1 }|$a.fill { |i| $act.call(42); i }""")
HASH_USES = items("""$h.each %B|$h.each_pair %B|$h.each_key %B|$h.each_value %B|$h.select %B|$h.reject %B|$h.filter %B|$h.find_all %B|$h.sort %B|$h.merge($h) %B|$h.delete(%U) %B|$h.fetch(1) %B rescue 0|$h[%U]|$h[%U] = 1|$h.inspect|$h.to_s
$h == $h.dup|$h == {1 => %U}|{1 => %U} == {1 => %U}|$h.has_value?(%U)|$h.invert|$h.sort|$h.keys.map %B|$h.values.each %B|$h.each { |k, v| $h.each %B }|$h.each { |k, v| $h.delete(k) }|$h.each { |k, v| $h[[k]] = v if $h.size < 90 }|{$a => 1}[$a]
$h[$act.call(50)] = $act.call(51)|{1 => $act.call(52)}|$h.each { |k, v| break $act.call(53) }|opt(1, **$h) rescue 0|opt(1, k: $act.call(54))|$h.map %B rescue 0|$h.each_with_index %B rescue 0|$h[$s] = ($act.call(55); 2)
(h = $h)[$a] = $act.call(56)
$h.merge({%U => 1})|$h.each.next rescue 0|$h.compact.each %B|$h.clear.each %B""")
STR_USES = items("""$s.gsub(/./) %B|$s.gsub!(/./) %B|$s.sub(/a/) %B|$s.gsub(/(a)|(b)/) { $act.call(60); $1.to_s }|$s.scan(/./) %B|$s.scan(/(a)(b)?/) %B|$s.each_char %B|$s.each_byte %B|$s.chars.each %B|$s.lines.each %B|"#{%U}#{$s}#{$act.call(61)}"
$s + %U.to_s|$s << "#{%U}"|"a#{$s << "r"}b#{$s}"|$s % [%U]|"%s" % %U|$s =~ /#{%U}/|$s == %U|$s === %U|$s <=> %U|$s[($act.call(62); 0)]|$s[0] = ($act.call(63); "m")|$s.split("").each %B|$s.bytes.map %B|$s.sub("a") %B rescue 0|$s.tr("a-c", "x").each_char %B
`echo` if false|$s.to_sym.inspect|$s * ($act.call(64); 2)|$s.center(($act.call(65); 20))|$s.start_with?("#{%U}")|puts_(%U)|$s.codepoints.each %B|$s[/(.)(.)/, ($act.call(66); 1)] rescue 0|$s.match(/./) %B|$s.match(/./).size rescue 0|$s.each_char { |c| $s << c if $s.size < 400 }
$s =~ /(.)/; $act.call(67); ps($1 + $&)|$s.scan(/./) { |c| $s.replace("") }|$s.replace($s)|$s << $s|$s.insert(0, $s) rescue 0""")
OTHER_USES = items("""(%U..%U).to_a rescue 0|(%U..%U).include?(%U)|(1..5).each %B|(1...9).map %B|(1..%U) rescue 0|(%U..%U) == (%U..%U)|5.times %B|1.upto(6) %B|1.step(9, 2) %B|9.downto(1) %B|loop { $act.call(70); break if ($n += 1) > 3 }|1 + %U rescue 0|1.0 * %U rescue 0|1 <=> %U|2 == %U
%U == 1|%U < %U|%U >= 1 rescue 0|[%U, %U, %U].sort|[%U, %U].max|%U.clamp(1, 2) rescue 0|%U.between?(%U, %U) rescue 0|%U.each %B|%U + 1|%U[$act.call(71)]|%U[$act.call(72)] = $act.call(73)|%U.foo($act.call(74)) %B|for x in $a do $act.call(75) end|for x, y in $h do $act.call(76) end
for x in %U do ps(x) end|while ($n += 1) < 4 do $act.call(77) end|begin; $act.call(78); rescue => e; $keep << e; ensure; $act.call(79); end|begin; raise "#{%U}"; rescue => e; $act.call(80); e.message; e.backtrace; end|begin; raise U; rescue %U => e; 1; rescue TypeError; 2; end
$f.resume|$f = Fiber.new { $a.each { |x| Fiber.yield x; $act.call(81) } }; 3.times { $f.resume }|$f = Fiber.new { $h.each { |k, v| Fiber.yield k } }; $f.resume; $act.call(82); $f.resume|$e = $a.each; $e.next; $act.call(83); $e.next|$e = $s.each_char rescue 0|$e = (1..3).each; $e.next
Fiber.new { |x| $act.call(x); Fiber.yield 2; 3 }.resume(84)|Fiber.new { $f = nil; churn(8); $act.call(85) }.resume|Fiber.new { raise "in fiber" }.resume|fs = (1..5).map { |i| Fiber.new { Fiber.yield i; $act.call(86) } }; fs.each { |f| f.resume }; fs = nil; churn(8)
$st.to_s|$st.inspect|$st.m = %U; $st.inspect|S.new(%U, $a).inspect|$o.inspect|$o.to_s|$o.dup.inspect|$o.clone.k|[$o, %U].uniq|$o.send(:k=, $act.call(87))|$o.method(:k).call|%U.method(:==).unbind.bind(%U).call(1)|$o.instance_variables|$o.instance_exec($a) %B|$keep.each { |k| k.call(1) if Proc === k }
eval("$a.each { |x| $act.call(88) }")|binding.eval("w = $act.call(89); w")|b = binding; b.eval("zz = $a.dup"); $act.call(90); b.eval("zz.size")|l = lambda { |x = $act.call(91), *y| y }; l.call; l.call(1, *$a)|proc { |*x, y| $act.call(92); x }.call($a)|proc { |x, y, *z| $act.call(93); z }.call($a)
proc { |x, y| $act.call(94); y }.call($a)|def tmp_(x, y = ($act.call(95); x)); y; end; tmp_($a)|[1, 2].each { |x| define_later(x) { $act.call(96) } }|Complex(1, 2) + %U rescue 0|Integer(%U) rescue 0|rand(%U) rescue 0|$a.hash rescue 0|$x.inspect.size|$x == $x.dup|[$x].flatten.size|{$x => 1}.size
$a.frozen?|Comparable.instance_method(:<).bind(%U).call(%U)|%U =~ 1 rescue 0|Array(%U) rescue 0|exit_ %B rescue 0|$keep.map(&:class)|Module.new { $act.call(97) }|Class.new(U) { $act.call(98) }.new(1) == 1|$o.singleton_class.class_eval { def k; $act.call(99); end }; $o.k|at = :k; $o.respond_to?(at)
def rec(n, &b); n == 0 ? b.call(n) : rec(n - 1, &b); end; rec(30) %B|def rec2(n); n == 0 ? $act.call(100) : [1].each { rec2(n - 1) }; end; rec2(12)|x = 0; [1, 2].each { |i| x += i; $keep << lambda { x += 1 }; $act.call(101) }; $keep[-1].call if Proc === $keep[-1]""")
SPECIAL_IDX = ("0", "1", "-1", "2", "-3", "7", "100", "-100", "4611686018427387903", "-4611686018427387904", "9223372036854775807", "-9223372036854775808", "18446744073709551616", "-(2**70)", "1e30", "-1e30",
               "2.5", "nil", '"a"', "U.new(1)", "0..2", "-2..-1", "1..100", "5..2", "-100..5", "0...0", "3..-4611686018427387904", "-9223372036854775808..9223372036854775807", "(0..2**70)", "[]", ":a", "0.0/0.0")
IDX_USES = items("""$a[%I]|$a[%I, %I]|$a.slice!(%I)|$a.slice!(%I, %I)|$a.first(%I)|$a.last(%I)|$a.drop(%I)|$a.rotate!(%I)|$a.fetch(%I)|$a.pop(%I)|$a.shift(%I)|$a.bsearch { %I }|$a.flatten(%I)|$s[%I]|$s[%I, %I]|$s.slice!(%I)|$s.slice!(%I, %I)|$s[%I] = "x"|$s[%I, %I] = "yy"|$s[/(a)(b)/, %I]
$s.to_i(%I)|$s.sum(%I)|$s.count(%I)|5[%I]|(2**70)[%I]|5 >> %I|(2**70) >> %I|5.digits(%I)|5.to_s(%I)|255.chr(%I)|%I.chr|%I.to_s|%I.succ|%I.inspect|[%I].pack("C")|[%I].pack("U")|[%I, %I].pack("C*")|[%I].min|[%I, %I].max|[%I, %I].sort|[%I].include?(%I)|%I == %I|%I <=> %I|%I.eql?(%I)|{%I => 1}[%I]|5.pow(%I % 9)
%I & %I|%I | %I|%I ^ %I|~%I|-%I|%I % %I|%I.divmod(%I)|%I.div(%I)|%I.floor(%I)|%I.abs|%I.bit_length|%I.to_i|%I.to_f|%I.gcd(%I)|%I.lcm(%I)|%I.fdiv(%I)|Math.sqrt(%I)|$s =~ %I|$s.tr(%I, "b")|$s.split(%I)|$s.split("a", %I)|$s.start_with?(%I)|$s.sub(%I, "x")|$s.gsub(%I, "x")|$s + %I|$a + %I|$a - %I|$h[%I]
$a <=> %I|$a == %I|$a.count(%I)|$a.index(%I)|$a.delete(%I)|$a.join(%I)|$a.zip(%I)|$a.concat(%I)|$a.transpose|$h.merge(%I)|$h.fetch(%I)|Integer(%I)|rand(%I)|Complex(%I, %I)|(%I..%I)|(0..5).first(%I)|(0..5).last(%I)|(1..4).include?(%I)|$o.send(%I)|$o.method(%I)|$o.respond_to?(%I)|$o.instance_variable_get(%I)|U.instance_method(%I)
U.const_get(%I)|Fiber.new { |x| x }.resume(%I)|$e.next(%I)|$s.each_char(%I)|Regexp.escape(%I)|Regexp.last_match(%I)|1.step(5, %I) { break }|1.upto(%I) { break }|%I.times { break }|3.downto(%I) { break }|[1, 2, 3].fill(7, %I % 5)|$a.find_index(%I)|$s.ord|"".ord|"".succ|"zz".succ|[].max|[].inject(:+)|[[1], [2, 3]].transpose|[].transpose|[].pack("")|"%c" % %I|"%d" % %I|"%x" % %I|"%5.2f" % %I|"%s" % [%I]|"%-5d %05d" % [%I, %I]|Time.now - %I|sleep_(%I)""")


def uobj(r):
    return r.choice(("U.new(%d)" % r.randint(0, 3), "$o", "$o", "$a[0]", "$o"))


def setup(r):
    el = ("U.new(%d)" % r.randint(0, 3), '"s" * 30', "[1, [2]]", "3", "nil", ":sym", "2.5", "{1 => 2}", '"k"', "$o", "2**70", "[]", "(1..3)")
    n = r.choice((0, 1, 2, 3, 5, 8, 17, 40))
    kind = r.random()
    if kind < 0.4:
        els = ["U.new(%d)" % r.randint(0, 3) for _ in range(n)]
    elif kind < 0.6:
        els = [str(r.randint(0, 9)) for _ in range(n)]
    elif kind < 0.7:
        els = ["[%d, U.new(%d)]" % (r.randint(0, 3), r.randint(0, 3)) for _ in range(n)]
    else:
        els = [r.choice(el) for _ in range(n)]
    hs = ["%s => %s" % (r.choice(("%d" % i, '"k%d"' % i, "[%d]" % i, "U.new(%d)" % i, ":s%d" % i)), r.choice(el)) for i in range(r.choice((0, 1, 3, 9, 20)))]
    return ("$keep = []; $left = %d; $n = 0; $x = [1]; $o = U.new(1)\n$a = [%s]\n$h = {%s}\n$s = %s\n$st = S.new(1, [2])\n$f = Fiber.new { Fiber.yield 1; 2 }\n$e = [1, 2].each\n"
            % (r.choice((1, 1, 2, 3, 30)), ", ".join(els), ", ".join(hs), r.choice(('"abcabc"', '"a" * 50', '""', '"aあbい" * 5', '"ab\\n" * 20'))))


def act(r, main):
    pool = {"a": ARRAY_ACTS, "h": HASH_ACTS, "s": STR_ACTS, "o": OTHER_ACTS}[main]
    out = []
    for _ in range(r.choice((1, 1, 2, 3))):
        out.append(r.choice(pool if r.random() < 0.65 else OTHER_ACTS if r.random() < 0.7 else ARRAY_ACTS + HASH_ACTS + STR_ACTS))
    return "; ".join(out)


def block(r):
    body = r.choice(("$act.call(%d); true", "$act.call(%d); false", "$act.call(%d)", "$act.call(%d); x", "churn(2); $act.call(%d); 1", "$act.call(%d); next 0; 1",
                     "begin; $act.call(%d); rescue; 0; ensure; churn(1); end", "$act.call(%d); break 5", "$keep << lambda { x }; $act.call(%d); x", "[1].each { |q| $act.call(%d) }; -1",
                     "$act.call(%d); x == y ? 0 : 1", "$act.call(%d); 0", "$act.call(%d); nil")) % r.randint(0, 9)
    pars = r.choice(("|x|", "|x, y|", "|x, y|", "|*x|", "|x, y = nil|", "|x, *y|", ""))
    if "x" not in pars:
        body = body.replace("; x == y ? 0 : 1", "").replace("lambda { x }", "lambda { 1 }").replace("; x", "")
    elif "y" not in pars:
        body = body.replace("x == y", "x == 1")
    return "{ %s %s }" % (pars, body)


def instantiate(r, t):
    while "%B" in t:
        t = t.replace("%B", block(r), 1)
    while "%U" in t:
        t = t.replace("%U", uobj(r), 1)
    while "%I" in t:
        i = r.choice(SPECIAL_IDX)
        t = t.replace("%I", "(%s)" % i if i[0] == "-" or ".." in i or "/" in i else i, 1)
    return t


def hostile(r):
    main = r.choice("aaahhsso")
    uses = {"a": ARRAY_USES, "h": HASH_USES, "s": STR_USES, "o": OTHER_USES}[main]
    src = setup(r)
    src += "$fuse = %d\n" % r.choice((1, 2, 3, 6, 9))
    src += "$act2 = lambda { |w| if ($fuse -= 1) >= 0 then %s end }\n" % act(r, main).replace("$act2.call(w)", "0")
    src += "$act = lambda { |w| if ($fuse -= 1) >= 0 then %s end }\n" % act(r, main)
    stmts = []
    for _ in range(r.choice((1, 2, 3, 4))):
        if r.random() < 0.12:
            stmts.append(instantiate(r, r.choice(IDX_USES)))
        else:
            stmts.append(instantiate(r, r.choice(uses if r.random() < 0.8 else ARRAY_USES + HASH_USES + STR_USES + OTHER_USES)))
    for s in stmts:
        wrap = r.random()
        t = "begin\n  ps((%s))\nrescue StandardError => e\n  $keep << e if $keep.size < 9\nend\n" % s if not s.startswith(("def ", "for ", "while ", "x, y", "$a[0], ")) and "; " not in s.split("{")[0] else \
            "begin\n  %s\nrescue StandardError => e\n  1\nend\n" % s
        if wrap < 0.12:
            t = "Fiber.new {\n%s}.resume\n" % t if "def " not in t else t
        elif wrap < 0.2:
            t = "[1].each {\n%s}\n" % t if "def " not in t else t
        src += t
    src += "$left = 0; $act = $act2 = lambda { |w| 0 }\nbegin\n  $keep.each { |k| k.class }\n  [$a.size, $h.size, $s.size].inspect\n  [$a, $h, $s, $st, $x].inspect.size\nrescue StandardError, SystemStackError\n  1\nend\n"
    return Case(src, judge=lambda lines: None, tags=("hostile-" + main,), ctx=r.choice(("top", "top", "def", "block", "lambda")) if "def " not in src and "class U" not in src else "top")


def indices(r):
    src = setup(r) + "$act = $act2 = lambda { |w| 0 }\n"
    for _ in range(6):
        src += "begin\n  ps((%s))\nrescue StandardError => e\n  1\nend\n" % instantiate(r, r.choice(IDX_USES))
    return Case(src, judge=lambda lines: None, tags=("arguments",))


def foreign(chk, n):
    out = []
    for p in OTHERS:
        try:
            m = importlib.import_module("p_" + p.lower())
        except ModuleNotFoundError:
            continue
        c = Collector(chk, p, n)
        m.check(c)
        for prelude, cases in c.groups:
            for case in cases:
                case.tags = ("from-" + p,)
                case.key = None
                case.expect = None
                case.judge = lambda lines: None
            out.append((prelude, cases))
    return out


def check(chk):
    chk.rule = ("programs whose blocks and whose ==, <=>, to_s, inspect, coerce, each, to_proc ... change, empty, regrow or drop the very container, string, struct, fiber or frame the calling method works on, "
                "raise, break, collect garbage or abandon fibers there; builtin methods with extreme arguments; the programs of the other checks; run on a build with AddressSanitizer, overflow checks and debug assertions, "
                "with forced collections, freed cells poisoned and kept from reuse; distinct by source text")
    chk.limits_undecided = True
    r = chk.rng("hostile")
    k = chk.seed * 1000
    pre = PRELUDE + PRE
    mons = ("stats", "gc=rand:%d:5,quarantine=40,poison,stats" % (k + 1), "gc=rand:%d:3,poison,stats" % (k + 2), "gc=every:2,quarantine=60,poison,stats")
    for i, mon in enumerate(mons):
        cases = [hostile(r) for _ in range(chk.scale(900, 26000))] + [indices(r) for _ in range(chk.scale(150, 3000))]
        chk.run(cases, size=25, variant="asan", prelude=pre, mon=mon, cpu=2)
    for j, (prelude, cs) in enumerate(foreign(chk, chk.scale(40, 900))):
        chk.run(cs, size=20, variant="asan", prelude=prelude, mon=mons[j % 4], cpu=2)
    g = [gcgen.build(r) for _ in range(chk.scale(240, 5000))]
    for case in g:
        case.judge = lambda lines: None
    chk.run(g, size=20, variant="asan", prelude=PRELUDE + gcgen.PRE, mon=mons[3])
