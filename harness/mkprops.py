"""Writes /verif/properties.jsonl (run by hand; the result is committed)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "ruruby/src/"
prop("C01", "Garbage collection is invisible to programs",
     "A program prints the same output, raises the same exceptions and reaches the same final state whichever of the points at which a collection may happen actually collect. No object that the program can still reach - through variables of running, blocked or captured code, arguments in flight, containers, instance, class and global variables, constants, pending exceptions, bindings or suspended fibers - is ever reclaimed or reused.",
     ["programs", "schedules"], "every program, every choice of collecting or not at each of its collection points, any heap size",
     "The tests run with one collection schedule, mostly without reaching a single collection; whether an object is missed by the marker depends on which holder keeps it, when the collection falls and whether its cell is reused before the next use.",
     [S+"alloc.rs", S+"value/rvalue.rs", S+"vm/executor.rs", S+"vm/executor/frame.rs", S+"coroutine.rs", S+"globals.rs", S+"value/class.rs", S+"value/hash.rs", S+"value/array.rs", S+"builtin/procobj.rs"],
     [("mark phase from the VM, frames, heap frames, globals", S+"vm/executor.rs GC for VM; "+S+"globals.rs GC for Globals"), ("per-kind mark", S+"value/rvalue.rs RValue::mark"), ("temporary roots of builtins", S+"vm/executor.rs temp_push"), ("sweep", S+"alloc.rs sweep")],
     ["stdout, exit status and error output of the same program under different collection schedules"],
     "cfg(ruruby_monitor): forces or suppresses collections, quarantines and poisons swept cells, reports a marked cell that was freed",
     [("mark bits", "which cells were reached in this cycle", S+"alloc.rs Page::mark_bits"), ("free list", "cells that may be reused", S+"alloc.rs Allocator::free")])
prop("C02", "Garbage is reclaimed and the heap accounting balances",
     "After every collection each object slot handed out by the heap is either live or available for reuse, exactly once, and the numbers reported to the program agree with that. A program whose reachable data stays bounded runs in a bounded number of heap pages, and in a bounded amount of memory, however much garbage it produces, and an object that became unreachable is reclaimed by the next explicit collection.",
     ["programs", "schedules"], "every allocation history and every sequence of collections",
     "The single heap test only checks that a loop does not crash; leaks, double listing and lost slots need long histories and inspection of the heap after each cycle.",
     [S+"alloc.rs", S+"builtin/gc.rs", S+"value/rvalue.rs", S+"vm/executor.rs"],
     [("sweep and free list", S+"alloc.rs sweep"), ("page release and reuse", S+"alloc.rs dealloc_empty_pages"), ("trigger", S+"alloc.rs check_gc"), ("counters", S+"builtin/gc.rs stat, count")],
     ["heap audit after each collection", "GC.stat / GC.count", "number of pages over time"],
     "cfg(ruruby_monitor): audits the heap after each collection and counts frees")
prop("C03", "Integer arithmetic is exact",
     "Integer addition, subtraction, multiplication, floor division, modulo, power, negation, bit operations, shifts, comparison, equality, gcd and lcm, digits, bit length, and conversion to and from text and floats give the exact mathematical result Ruby defines, for operands of every magnitude and sign. The result does not depend on how an operand was computed: equal integers are indistinguishable by comparison, equality, hashing and printing. Division by zero raises ZeroDivisionError.",
     ["inputs"], "all pairs of integers, in particular around the limits of small integers, 32, 62, 63, 64 and 128 bits",
     "The tests use a few small numbers and a handful of large ones; overflow and normalisation errors sit at representation boundaries and in combinations of signs.",
     [S+"arith.rs", S+"builtin/integer.rs", S+"builtin/numeric.rs", S+"value/real.rs", S+"value/value.rs", S+"vm/executor/ops.rs"],
     [("overflow to bignum", S+"arith.rs"), ("small integer packing and normalisation", S+"value/value.rs integer, bignum")],
     ["values printed by programs"])
prop("C04", "Float and mixed arithmetic follow IEEE 754 and Ruby's definitions",
     "Arithmetic, comparison, modulo, div, floor and conversion on floats, and on mixtures of floats with integers of any size, give the correctly rounded IEEE double (or exact integer) that Ruby defines, including NaN and infinities (integers beyond 2**53 are rounded to doubles when compared with floats; zeros have no sign). Printing a finite float gives text that reads back as the same float. Complex arithmetic obeys the same component formulas.",
     ["inputs"], "all pairs of doubles and integers, in particular special values, halves, and integers beyond 2**53",
     "The tests use a few ordinary decimals; rounding direction, special values and packing of doubles fail only for rare bit patterns.",
     [S+"arith.rs", S+"builtin/float.rs", S+"builtin/numeric.rs", S+"builtin/math.rs", S+"builtin/complex.rs", S+"value/real.rs", S+"value/value.rs"],
     [("float packing", S+"value/value.rs float"), ("mixed operations", S+"value/real.rs, "+S+"arith.rs")],
     ["values printed by programs"])
prop("C05", "Operators mean method calls, optimised or not",
     "An expression written with an operator, index, comparison, negation, safe navigation or compound assignment has the value and effects of the corresponding method call, whatever the types of the operands, whether an operand is a literal, a variable or a computed value, and whether the result is used as a value, as a condition or not at all. Operators that a program defines for its own classes (all but !, unary + and !~, which always have their built-in meaning) are called with the operands in order, evaluated once and left to right.",
     ["programs", "inputs"], "all operators, operand types, operand forms and contexts in which an expression is used",
     "The compiler picks specialised instructions by operand form and context; the tests exercise few of these combinations and never compare them with each other.",
     [S+"codegen.rs", S+"codegen/", S+"vm/executor/opt_core.rs", S+"vm/executor/ops.rs", S+"arith.rs"],
     [("specialised instructions and their fallback", S+"vm/executor/opt_core.rs, "+S+"vm/executor/ops.rs"), ("choice of instruction", S+"codegen/")],
     ["values and call traces printed by programs"])
prop("C06", "Method lookup follows the current ancestors at every call",
     "At every call the method that runs is the first one defined for that name along the receiver's current ancestors - singleton class, prepended modules, class, included modules, superclasses - after every definition, redefinition, aliasing, include, extend, prepend and singleton definition so far, and super continues from there. Otherwise method_missing or a name error answers, respond_to? and ancestors agree with it, and no earlier call from the same or another place influences the result.",
     ["histories", "programs"], "all histories of class and module changes interleaved with calls from the same and from different call sites",
     "Each call site and each class caches lookups; the tests call a method once or twice after a fixed set of definitions and never change the hierarchy between calls from the same site.",
     [S+"globals/method.rs", S+"value/class.rs", S+"vm/executor/method.rs", S+"vm/executor/opt_core.rs", S+"builtin/module.rs", S+"builtin/class.rs", S+"globals.rs"],
     [("inline and global method cache with class version", S+"globals/method.rs"), ("ancestor chain", S+"value/class.rs append_include, append_prepend"), ("super", S+"vm/executor/opt_core.rs")],
     ["which definition ran, printed by the definition itself", "ancestors, respond_to?, instance_methods"],
     "cfg(ruruby_monitor): every cache hit is compared with an uncached search",
     [("class_version", "stamp of the caches", S+"globals/method.rs")])
prop("C07", "Constants and variables resolve to their own current binding",
     "A constant reference yields the current value of the constant found lexically and then through the ancestors of the enclosing class or module, at every evaluation and whatever was evaluated there before. Instance, class and global variables read what was last assigned to that variable of that object, class family or program, and nil or an error if nothing was; reads and writes of one never affect another.",
     ["histories", "programs"], "all histories of definitions, reassignments and reads over nested modules, inheritance and many objects with different sets of variables",
     "Constant and variable accesses are cached per site and per object shape; the tests read each variable in one class layout.",
     [S+"globals/constants.rs", S+"vm/executor/constants.rs", S+"value/class.rs", S+"value/rvalue.rs", S+"builtin/object.rs", S+"builtin/module.rs", S+"vm/executor/opt_core.rs"],
     [("constant cache with version", S+"globals/constants.rs"), ("variable tables", S+"value/rvalue.rs, "+S+"value/class.rs")],
     ["values printed by programs, defined?, instance_variables, constants, const_get"],
     "cfg(ruruby_monitor): every constant cache hit is compared with an uncached lookup")
prop("C08", "Closures share the variables they capture",
     "A block, proc or lambda reads and writes the very variables of the scopes it was created in, shared with the enclosing code and with every other closure over the same scope activation, also after those scopes have returned and in whatever order they run. Each activation of a scope has its own variables, block parameters and locals are fresh for each call, and self is that of the creation site.",
     ["programs", "schedules"], "all nestings of methods, blocks, procs, lambdas and bindings, all orders of escaping, calling, reading and writing",
     "A frame moves from the stack to the heap at the moment something captures it; errors need a particular order of capture, write, escape and call at a particular nesting depth.",
     [S+"vm/executor/frame.rs", S+"vm/executor.rs", S+"vm/executor/opt_core.rs", S+"builtin/procobj.rs", S+"builtin/binding.rs", S+"codegen.rs"],
     [("moving frames to the heap and redirecting references", S+"vm/executor/frame.rs"), ("outer variable access by depth", S+"vm/executor/opt_core.rs GET_DYNLOCAL, SET_DYNLOCAL")],
     ["values printed by programs"])
prop("C09", "Arguments bind to parameters by Ruby's rules or raise ArgumentError",
     "For every parameter list of required, optional, rest, trailing, keyword, keyword-rest and block parameters and every argument list with splats, keywords, hash splats and blocks, each parameter receives the argument Ruby's rules assign to it, and defaults are evaluated only when needed, left to right. Methods raise ArgumentError exactly when no assignment exists; blocks pad, drop or unpack instead. This holds for the methods and blocks a program defines, however they are called.",
     ["inputs", "programs"], "all combinations of parameter lists and argument lists, for methods, blocks, procs, send, super, yield, method_missing and method objects",
     "The calling sequence has fast paths for simple signatures and separate code for each kind of caller; the tests cover a few dozen combinations.",
     [S+"vm/args.rs", S+"vm/executor/frame.rs", S+"vm/executor/method.rs", S+"vm/executor/opt_core.rs", S+"codegen.rs", "ruruby-parse/src/parser/define.rs"],
     [("argument binding", S+"vm/args.rs"), ("fast call paths", S+"vm/executor/opt_core.rs")],
     ["parameter values printed by the callee"])
prop("C10", "Control flow and exceptions take exactly the path Ruby prescribes",
     "if, unless, case, while, until, for, loops with break and next, return from methods and through blocks, begin/rescue/else/ensure and raise execute exactly the statements, in the order and with the results, that Ruby prescribes, for every nesting. Every ensure clause on the path runs exactly once, an exception reaches the innermost handler whose class list matches and no other, and after any exit the surrounding code continues with its variables intact.",
     ["programs"], "all nestings of conditionals, loops, blocks, methods and handlers with jumps at any point, including jumps out of ensure and rescue clauses",
     "Jumps unwind a shared value stack, frames and handler tables; the tests hold a few nestings, and errors show only for jumps at particular stack heights.",
     [S+"codegen.rs", S+"codegen/", S+"vm/executor/opt_core.rs", S+"vm/executor.rs", S+"error.rs", S+"builtin/exception.rs"],
     [("exception tables and unwinding", S+"vm/executor.rs run_loop"), ("jump instructions", S+"codegen/")],
     ["sequence of trace lines printed by programs"])
prop("C11", "Arrays behave as Ruby sequences",
     "Every Array operation - construction, indexing and slicing with integers, ranges and lengths, assignment, insertion and removal, concatenation, iteration, searching, mapping, folding, comparison, sorting, rotation, zipping, flattening and conversion, as far as this implementation has it - returns the value and leaves the array in the state that Ruby defines, for every content, index and length, negative or out of range included. Operations that return a new array leave their operands unchanged.",
     ["inputs", "histories"], "all arrays, all arguments in and out of range, all sequences of operations on one array",
     "The tests call most methods once with a friendly argument; errors sit at boundaries such as empty arrays, negative and out of range indexes and states reached by earlier operations.",
     [S+"builtin/array.rs", S+"value/array.rs", S+"vm/executor/ops.rs"],
     [("index arithmetic and storage", S+"value/array.rs"), ("builtin methods", S+"builtin/array.rs")],
     ["values printed by programs"])
prop("C12", "Hashes are insertion-ordered maps over eql keys",
     "A Hash maps keys to values under key equality (identity for hashes made to compare by identity), keeps insertion order through every sequence of stores, deletions, merges and iterations, and every Hash operation returns the value and leaves the state Ruby defines. Keys of the built-in types that are eql are the same key however they were computed.",
     ["histories", "inputs"], "all histories of operations over keys of every type, including keys computed in different ways",
     "The tests store a few literal keys; wrong order after deletion, lost entries and unequal representations of equal keys need histories and diverse keys.",
     [S+"builtin/hash.rs", S+"value/hash.rs", S+"value/rvalue.rs", S+"value/string.rs"],
     [("hash tables", S+"value/hash.rs"), ("key hashing and equality", S+"value/rvalue.rs Hash, eql")],
     ["values printed by programs"])
prop("C13", "Strings and symbols behave as Ruby character sequences",
     "Every String and Symbol operation - indexing and slicing by character, assignment, insertion, concatenation, repetition, searching, splitting, joining, case change, stripping, padding, counting, translating, comparison, succession, conversion to numbers and symbols, formatting with %, as far as this implementation has it - returns the value and leaves the string in the state that Ruby defines, for every content including multi-byte characters and every length, whether or not the text fits the compact representation. Mutating one string never changes another, and equal contents are equal, eql and hash alike however they were produced.",
     ["inputs", "histories"], "all strings up to and beyond the inline size, ASCII and multi-byte, all argument ranges, all histories of mutations",
     "The tests use short ASCII literals; errors sit at representation changes, character versus byte offsets and empty or out of range arguments.",
     [S+"builtin/string.rs", S+"value/string.rs", S+"builtin/symbol.rs", S+"builtin/kernel.rs", S+"vm/executor/ops.rs"],
     [("representations", S+"value/string.rs RString"), ("builtin methods", S+"builtin/string.rs")],
     ["values printed by programs"])
prop("C14", "Sorting and comparison follow one consistent order",
     "sort and sort_by return a permutation of the receiver that is ordered by <=> (or by the block), min and max its least and greatest element; they raise when elements are not comparable or the block raises, leaving the receiver intact. The comparison operators and <=> of numbers, strings, symbols and arrays and of classes that include Comparable agree with each other for every pair.",
     ["inputs"], "all element sequences, including duplicates, mixed numbers, incomparable elements, and blocks that raise or leave the loop",
     "The tests sort a few short lists of integers; comparator errors, mixed types and abrupt exits in the middle of a sort are not exercised.",
     [S+"builtin/array.rs", S+"builtin/comparable.rs", S+"vm/executor/ops.rs", S+"builtin/enumerator.rs", S+"value/real.rs"],
     [("sort", S+"vm/executor.rs sort_array, "+S+"builtin/array.rs sort_by"), ("comparison", S+"vm/executor/ops.rs eval_compare")],
     ["values printed by programs"])
prop("C15", "Fibers and enumerators transfer control and values exactly once",
     "Each resume runs its fiber exactly up to the next yield or to its end and returns that value; each value passed to resume becomes the value of the pending yield; locals, frames and pending ensure clauses of every fiber survive any interleaving and nesting of fibers; exceptions reach the resumer. Resuming a finished fiber or one that is already running raises FiberError. An Enumerator's next yields the elements of each in order and then raises StopIteration, and its other methods agree with each. A return or break out of a fiber's block raises LocalJumpError.",
     ["schedules", "programs"], "all interleavings of resume and yield over several fibers, nested fibers, fibers ending by return, exception or abandonment",
     "Fibers switch machine stacks; the tests interleave two at most and hardly combine them with exceptions, closures or collections.",
     [S+"coroutine.rs", S+"coroutine/", S+"startup/startup.rb", S+"builtin/fiber.rs", S+"builtin/enumerator.rs", S+"vm/executor/fiber.rs"],
     [("stack switching", S+"coroutine.rs"), ("fiber states", S+"builtin/fiber.rs, "+S+"coroutine.rs FiberState")],
     ["event trace printed by the fibers and by the resumer"])
prop("C16", "Ranges and counting loops visit exactly the prescribed values",
     "Range operations (membership, iteration, conversion, first, last, folds, equality, slicing by range), for loops and counting methods (times, upto, downto, step, each_with_index) produce exactly the values from start to end, inclusive or exclusive, in order and nothing else, for every pair of integer or string bounds and every step, empty and descending ones included; ranges that cannot be iterated raise TypeError.",
     ["inputs"], "all bounds, exclusive and inclusive, integers and strings, every step sign, limits of small integers",
     "The tests iterate a few small ascending ranges.",
     [S+"builtin/range.rs", S+"builtin/integer.rs", S+"builtin/numeric.rs", S+"builtin/float.rs", S+"builtin/string.rs"],
     [("range methods", S+"builtin/range.rs"), ("integer loops", S+"builtin/integer.rs")],
     ["values printed by programs"])
prop("C17", "Regular expression operations agree with the matches they find",
     "match, =~, ===, scan, sub, gsub, split, slicing and slice! with a regular expression find the leftmost matches of the pattern that do not overlap, with the offsets and captures Ruby reports counted in characters, and replace or return exactly those. After each match the match variables describe that match, or are nil after a failure.",
     ["inputs"], "all subjects including multi-byte and empty ones, patterns with groups, alternation, anchors and empty matches, replacements with back references, hashes and blocks",
     "The tests use one subject per method; errors sit at empty matches, optional groups, multi-byte offsets and stale match variables.",
     [S+"builtin/regexp.rs", S+"builtin/string.rs", S+"vm/executor.rs"],
     [("find/replace loops", S+"builtin/regexp.rs"), ("match variables", S+"vm/executor.rs sp_last_match")],
     ["values printed by programs"])
prop("C18", "The meaning of source text depends only on its syntax tree",
     "Operator precedence and associativity, literals in every notation, string escapes and interpolation, here-documents, modifiers, optional parentheses, line breaks, comments and separators are read as Ruby defines: adding the parentheses that the grammar implies, or changing layout where it is free, does not change what a program does. Printing plain data (strings, numbers, symbols, ranges, arrays, hashes) with inspect gives source text that evaluates to an equal value, and text that is not a program raises SyntaxError without running any of it.",
     ["programs", "inputs"], "all expressions over the operators of the language, all literals, all free choices of layout",
     "The parser is written by hand with lookahead at spaces and line ends; the tests contain each construct in one layout.",
     ["ruruby-parse/src/parser.rs", "ruruby-parse/src/parser/lexer.rs", "ruruby-parse/src/parser/expression.rs", "ruruby-parse/src/parser/literals.rs", "ruruby-parse/src/parser/flow_control.rs", "ruruby-parse/src/parser/define.rs", S+"codegen.rs"],
     [("precedence climbing", "ruruby-parse/src/parser/expression.rs"), ("lexer", "ruruby-parse/src/parser/lexer.rs")],
     ["values printed by programs"])
prop("C19", "No input crashes the interpreter, and it stays usable after errors",
     "Whatever the program text, the interpreter ends by finishing the program or by reporting a Ruby error: it does not panic, abort, overrun memory or die of a signal. An error raised by any method called with any arguments is an exception that the program can rescue, and after any error - syntax errors of eval and deep recursion included - the rest of the program runs as if the failed expression had been absent.",
     ["inputs", "programs"], "every program text, well formed or not, and every call of a builtin method with arguments of any type and size",
     "The tests call builtins with the arguments they expect.",
     ["ruruby-parse/src/", S+"builtin/", S+"codegen.rs", S+"vm/", S+"error.rs"],
     [("type checks of arguments", S+"builtin/*.rs"), ("error propagation", S+"vm/executor.rs, "+S+"error.rs")],
     ["exit status, signals and panic messages of the process"])
prop("C20", "No execution performs an invalid memory access",
     "Executing a program never reads or writes memory that was not allocated, was already freed or lies outside the object accessed, never misaligned and never with an overflowing size computation. This includes programs that change a container while a method iterates over it, raise or break in the middle of builtin methods, abandon fibers, and keep references to frames, strings and arrays across collections.",
     ["programs", "schedules"], "every program, every collection schedule",
     "The interpreter is built on raw pointers and unions; an invalid access mostly goes unnoticed by a test that compares output.",
     [S+"alloc.rs", S+"vm/executor/frame.rs", S+"vm/executor/frame/ruby_stack.rs", S+"value/", S+"builtin/array.rs", S+"builtin/hash.rs", S+"coroutine.rs"],
     [("raw references", S+"lib.rs Ref"), ("VM stack", S+"vm/executor/frame/ruby_stack.rs")],
     ["AddressSanitizer reports, debug assertions, overflow checks"],
     "cfg(ruruby_monitor): forced collections and quarantine, in a build with AddressSanitizer")
prop("C21", "Loading runs each file once and files keep their contents",
     "require and require_relative run each file exactly once however it is named, from whichever file and in whatever order, cycles included; load runs it every time; autoload runs it at the first reference to the constant; a missing or faulty file raises an error that can be rescued and can be tried again. What is written to a file is what is read back, and path functions and directory queries describe the files that are there.",
     ["histories", "fault_sequences"], "all dependency graphs of files, path spellings, orders of require, load and autoload, missing and faulty files, file contents of any bytes of text",
     "The tests load one or two sample files from a fixed directory.",
     [S+"vm/executor/loader.rs", S+"globals.rs", S+"builtin/file.rs", S+"builtin/dir.rs", S+"builtin/kernel.rs", S+"builtin/io.rs", S+"vm/executor/constants.rs"],
     [("list of loaded files", S+"vm/executor/loader.rs"), ("autoload entries", S+"vm/executor/constants.rs")],
     ["trace lines printed by the loaded files", "contents of files in a scratch directory"])
prop("C22", "Reflection is equivalent to direct code",
     "send and __send__, Method and UnboundMethod objects (call, [], bind, bind_call, unbind), Symbol#to_proc and &:name, instance_exec, class_eval with a block, eval with and without a binding (nested evaluations of one binding included), instance_variable_get and set, const_get and respond_to? have the effect and value of the direct code they stand for, with the same self, arguments, keywords, block and visible variables, for user-defined and builtin methods alike. Evaluating the text of an expression in the current scope gives the same value as the expression written in place.",
     ["programs"], "all expressions, receivers, methods and arguments, in every kind of scope",
     "Each reflective entry builds its own frame and arguments; the tests use each with one simple call.",
     [S+"builtin/object.rs", S+"builtin/basicobject.rs", S+"builtin/method.rs", S+"builtin/unbound_method.rs", S+"builtin/procobj.rs", S+"builtin/binding.rs", S+"builtin/kernel.rs", S+"builtin/module.rs", S+"vm/executor/method.rs"],
     [("reflective calls", S+"vm/executor/method.rs, "+S+"builtin/object.rs send"), ("eval frames", S+"builtin/kernel.rs eval, "+S+"vm/executor.rs eval_binding")],
     ["values printed by programs"])
prop("C23", "Objects keep identity, and copies are independent",
     "Assignment and argument passing share an object, while dup, clone and copying operations give a distinct object with equal content whose later changes leave the original unchanged. equal? holds only for the same object, equal content implies == and, for the same types, eql? and equal hash codes, == is symmetric and transitive over the builtin value types, object ids are unique among live objects, and Struct instances keep their members apart.",
     ["histories", "inputs"], "all builtin types, all graphs of shared objects, all sequences of copies and mutations",
     "The tests copy a literal and compare it; sharing errors show only after later mutations.",
     [S+"builtin/object.rs", S+"builtin/structobj.rs", S+"value/rvalue.rs", S+"value/value.rs", S+"builtin/kernel.rs"],
     [("shallow copies", S+"value/rvalue.rs shallow_dup"), ("equality", S+"value/rvalue.rs eql, "+S+"vm/executor/ops.rs eval_eq")],
     ["values printed by programs"])
prop("C24", "Assignments store each value once, in order",
     "Multiple assignment, splats on the right side, swaps, operator assignment (||=, &&=, += and others) and assignment to variables, indexes, attributes and constants evaluate receivers, indexes and values once each in Ruby's order, store the value Ruby's rules pair with each target, and yield the assigned value. case/when takes the first branch whose pattern answers true to ===, whatever the types and number of the patterns, exactly like the chain of tests it stands for.",
     ["programs", "inputs"], "all shapes of left and right hand sides, all kinds of targets, all mixtures of literal and computed patterns",
     "Assignments and case are compiled into specialised instructions (shuffles, jump tables); the tests hold a few shapes.",
     [S+"codegen.rs", S+"codegen/", S+"vm/executor/opt_core.rs", "ruruby-parse/src/parser/expression.rs"],
     [("multiple assignment", S+"codegen.rs gen_assign"), ("case dispatch tables", S+"vm/executor/opt_core.rs OPT_CASE, OPT_CASE2")],
     ["trace lines and values printed by programs"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
