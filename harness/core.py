"""Running generated Ruby programs on the monitored interpreter and judging their traces.

A Case is a piece of Ruby source plus the trace lines it has to print (its oracle). Cases are packed into batches, one
process per batch; lines are attributed to cases by markers. A crash ends a batch, is charged to the case that was
running, and the rest of the batch continues in a new process.
"""
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import build

VERIF = build.VERIF
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CPU_LIMIT = 15          # seconds of CPU for a batch (a batch normally needs a small fraction of one)
CPU_LIMIT_ALONE = 20    # seconds of CPU for a single case
WALL_LIMIT = 240        # watchdog; firing is inconclusive
OUT_LIMIT = 64 << 20

PRELUDE = r"""
def v(x)
  puts "=" + x.inspect
end
"""


class Result:
    __slots__ = ("out", "err", "rc", "sig", "wall_timeout", "cpu_timeout", "oom")

    def crashed(self):
        return bool(self.sig) or self.rc not in (0,)

    def how(self):
        if self.cpu_timeout:
            return "does not end (CPU limit)"
        err = self.err
        if self.rc == 97:
            m = re.search(r"MONITOR-VIOLATION.*", err)
            return m.group(0)[:300] if m else "monitor"
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]{0,120})", err)
        if m:
            return m.group(1)
        m = re.search(r"panicked at ([^\n]*)\n?([^\n]*)", err)
        pan = (" panic: " + m.group(1) + " " + m.group(2)[:160]) if m else ""
        if self.sig:
            return "signal %d%s" % (self.sig, pan)
        return "exit %s%s" % (self.rc, pan)


def _limits(cpu, mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (OUT_LIMIT, OUT_LIMIT))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


_scratch = None
_scratch_lock = threading.Lock()


def scratch():
    global _scratch
    with _scratch_lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix="rrv.")
            import atexit
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


_ctr = [0]


def _unique():
    with _scratch_lock:
        _ctr[0] += 1
        return "%d_%d" % (os.getpid(), _ctr[0])


def run_program(binary, source, mon="", cpu=CPU_LIMIT, mem=6 << 30, extra_env=None, cwd=None, args=None, stdin=None, where=None):
    """Runs one program text (bytes or str) in a process of its own."""
    d = scratch()
    u = _unique()
    path = os.path.join(where or cwd or d, "p%s.rb" % u)
    if isinstance(source, str):
        source = source.encode("utf8", "surrogateescape")
    with open(path, "wb") as f:
        f.write(source)
    outp, errp = os.path.join(d, "o" + u), os.path.join(d, "e" + u)
    env = {"PATH": "/usr/bin:/bin", "HOME": d, "LANG": "C.UTF-8", "RUST_BACKTRACE": "0", "RURUBY_MON": mon,
           "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0"}
    if extra_env:
        env.update(extra_env)
    r = Result()
    r.wall_timeout = r.cpu_timeout = r.oom = False
    if "asan" in binary:
        mem = 0
        cpu *= 3
    with open(outp, "wb") as fo, open(errp, "wb") as fe:
        p = subprocess.Popen([binary, path] + (args or []), stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=env,
                             cwd=cwd or d, preexec_fn=_limits(cpu, mem), start_new_session=True)
        try:
            rc = p.wait(timeout=WALL_LIMIT)
        except subprocess.TimeoutExpired:
            r.wall_timeout = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            rc = p.wait()
    with open(outp, "rb") as f:
        r.out = f.read(OUT_LIMIT).decode("utf8", "backslashreplace")
    with open(errp, "rb") as f:
        r.err = f.read(1 << 20).decode("utf8", "backslashreplace")
    for q in (path, outp, errp):
        try:
            os.remove(q)
        except OSError:
            pass
    r.rc, r.sig = (rc, 0) if rc >= 0 else (0, -rc)
    if r.sig == signal.SIGXCPU or (r.sig == signal.SIGKILL and not r.wall_timeout and False):
        r.cpu_timeout = True
    elif r.sig == signal.SIGKILL and not r.wall_timeout:
        # CPU hard limit or the sandbox ended it for memory: tell by time? treat as inconclusive
        r.oom = True
    if "memory allocation of" in r.err and r.sig == signal.SIGABRT:
        r.oom = False   # the program asked for an absurd amount itself: a crash
    return r


class Case:
    __slots__ = ("src", "expect", "tags", "ctx", "key", "judge", "pre", "alone", "mon")

    def __init__(self, src, expect=None, tags=(), ctx="top", key=None, judge=None, pre="", alone=False):
        self.src = src            # Ruby statements; they print trace lines
        self.expect = expect      # list of lines, or None when `judge` decides
        self.tags = tags
        self.ctx = ctx            # top | def | block | lambda
        self.key = key
        self.judge = judge        # judge(lines) -> None or a text that says what is wrong
        self.pre = pre            # definitions that have to stay at top level
        self.alone = alone
        self.mon = None


def render(case, i):
    s = case.src
    head = "puts '@@%d'\n" % i
    tail = "puts '@.%d'\n" % i
    if case.ctx == "raw":
        return head + case.pre + "\n" + s + "\n" + tail
    body = "begin\n%s\nrescue StandardError => e\n  puts '!' + e.class.to_s\nend\n" % s
    if case.ctx == "def":
        body = "def c_%d\n%send\nc_%d\n" % (i, body, i)
    elif case.ctx == "block":
        body = "1.times do\n%send\n" % body
    elif case.ctx == "lambda":
        body = "lambda do\n%send.call\n" % body
    return head + case.pre + ("\n" if case.pre else "") + body + tail


def program(cases, idx=None, prelude=PRELUDE):
    return prelude + "".join(render(c, i) for i, c in (zip(idx, cases) if idx else enumerate(cases)))


MARK = re.compile(r"^@([@.])(\d+)$")


def split_trace(out):
    """-> {index: (lines, finished)}"""
    res = {}
    cur = None
    lines = []
    for line in out.split("\n"):
        m = MARK.match(line)
        if m:
            i = int(m.group(2))
            if m.group(1) == "@":
                cur, lines = i, []
                res[i] = (lines, False)
            elif cur == i:
                res[i] = (lines, True)
                cur = None
        elif cur is not None:
            lines.append(line)
    # split leaves '' after the final newline for an unfinished case
    for i, (ls, fin) in res.items():
        if not fin and ls and ls[-1] == "":
            ls.pop()
    return res


class Outcome:
    __slots__ = ("case", "status", "lines", "detail", "batch")
    # status: ok | bad | crash | inconclusive

    def __init__(self, case, status, lines, detail="", batch=None):
        self.case, self.status, self.lines, self.detail, self.batch = case, status, lines, detail, batch


FLOAT = re.compile(r"\d+\.\d+(?:e[+-]\d+)?")


def same_floats(a, b):
    """Shortest texts of a float may differ in the last digit (ties, powers of two): both read back as that float."""
    fa, fb = FLOAT.findall(a), FLOAT.findall(b)
    return (len(fa) == len(fb) and FLOAT.sub("F", a) == FLOAT.sub("F", b)
            and all(abs(len(x) - len(y)) <= 1 and ("e" in x) == ("e" in y) and float(x) == float(y) for x, y in zip(fa, fb)))


def judge_case(case, lines):
    if case.judge is not None:
        return case.judge(lines)
    if case.expect is None or lines == case.expect:
        return None
    for i, e in enumerate(case.expect):
        if i >= len(lines):
            return "line %d: expected %r, printed nothing" % (i, e)
        if lines[i] != e and not same_floats(lines[i], e):
            return "line %d: expected %r, printed %r" % (i, e, lines[i])
    if len(lines) == len(case.expect):
        return None
    return "unexpected line %r" % lines[len(case.expect)]


def run_batch(binary, cases, mon="", prelude=PRELUDE, extra_env=None, rerun=True, cpu=CPU_LIMIT, cpu_alone=CPU_LIMIT_ALONE):
    """Runs the cases; returns the list of outcomes."""
    todo = list(range(len(cases)))
    outs = {}
    guard = 0
    while todo and guard < 2 * len(cases) + 4:
        guard += 1
        sub = [cases[i] for i in todo]
        src = program(sub, todo, prelude)
        alone = len(todo) == 1
        r = run_program(binary, src, mon, cpu_alone if alone else cpu, extra_env=extra_env)
        tr = split_trace(r.out)
        done = [i for i in todo if i in tr and tr[i][1]]
        for i in done:
            why = judge_case(cases[i], tr[i][0])
            outs[i] = Outcome(cases[i], "bad" if why else "ok", tr[i][0], why or "", (todo[:], src) if why else None)
        rest = [i for i in todo if i not in outs]
        if not rest:
            if r.crashed() and done:
                # died after the last case
                if r.wall_timeout or r.oom:
                    pass
                else:
                    outs[done[-1]] = Outcome(cases[done[-1]], "crash", tr[done[-1]][0], "at exit: " + r.how(), (todo[:], src))
            break
        if not tr:
            # nothing ran: the text of some case is not accepted
            if r.wall_timeout or r.oom:
                for i in rest:
                    outs[i] = Outcome(cases[i], "inconclusive", [], "watchdog")
                break
            if alone:
                i = rest[0]
                if r.crashed():
                    outs[i] = Outcome(cases[i], "crash", [], r.how(), ([i], src))
                else:
                    msg = (r.err.strip().split("\n") or [""])[0][:200]
                    lines = ["REJECTED " + msg]
                    why = judge_case(cases[i], lines)
                    outs[i] = Outcome(cases[i], "bad" if why else "ok", lines, why or "", ([i], src))
                break
            # bisect
            half = len(rest) // 2
            for part in (rest[:half], rest[half:]):
                if part:
                    sub_outs = run_batch(binary, [cases[i] for i in part], mon, prelude, extra_env, rerun, cpu, cpu_alone)
                    for i, o in zip(part, sub_outs):
                        outs[i] = o
            break
        # one case was running when the process ended
        started = [i for i in rest if i in tr]
        i = started[0] if started else rest[0]
        lines = tr[i][0] if i in tr else []
        if r.wall_timeout or r.oom:
            outs[i] = Outcome(cases[i], "inconclusive", lines, "watchdog" if r.wall_timeout else "killed")
        elif r.cpu_timeout and not alone:
            # decide alone, with a limit of its own
            o = run_batch(binary, [cases[i]], mon, prelude, extra_env, rerun, cpu, cpu_alone)[0]
            outs[i] = o
        elif r.crashed():
            outs[i] = Outcome(cases[i], "crash", lines, r.how(), (todo[:], src))
        else:
            msg = (r.err.strip().split("\n") or [""])[0][:200]
            ls = lines + ["ENDED " + msg]
            why = judge_case(cases[i], ls)
            outs[i] = Outcome(cases[i], "bad" if why else "ok", ls, why or "", (todo[:], src))
        pos = todo.index(i)
        todo = [j for j in todo[pos + 1:] if j not in outs] + [j for j in todo[:pos] if j not in outs]
    return [outs.get(i) or Outcome(cases[i], "inconclusive", [], "not run") for i in range(len(cases))]


ADDR = re.compile(r"0x[0-9a-f]{6,}")


def same_trace(want):
    want = [ADDR.sub("0xADDR", x) for x in want]

    def judge(lines):
        got = [ADDR.sub("0xADDR", x) for x in lines]
        if got == want:
            return None
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return "line %d: the reference run printed %r, this run %r" % (i, b[:300], a[:300])
        return "the reference run printed %d lines, this run %d" % (len(want), len(got))
    return judge


class Collector:
    """Takes the cases of another check instead of running them."""

    def __init__(self, chk, prop, n):
        self.chk, self.prop, self.n = chk, prop, n
        self.extra, self.assumptions, self.rule = {}, [], ""
        self.groups = []
        self.evaluations = self.inconclusive = 0
        self.seed = chk.seed

    def rng(self, *salt):
        return self.chk.rng(self.prop, *salt)

    def violation(self, *args):
        pass

    def thorough(self):
        return False

    def scale(self, quick, thorough=None):
        return min(self.n, quick)

    def run(self, cases, size=60, variant="mon", mon="", prelude=PRELUDE, **kw):
        self.groups.append((prelude, cases))


def batches(cases, size):
    cur = []
    for c in cases:
        if c.alone:
            yield [c]
        else:
            cur.append(c)
            if len(cur) >= size:
                yield cur
                cur = []
    if cur:
        yield cur


class Check:
    """Collects the outcomes of one check and writes verdict and evidence."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.lines = 0
        self.tags = {}
        self.samples = []
        self.violations = []
        self.inconclusive = 0
        self.extra = {}
        self.assumptions = []
        self.rule = ""
        self.known = load_known(prop)
        self.stats = {}
        self.lock = threading.Lock()
        self.limits_undecided = False    # running out of CPU time says nothing

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, salt))))

    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough=None):
        return quick if not self.thorough() else (thorough or quick * 12)

    def count(self, case):
        self.evaluations += 1
        h = hashlib.blake2b((case.pre + "\0" + case.src).encode("utf8", "surrogateescape"), digest_size=8).digest()
        if h not in self.keys:
            self.keys.add(h)
            if len(self.samples) < 6 and len(self.keys) % 97 in (1, 13):
                self.samples.append({"source": (case.pre + "\n" + case.src).strip()[:700],
                                     "expected": case.expect[:12] if case.expect else "(judge)"})
        for t in case.tags:
            self.tags[t] = self.tags.get(t, 0) + 1

    def run(self, cases, size=60, variant="mon", mon="", prelude=PRELUDE, shuffle=False, max_report=25, cpu=CPU_LIMIT):
        binary = build.build(variant)
        bs = list(batches(cases, size))
        with ThreadPoolExecutor(JOBS) as ex:
            def one(b):
                with self.lock:
                    if len(self.violations) >= max_report:
                        return None
                m = mon
                st = None
                if "stats" in mon:
                    st = os.path.join(scratch(), "st" + _unique())
                    m = mon.replace("stats", "stats=" + st)
                outs = run_batch(binary, b, m, prelude, cpu=cpu, cpu_alone=min(cpu, CPU_LIMIT_ALONE) if self.limits_undecided else CPU_LIMIT_ALONE)
                if st:
                    with self.lock:
                        self.merge_stats(st)
                return outs
            for outs in ex.map(one, bs):
                if outs is None:
                    continue
                with self.lock:
                    for o in outs:
                        self.take(o, variant, mon, prelude)

    def run_diff(self, cases, mons, base="gc=never", size=40, variant="mon", prelude=PRELUDE, max_report=25, cpu=(CPU_LIMIT, CPU_LIMIT_ALONE)):
        """Runs every case under `base` and under each of `mons`; the observable behaviour has to be the same."""
        binary = build.build(variant)
        blind = []
        for c in cases:
            b = Case(c.src, None, c.tags, c.ctx, c.key, None, c.pre, c.alone)
            blind.append(b)
        jobs = [(b, i) for i, b in enumerate(batches(blind, size))]
        undecided = [0]

        def one(job):
            b, i = job
            with self.lock:
                if len(self.violations) >= max_report:
                    return
            ref = run_batch(binary, b, base, prelude, cpu=cpu[0] // 2, cpu_alone=cpu[1] // 2)
            ok = [o for o in ref if o.status == "ok"]
            with self.lock:
                undecided[0] += len(ref) - len(ok)
            subs = []
            for o in ok:
                c = o.case
                subs.append(Case(c.src, None, c.tags, c.ctx, c.key, same_trace(o.lines), c.pre, c.alone))
            mine = mons(i) if callable(mons) else mons
            for mon in mine:
                st = None
                m = mon
                if "stats" in mon:
                    st = os.path.join(scratch(), "st" + _unique())
                    m = mon.replace("stats", "stats=" + st)
                outs = run_batch(binary, subs, m, prelude, cpu=cpu[0], cpu_alone=cpu[1])
                with self.lock:
                    if st:
                        self.merge_stats(st)
                    for o in outs:
                        self.take(o, variant, mon, prelude)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, jobs))
        self.extra["cases whose reference run did not finish (not judged)"] = \
            self.extra.get("cases whose reference run did not finish (not judged)", 0) + undecided[0]

    def merge_stats(self, st):
        if not os.path.exists(st):
            return
        with open(st) as f:
            for line in f:
                d = json.loads(line)
                for k, val in d.items():
                    if k in ("temp_len",):
                        self.stats[k] = max(self.stats.get(k, 0), val)
                    else:
                        self.stats[k] = self.stats.get(k, 0) + val
        os.remove(st)

    def take(self, o, variant="mon", mon="", prelude=PRELUDE):
        self.count(o.case)
        self.lines += len(o.lines)
        if o.status == "ok":
            return
        if o.status == "inconclusive" or (self.limits_undecided and o.status == "crash" and "(CPU limit)" in o.detail):
            self.inconclusive += 1
            if os.environ.get("VERIF_SHOW"):
                print("inconclusive: %s\n%s" % (o.detail, o.case.src))
            return
        self.report(o, variant, mon, prelude)

    def report(self, o, variant="mon", mon="", prelude=PRELUDE):
        case = o.case
        if case.key and case.key in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[case.key]))
            return
        binary = build.build(variant)
        # prefer the smallest program that shows it
        m = mon.replace("stats", "")
        alone = run_batch(binary, [case], m, prelude)[0]
        src = alone.batch[1] if alone.batch else (o.batch[1] if o.batch else program([case], None, prelude))
        detail = alone.detail if alone.status in ("bad", "crash") else o.detail + " (only after the preceding cases)"
        d = os.path.join(VERIF, "evidence", "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        h = hashlib.blake2b(src.encode("utf8", "surrogateescape"), digest_size=5).hexdigest()
        path = os.path.join(d, h + ".rb")
        with open(path, "w", errors="surrogateescape") as f:
            f.write(src)
        with open(path + ".txt", "w", errors="surrogateescape") as f:
            f.write("property %s seed %s tier %s variant %s RURUBY_MON=%s\n" % (self.prop, self.seed, self.tier, variant, mon))
            f.write("%s: %s\n" % (o.status, detail))
            if case.expect is not None:
                f.write("expected trace:\n%s\n" % "\n".join(case.expect))
            f.write("observed trace:\n%s\n" % "\n".join(o.lines))
        self.violations.append((path, o.status + ": " + detail, case))

    def violation(self, text, source, name=None):
        """A violation found by a check with its own way of running."""
        d = os.path.join(VERIF, "evidence", "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        h = name or hashlib.blake2b((source + text).encode("utf8", "surrogateescape"), digest_size=5).hexdigest()
        path = os.path.join(d, h + ".rb")
        with open(path, "w", errors="surrogateescape") as f:
            f.write(source)
        with open(path + ".txt", "w", errors="surrogateescape") as f:
            f.write(text + "\n")
        self.violations.append((path, text, None))

    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.keys),
                "rule": self.rule or "distinct generated cases (by source text), each of which runs at least one operation and prints a trace that is judged line by line",
                "samples": self.samples or ["none"],
                "trace_lines_judged": self.lines,
                "by_kind": dict(sorted(self.tags.items())),
                "inconclusive": self.inconclusive,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if self.stats:
            ev["coverage"]["monitor"] = self.stats
        ev["coverage"].update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for path, text, _ in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)))
            print("  " + text[:400].replace("\n", " | "))
        print("%s %s seed %d: %d evaluations, %d distinct, %d trace lines, %d inconclusive, %d violations, %.1f s" % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.keys), self.lines, self.inconclusive,
            len(self.violations), time.time() - self.t0))
        if self.violations:
            return 1
        if self.evaluations == 0 or self.inconclusive * 2 > self.evaluations:
            print("inconclusive: too few executions could be judged")
            return 2
        return 0


def load_known(prop):
    res = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    res[m.group(2)] = "key=%s %s" % (m.group(2), m.group(3))
    except OSError:
        pass
    return res
