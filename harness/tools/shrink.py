"""shrink.py REPLAY.rb MON [BASE] : reduces a program whose behaviour under MON differs from that under BASE (default gc=never)."""
import os
import re
import subprocess
import sys
import tempfile

TMP = os.path.join(tempfile.mkdtemp(), "x.rb")
BIN = os.environ.get("BIN") or subprocess.check_output(
    [sys.executable, "-c", "import sys;sys.path.insert(0,'/verif/harness');import build;print(build.build('mon'))"]).decode().split("\n")[-2]
path, mon = sys.argv[1], sys.argv[2].replace("stats", "")
base = sys.argv[3] if len(sys.argv) > 3 else "gc=never"
text = open(path, errors="surrogateescape").read()
i = text.index("puts '@@")
pre, body = text[:i], text[i:]


def run(src, m):
    try:
        with open(TMP, "wb") as f:
            f.write(src.encode("utf8", "surrogateescape"))
        p = subprocess.run([BIN, TMP], capture_output=True,
                           env=dict(os.environ, RURUBY_MON=m), timeout=20)
        return p.returncode, re.sub(rb"0x[0-9a-f]+", b"", p.stdout)
    except subprocess.TimeoutExpired:
        return -99, b""


def bad(b):
    r = run(pre + b, base)
    if r[0] != 0:
        return False
    return run(pre + b, mon) != r


assert bad(body), "does not show"


def spans(s):
    st, out = [], []
    pair = {")": "(", "]": "[", "}": "{"}
    for i, c in enumerate(s):
        if c in "([{":
            st.append((c, i))
        elif c in ")]}" and st and st[-1][0] == pair[c]:
            out.append((st.pop()[1], i + 1))
    return sorted(out, key=lambda x: x[0] - x[1])


changed = True
while changed:
    changed = False
    lines = body.split("\n")
    n = max(1, len(lines) // 2)
    while n:
        i = 0
        while i < len(lines):
            cand = lines[:i] + lines[i + n:]
            if bad("\n".join(cand)):
                lines = cand
                changed = True
            else:
                i += n
        n //= 2
    body = "\n".join(lines)
    again = True
    while again:
        again = False
        for a, b in spans(body):
            inner = body[a + 1:b - 1]
            j = a
            while j > 0 and (body[j - 1].isalnum() or body[j - 1] in "_.:&*"):
                j -= 1
            cands = [body[:a] + body[b:], body[:a] + body[a] + body[b - 1] + body[b:]]
            for x in ("nil", "mk(1)"):
                if body[j:b] != x:
                    cands.append(body[:j] + x + body[b:])
            if body[a] in "([":
                cands.append(body[:j] + inner + body[b:])
                depth, cut = 0, [0]
                for q, c in enumerate(inner):
                    depth += c in "([{"
                    depth -= c in ")]}"
                    if c == "," and depth == 0:
                        cut.append(q + 1)
                cut.append(len(inner) + 1)
                for q in range(len(cut) - 1):
                    cands.append(body[:j] + inner[cut[q]:cut[q + 1] - 1].strip() + body[b:])
            elif "|" in inner:
                cands.append(body[:j] + inner.split("|")[-1] + body[b:])
            for c in cands:
                if len(c) < len(body) and bad(c):
                    body = c
                    changed = again = True
                    break
            if again:
                break
print(body)
# the definitions that are not needed
lines = pre.split("\n")
defs = []
pre0 = pre
