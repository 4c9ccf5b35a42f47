"""seeds.py: which planted changes no longer apply to /repo's HEAD or change only lines our own commits added."""
import os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
git = lambda *a: subprocess.run(["git", "-C", R] + list(a), capture_output=True, text=True)
base = git("rev-list", "--max-parents=0", "HEAD").stdout.strip()
blames = {}


def old(path):
    if path not in blames:
        blames[path] = [l.lstrip("^")[:12] == base[:12] for l in (x.split()[0] for x in git("blame", "-l", "-s", "HEAD", "--", path).stdout.splitlines())]
        lines = git("blame", "-l", "-s", "HEAD", "--", path).stdout.splitlines()
        blames[path] = [x.split()[0].lstrip("^").startswith(base[:30]) for x in lines]
    return blames[path]


for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    p = os.path.join(ROOT, "seeded", s, "patch.diff")
    if git("apply", "--check", p).returncode:
        print(s, "does not apply")
        continue
    git("apply", p)
    text = git("diff", "-U0").stdout
    git("checkout", "--", ".")
    ok = False
    path = None
    for line in text.splitlines():
        if line.startswith("--- a/"):
            path = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            at, n = int(m[1]), int(m[2] or 1)
            q = [old(path)[i - 1] for i in (range(at, at + n) if n else (at, at + 1)) if 1 <= i <= len(old(path))]
            ok |= bool(q) and (any(q) if n else all(q))
    print(s, "ok" if ok else "ONLY OWN LINES")
