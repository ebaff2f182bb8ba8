"""Lists planted bugs which do not apply or change only lines added by later commits of /repo."""
import os, re, subprocess, sys
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]
first = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
own = {l.split()[0][:8] for l in first if l.split(" ", 1)[1].startswith(("fix:", "hook"))}
seeded = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
for d in sorted(os.listdir(seeded)):
    patch = os.path.join(seeded, d, "patch.diff")
    if subprocess.run(["git", "-C", "/repo", "apply", "--check", patch], capture_output=True).returncode:
        print("does not apply:", d)
        continue
    name, ok, removed = None, False, 0
    for l in open(patch):
        if l.startswith("--- a/"):
            name = l[6:].strip()
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", name], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            ok |= blame[n - 1].lstrip("^")[:8] not in own
            n += 1
        elif l.startswith(" "):
            n += 1
    if not ok:
        print("own lines only:" if removed else "adds lines only:", d)
