"""catch.py [ids] : apply each planted change to /repo, run its property's check, undo; print what happened."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip(), "/repo is dirty"
for i in ids:
    d = f"{HERE}/seeded/{i}"
    pid = json.load(open(d + "/meta.json"))["property"]
    a = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
    if a.returncode: print(i, pid, "PATCH DOES NOT APPLY", a.stderr[:200]); continue
    try:
        p = subprocess.run(["python3", "check.py", pid], cwd=HERE, capture_output=True, text=True, timeout=900)
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    proof = "proof" if "failed obligation" in p.stdout else ("undecided" if ": undecided" in p.stdout else "-")
    inp = "input" if "failing input" in p.stdout else "-"
    v = re.search(r"^VIOLATION property=(\S+).*", p.stdout, re.M)
    print(i, pid, "caught" if v and v.group(1) == pid and p.returncode == 1 else f"MISSED rc={p.returncode}", proof, inp, flush=True)
    if "-v" in sys.argv: print(p.stdout)
