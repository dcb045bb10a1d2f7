"""dev.py UNIT [reach] : assemble a unit and show what Verus says about it."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(HERE + "/.work/dev", exist_ok=True)
reach = len(sys.argv) > 2 and sys.argv[2] == "reach"
text, u = extract.build(os.path.join(HERE, "units", sys.argv[1]), reach=reach)
p = HERE + "/.work/dev/" + sys.argv[1]
open(p, "w").write(text)
r = subprocess.run(["verus", p, "--multiple-errors", "8", "--rlimit", "60"] + sys.argv[3 if reach else 2:], capture_output=True, text=True)
print((r.stdout + r.stderr)[:7000])
