"""setup_cmd: the tools are here, and every unit's anchors resolve in /repo."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in (["verus", "--version"], ["cargo", "--version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
for u in sorted(glob.glob(HERE + "/units/*.rs")):
    try:
        t, x = extract.build(u)
        print(os.path.basename(u), len(x.fns), "functions lifted")
    except extract.Lost as e:
        print(os.path.basename(u), "anchor lost:", e)
