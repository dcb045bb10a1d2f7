"""Run Verus on a generated file and classify what it says."""
import json
import os
import re
import signal
import subprocess
import time

# messages that report a failed obligation; anything else is an error of the input (undecided)
OBLIGATION = re.compile(
    r"(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible arithmetic (underflow|overflow)|possible division by zero|decreases not satisfied|"
    r"loop invariant not satisfied|loop ensures not satisfied|recommendation not met|possible bit shift|"
    r"unreachable|cannot show invariant|unable to prove|termination|must (be|have)|possible .*overflow|requires? not satisfied|"
    r"ensures not satisfied|not satisfied|assert_bitvector|failed)")
RLIMIT = re.compile(r"(resource limit|rlimit|timed? ?out|canceled|solver)", re.I)


def run(path, rlimit=40, timeout=400, threads=8, extra=()):
    cmd = ["verus", path, "--output-json", "--error-format=json", "--time", "--multiple-errors", "8",
           "--rlimit", str(rlimit), "--num-threads", str(threads), *extra]
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=os.path.dirname(path), start_new_session=True)
        stdout, stderr = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return dict(cmd=" ".join(cmd), status="undecided", why="verifier timed out", failures=[], verified=0, errors=0, secs=timeout, smt_ms=0, out="")
    secs = time.time() - t0
    js = None
    try:
        js = json.loads(stdout[stdout.index("{"):])
    except Exception:
        pass
    fails, others, rl = [], [], []
    for ln in stderr.splitlines():
        if not ln.startswith("{"):
            continue
        try:
            d = json.loads(ln)
        except Exception:
            continue
        if d.get("level") != "error" or d.get("message", "").startswith("aborting"):
            continue
        spans = d.get("spans", [])
        prim = [s for s in spans if s.get("is_primary")] or spans
        rec = dict(message=d["message"], line=prim[0]["line_start"] if prim else 0,
                   text=(prim[0]["text"][0]["text"].strip() if prim and prim[0].get("text") else ""),
                   lines=[s["line_start"] for s in spans if s.get("file_name", "").endswith(os.path.basename(path))],
                   labels=[(s.get("label") or "") + " @ " + (s["text"][0]["text"].strip() if s.get("text") else "") for s in spans],
                   rendered=d.get("rendered", ""))
        if RLIMIT.search(d["message"]):
            rl.append(rec)
        elif d.get("code") is None and OBLIGATION.search(d["message"]) and "not supported" not in d["message"]:
            fails.append(rec)
        else:
            others.append(rec)
    vr = (js or {}).get("verification-results", {})
    res = dict(cmd=" ".join(cmd), verified=vr.get("verified", 0), errors=vr.get("errors", 0), secs=round(secs, 2),
               smt_ms=((js or {}).get("times-ms", {}).get("smt", {}) or {}).get("total", 0),
               failures=fails, out=stderr[-6000:] if not fails else "")
    if others or js is None or vr.get("encountered-vir-error"):
        res.update(status="undecided", why="verifier cannot take the lifted text: " +
                   (others[0]["message"] + " @ " + others[0]["text"] if others else "no verdict"), failures=[])
    elif fails and not rl:
        res.update(status="failed", why="")
    elif rl:
        res.update(status="undecided" if not fails else "failed", why="resource limit: " + rl[0]["text"])
    elif vr.get("success") and vr.get("verified", 0) > 0:
        res.update(status="proved", why="")
    else:
        res.update(status="undecided", why="no verdict: " + stderr[-300:])
    return res


def fn_at(text, line):
    """name of the function (generated text) around a line, whether it is lifted"""
    lines = text.split("\n")
    lifted = None
    for i in range(min(line, len(lines)) - 1, -1, -1):
        if lines[i].startswith("// ---- end lifted"):
            break
        m = re.match(r"// ---- lifted from (.*)", lines[i])
        if m:
            lifted = m.group(1); break
    name = None
    for i in range(min(line, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+([A-Za-z_0-9]+)", lines[i])
        if m and not lines[i].strip().startswith("//"):
            name = m.group(1); break
    return name, lifted
