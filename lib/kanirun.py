"""Kani on functions lifted mechanically (kani/*.rs): complete for loop-free code over all values of its inputs.

A harness is believed only if every cover! in it is satisfied (its assumptions are not contradictory) and no unwinding
assertion failed; anything else is undecided. Float-class checks CBMC adds by itself (NaN, infinity) are no failures in Rust."""
import os, re, signal, subprocess, time
import extract
BENIGN = re.compile(r"^(NaN on|arithmetic overflow on floating-point|float(ing-point)?[ -])", re.I)


def _one(pid, unit, tier, work, here):
    r = dict(checks=0, passed=0, failures=[], undecided=[], fns=[], harnesses=[], secs=0.0, cmd="", rewrites=[])
    path = os.path.join(here, "kani", unit["file"])
    bounded = unit.get("bounded")
    try:
        text, u = extract.build(path)
    except extract.Lost as e:
        r["undecided"].append(f"{unit['file']}: anchor lost: {e}")
        return r
    d = os.path.join(work, pid, "kani_" + unit["file"][:-3])
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, unit["file"])
    open(f, "w").write(text)
    r["fns"] = [f"{x['file']}:{x['line']} {x['fn']} (Kani{', bounded: ' + bounded if bounded else ''})" for x in u.fns]
    cmd = ["kani", f, "--edition", "2021"] if False else ["kani", f]
    r["cmd"] = "kani " + f.replace(here, "/verif")
    t0 = time.time()
    env = dict(os.environ); env.pop("RUSTFLAGS", None)
    try:
        p = subprocess.Popen(cmd + unit.get("args", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, env=env, start_new_session=True)
        out, _ = p.communicate(timeout=unit.get("timeout", 600) * (4 if tier == "thorough" else 1))
    except subprocess.TimeoutExpired:
        # CBMC runs below Kani and would go on by itself
        os.killpg(p.pid, signal.SIGKILL); p.wait()
        r["undecided"].append(f"{unit['file']}: Kani ran out of time"); r["secs"] = round(time.time() - t0, 1)
        return r
    r["secs"] = round(time.time() - t0, 1)
    parts = re.split(r"^Checking harness ([\w:]+)\.\.\.", out, flags=re.M)
    if len(parts) < 3:
        r["undecided"].append(f"{unit['file']}: Kani did not accept the lifted text: " + out.strip()[-400:])
        return r
    for name, body in zip(parts[1::2], parts[2::2]):
        checks = re.findall(r"Check \d+: (\S+)\s+- Status: (\w+)\s+- Description: \"(.*?)\"(?:\s+- Location: (.*?)\n)?", body, re.S)
        bad, cov_bad, unw = [], [], False
        nprop = 0
        for ident, st, desc, loc in checks:
            if st in ("SATISFIED", "UNSATISFIABLE", "UNREACHABLE") and ".cover." in ident:
                if st != "SATISFIED": cov_bad.append(desc)
                continue
            nprop += 1
            if st == "FAILURE":
                if BENIGN.search(desc): continue
                if "unwinding" in ident or "unwind" in ident: unw = True; continue
                bad.append((desc, loc))
        done = "VERIFICATION:- " in body
        r["checks"] += nprop
        ok = done and not bad and not cov_bad and not unw
        if bad and not unw or any("unsupported" not in d.lower() and "reachable" not in d.lower() for d, _ in bad) and not unw:
            r["failures"].append(dict(harness=f"{unit['file']} {name}", detail="\n".join(f"{d} at {l}" for d, l in bad), obligations=[d for d, _ in bad]))
            r["passed"] += nprop - len(bad)
        elif ok:
            r["passed"] += nprop
        else:
            r["undecided"].append(f"{unit['file']} {name}: " + ("cover not satisfied: " + "; ".join(cov_bad) if cov_bad else "unwinding bound too small" if unw else "no result"))
        r["harnesses"].append(dict(name=name, status="proved" if ok else "failed" if bad else "undecided", checks=nprop, bounded=bounded or ""))
    return r


def run(pid, units, tier, work, here):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda u: _one(pid, u, tier, work, here), units))
    m = dict(checks=0, passed=0, failures=[], undecided=[], fns=[], harnesses=[], secs=0.0, cmd="",
             trusted=["Kani 0.68.0 + CBMC 6.11.0 (IEEE-754 floats, machine integers)"])
    for r in rs:
        for k in ("checks", "passed", "secs"): m[k] = round(m[k] + r[k], 1)
        for k in ("failures", "undecided", "fns", "harnesses"): m[k] += r[k]
    m["cmd"] = "; ".join(r["cmd"] for r in rs if r["cmd"])
    return m
