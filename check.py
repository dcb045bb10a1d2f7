#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property against /repo's current working tree.

1. lift the contracted functions out of the source, run Verus on them (deciding step);
2. vacuity guard: the same files with `assert(false)` at every lifted body must fail everywhere;
3. Kani proofs on the real crates, where the property has them;
4. run the executable form of the contracts on the real code (bounded; finds the failing input for a
   failed obligation, and stands in for what is outside the verifier's reach).
Exit 0 / 1 (+ VIOLATION line) / 2 (no answer)."""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import extract          # noqa: E402
import verusrun         # noqa: E402
import kanirun          # noqa: E402
from props import PROPS  # noqa: E402

WORK = os.path.join(HERE, ".work")
TRUSTED = re.compile(r"(assume_specification[^\[]*\[([^\]]*(?:\[[^\]]*\][^\]]*)*)\]|external_body|admit\(\)|\bassume\(|uninterp spec fn (\w+)|broadcast axiom fn (\w+)|axiom fn (\w+))")


def trusted_scan(unit, text):
    out = []
    lines = text.split("\n")
    for i, ln in enumerate(lines):
        s = ln.split("//")[0]
        m = re.search(r"assume_specification.*\[(.+)\]\s*\(", s)
        if m:
            out.append(f"{unit}: assumed contract on external `{m.group(1).strip()}`"); continue
        if "external_body" in s:
            nm = ""
            for j in range(i, min(i + 6, len(lines))):
                k = re.search(r"\b(fn|struct|enum)\s+(\w+)", lines[j])
                if k:
                    nm = k.group(2); break
            out.append(f"{unit}: external_body `{nm}` (contract assumed, body not verified)"); continue
        m = re.search(r"\b(?:uninterp\s+spec|axiom)\s+fn\s+(\w+)", s)
        if m:
            out.append(f"{unit}: {'uninterpreted' if 'uninterp' in s else 'axiom'} `{m.group(1)}`"); continue
        if re.search(r"\b(admit|assume)\s*\(", s):
            out.append(f"{unit}: assume/admit: {s.strip()}")
    return out


def prove(pid, unit, tier):
    path = os.path.join(HERE, "units", unit)
    w = os.path.join(WORK, pid)
    os.makedirs(w, exist_ok=True)
    r = dict(unit=unit, status="undecided", failures=[], fns=[], trusted=[], verified=0, errors=0, secs=0, smt_ms=0, why="", vacuity="")
    try:
        text, u = extract.build(path)
        rtext, _ = extract.build(path, reach=True)
    except extract.Lost as e:
        r["why"] = f"anchor lost: {e}"
        return r
    gen = os.path.join(w, unit)
    open(gen, "w").write(text)
    v = verusrun.run(gen, rlimit=80 if tier == "thorough" else 40)
    r.update({k: v[k] for k in ("status", "why", "verified", "errors", "secs", "smt_ms", "cmd", "out")})
    r["fns"] = [f"{f['file']}:{f['line']} {f['fn']}" for f in u.fns]
    r["items"] = u.items
    r["dropped"] = sorted(set(u.drops))
    r["rewrites"] = u.subst_log
    r["trusted"] = trusted_scan(unit, text)
    r["clauses"] = len(re.findall(r"\bensures\b|\binvariant\b|\brequires\b|\bdecreases\b", text))
    for f in v["failures"]:
        fn, lifted = verusrun.fn_at(text, f["line"])
        if not lifted:
            for ln in f.get("lines", []):
                fn2, l2 = verusrun.fn_at(text, ln)
                if l2:
                    fn, lifted = fn2, l2
                    break
        r["failures"].append(dict(obligation=f["message"], where=f["text"], function=fn, source=lifted, labels=f["labels"], rendered=f["rendered"]))
    if r["status"] == "failed" and not any(f["source"] for f in r["failures"]):
        r["status"] = "undecided"
        r["why"] = "only auxiliary lemmas failed (they do not depend on /repo)"
    if r["status"] == "proved" and u.fns:
        # reachability: every lifted body must be reachable under its precondition and the trusted contracts
        rg = os.path.join(w, "reach_" + unit)
        open(rg, "w").write(rtext)
        rv = verusrun.run(rg, rlimit=20)
        # lines of the planted assert(false)
        lines = [i + 1 for i, l in enumerate(rtext.split("\n")) if l.strip() == "proof { assert(false); }"]
        hit = {f["line"] for f in rv["failures"]}
        missing = [l for l in lines if l not in hit]
        if rv["status"] not in ("failed",) or missing:
            r["status"] = "undecided"
            r["why"] = f"vacuity guard: assert(false) accepted or undecided in {len(missing)} of {len(lines)} bodies"
        r["vacuity"] = f"assert(false) rejected in {len(lines) - len(missing)}/{len(lines)} lifted bodies"
        r["secs"] = round(r["secs"] + rv["secs"], 2)
    return r


def build_harness(crate, log):
    d = os.path.join(HERE, "harness", crate)
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(WORK, "target"), CARGO_TERM_COLOR="never",
               RUSTFLAGS="--cap-lints=allow -Cdebuginfo=0", CARGO_INCREMENTAL="0")
    t0 = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=d, env=env, capture_output=True, text=True)
    log["build_s"] = round(time.time() - t0, 1)
    if p.returncode:
        log["build_error"] = (p.stdout + p.stderr)[-3000:]
        return None
    return os.path.join(WORK, "target", "debug", crate)


def run_harness(pid, crate, tier, seed, log):
    exe = build_harness(crate, log)
    if not exe:
        return None
    out = os.path.join(WORK, pid, "harness.json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    t0 = time.time()
    try:
        p = subprocess.run([exe, pid, tier, str(seed), out], capture_output=True, text=True,
                           timeout=240 if tier == "quick" else 3000, cwd=os.path.join(WORK, pid))
    except subprocess.TimeoutExpired:
        return dict(evaluations=0, distinct=0, samples=[], rule="", failures=[dict(case="whole run", detail="the harness did not finish: the code under test hangs")], timeout=True)
    log["run_s"] = round(time.time() - t0, 1)
    try:
        return json.load(open(out))
    except Exception:
        return dict(evaluations=0, distinct=0, samples=[], rule="",
                    failures=[dict(case="whole run", detail=f"the process under test died (rc={p.returncode}): " + (p.stdout + p.stderr)[-1500:])])


def known():
    """known_findings.txt: `known: property=<id> case=<regex on case text> :: description`"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) case=(.*?) :: (.*)", ln.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(WORK, pid), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)

    import concurrent.futures as cf
    hlog = {}
    with cf.ThreadPoolExecutor(6) as ex:
        fh = ex.submit(run_harness, pid, P["harness"], tier, seed, hlog) if P.get("harness") else None
        fu = [ex.submit(prove, pid, u, tier) for u in P["units"]]
        proofs = [f.result() for f in fu]
        h = fh.result() if fh else None
    kani = kanirun.run(pid, P["kani"], tier, WORK, HERE) if P.get("kani") else None

    failed = [f | {"unit": r["unit"]} for r in proofs for f in r["failures"] if r["status"] == "failed"]
    undecided = [f"{r['unit']}: {r['why']}" for r in proofs if r["status"] == "undecided"]
    kfail = []
    if kani:
        kfail = kani["failures"]
        undecided += kani["undecided"]
    hfail, knownhits = [], []
    if h is not None:
        kn = [k for k in known() if k[0] == pid]
        for f in h["failures"]:
            k = next((k for k in kn if re.search(k[1], f["case"])), None)
            if k:
                knownhits.append(k)
            else:
                hfail.append(f)

    violation = bool(failed or kfail or hfail)
    n_obl = sum(r["verified"] + r["errors"] for r in proofs) + (kani["checks"] if kani else 0)
    n_dis = sum(r["verified"] for r in proofs) + (kani["passed"] if kani else 0)
    fns = [x for r in proofs for x in r["fns"]] + (kani["fns"] if kani else [])
    trusted = sorted({t for r in proofs for t in r["trusted"]}) + (kani["trusted"] if kani else []) + P.get("trusted", []) + [
        "Verus 0.2026.09.13 + Z3, vstd's specifications of the Rust standard library; rustc",
        "the extraction (lib/rustlex.py, lib/extract.py); what it dropped or rewrote in this run is listed under `dropped`/`rewrites`",
    ]
    cov = dict(
        obligations=n_obl, discharged=n_dis,
        checker_cmd="; ".join([r.get("cmd", "").replace(HERE, "/verif") for r in proofs if r.get("cmd")] + ([kani["cmd"]] if kani else [])),
        trusted_base=trusted,
        functions_under_contract=fns,
        contract_clauses=sum(r.get("clauses", 0) for r in proofs),
        lifted_items=[x for r in proofs for x in r.get("items", [])],
        dropped=sorted({d for r in proofs for d in r.get("dropped", [])}),
        rewrites=[d for r in proofs for d in r.get("rewrites", [])],
        units=[dict(unit=r["unit"], status=r["status"], why=r["why"], verified=r["verified"], errors=r["errors"], wall_s=r["secs"],
                    solver_ms=r["smt_ms"], vacuity=r["vacuity"]) for r in proofs],
        undecided_by_proof=undecided,
        failed_obligations=[dict(unit=f["unit"], obligation=f["obligation"], function=f["function"], source=f["source"], where=f["where"]) for f in failed],
    )
    if kani:
        cov["kani"] = dict(harnesses=kani["harnesses"], secs=kani["secs"])
    if h is not None:
        cov["bounded_stand_in"] = dict(what=P.get("bounded", ""), evaluations=h["evaluations"], distinct_nontrivial=h["distinct"], rule=h["rule"],
                                       samples=h["samples"][:6], failures=len(h["failures"]), **hlog)
        cov["evaluations"] = h["evaluations"]
        cov["distinct_nontrivial"] = h["distinct"]
        cov["rule"] = h["rule"]
        cov["samples"] = h["samples"][:6]
    elif P.get("harness"):
        cov["bounded_stand_in"] = dict(hlog)
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "proof"), coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(failed) + len(kfail) + len(hfail))
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for r in proofs:
        print(f"[{pid}] {r['unit']}: {r['status']} ({r['verified']} verified, {r['errors']} errors, {r['secs']}s) {r['why']} {r['vacuity']}")
    if kani:
        print(f"[{pid}] kani: {kani['passed']}/{kani['checks']} ({kani['secs']}s) {kani['undecided']}")
    if h is not None:
        print(f"[{pid}] contracts executed on the real code: {h['evaluations']} evaluations, {len(h['failures'])} failing {hlog}")
    else:
        print(f"[{pid}] harness not run: {hlog.get('build_error', '')[:1500]}")
    for k in sorted(set(knownhits)):
        print(f"KNOWN-FINDING: property={pid} {k[2]}")

    if violation:
        rp = os.path.join(HERE, "replays", f"{pid}.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}\n\n")
            for x in hfail[:10]:
                f.write(f"FAILING INPUT on the real code\n  case: {x['case']}\n  observed: {x['detail']}\n\n")
            if hfail:
                f.write(f"replay: cd /verif/harness/{P['harness']} && CARGO_TARGET_DIR=/verif/.work/target cargo build --offline --locked"
                        f" && /verif/.work/target/debug/{P['harness']} {pid} {tier} {seed} /dev/stdout\n\n")
            for x in failed:
                f.write(f"FAILED OBLIGATION ({x['unit']}): {x['obligation']}\n  function: {x['function']}  source: {x['source']}\n  at: {x['where']}\n"
                        + "".join(f"    {l}\n" for l in x["labels"]) + x["rendered"] + "\n")
            for x in kfail:
                f.write(f"KANI FAILURE: {x['harness']}\n{x['detail']}\n")
            for x in undecided:
                f.write(f"undecided: {x}\n")
        tail = "" if (hfail or any(k.get("input") for k in kfail)) else " no-failing-input-found"
        for x in (hfail[:3]):
            print(f"  failing input: {x['case'][:400]} -> {x['detail'][:300]}")
        for x in failed[:5]:
            print(f"  failed obligation: {x['obligation']} in {x['source']} at `{x['where']}`")
        print(f"VIOLATION property={pid} replay={rp}{tail}")
        return 1
    if h is None and P.get("harness") and undecided:
        print(f"[{pid}] no answer: proofs undecided and the stand-in did not build")
        return 2
    print(f"[{pid}] holds on everything explored" + (f" (by bounded stand-in only: {'; '.join(undecided)})" if undecided else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
