"""plant.py SPEC.py : confirm planted changes in the scratch copy /tmp/sr and keep them under /verif/seeded/.
SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=<main.rs text>, deps=[...], needs, breaks)]."""
import json, os, shutil, subprocess, sys, tempfile
SR = "/tmp/sr"
DEMO_SH = r'''#!/bin/bash
# exit 0 when the property holds for the demonstrated case, nonzero otherwise. Run with cwd = the repository.
REPO=$(pwd)
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -r -f -- "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
sed "s#@REPO@#$REPO#g" "$HERE/Cargo.toml.in" > "$W/Cargo.toml"
[ -f "$HERE/lock.in" ] && cp "$HERE/lock.in" "$W/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUSTFLAGS="--cap-lints=allow -Cdebuginfo=0" CARGO_INCREMENTAL=0
cd "$W" && cargo build --offline --quiet || exit 2
timeout 120 "$W/target/debug/demo"
'''
DEPS = {
    "api": 'opentelemetry = { path = "@REPO@/opentelemetry", features = ["trace", "metrics", "logs"] }',
    "sdk": 'opentelemetry_sdk = { path = "@REPO@/opentelemetry-sdk", features = ["trace", "metrics", "logs", "testing", "experimental_metrics_custom_reader", "spec_unstable_metrics_views"] }',
    "proto": 'opentelemetry-proto = { path = "@REPO@/opentelemetry-proto", default-features = false, features = ["gen-tonic-messages", "trace", "metrics", "logs"] }',
    "zipkin": 'opentelemetry-zipkin = { path = "@REPO@/opentelemetry-zipkin" }',
    "jaeger": 'opentelemetry-jaeger-propagator = { path = "@REPO@/opentelemetry-jaeger-propagator" }',
    "prom": 'opentelemetry-prometheus = { path = "@REPO@/opentelemetry-prometheus" }\nprometheus = "*"',
    "otlp": 'opentelemetry-otlp = { path = "@REPO@/opentelemetry-otlp" }',
    "http": 'opentelemetry-http = { path = "@REPO@/opentelemetry-http" }\nhttp = "*"',
    "appender-log": 'opentelemetry-appender-log = { path = "@REPO@/opentelemetry-appender-log" }\nlog = { version = "*", features = ["kv"] }',
    "stdout": 'opentelemetry-stdout = { path = "@REPO@/opentelemetry-stdout" }',
    "fut": 'futures-executor = "0.3"',
}
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    sh(f"git -C {SR} checkout -q -- . && git -C {SR} fetch -q /repo HEAD && git -C {SR} reset -q --hard FETCH_HEAD")
    for s in spec["SEEDS"]:
        if only and s["id"] not in only: continue
        sh(f"git -C {SR} checkout -q -- .")
        d = f"/tmp/seeds/{s['id']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, a, b in s["edits"]:
            p = f"{SR}/{f}"; t = open(p).read()
            if t.count(a) != 1: print(s["id"], "EDIT does not apply once:", f, t.count(a), repr(a[:60])); break
            open(p, "w").write(t.replace(a, b))
        else:
            open(d + "/patch.diff", "w").write(sh(f"git -C {SR} diff").stdout)
            open(d + "/main.rs", "w").write(s["demo"])
            deps = s.get("only_deps") or ["api", "sdk"] + s.get("deps", [])
            open(d + "/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n' + "\n".join(DEPS.get(x, x) for x in deps) + "\n")
            open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=SR, capture_output=True, text=True)
            if r1.returncode in (0, 2, 3): print(s["id"], "DEMO with the change: rc", r1.returncode, (r1.stdout + r1.stderr)[-1500:]); continue
            r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
            if r0.returncode: print(s["id"], "DEMO unchanged: rc", r0.returncode, (r0.stdout + r0.stderr)[-1500:]); continue
            b = sh("bash /tmp/sr_build.sh")
            if b.returncode: print(s["id"], "BUILD fails", b.stderr[-1500:]); continue
            sh("bash /tmp/sr_test.sh /tmp/sr_o.json")
            ok = set(json.load(open("/tmp/sr_o.json"))["passed"])
            if BASE - ok: print(s["id"], "TESTS fail:", sorted(BASE - ok)[:5]); continue
            out = os.environ.get("SEED_OUT", "/verif/seeded") + f"/{s['id']}"
            shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
            print(s["id"], "kept; demo said:", (r1.stdout + r1.stderr).strip()[-200:])
    sh(f"git -C {SR} checkout -q -- .")


main()
