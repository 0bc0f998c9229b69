#!/usr/bin/env python3
"""Plants seeded bugs and tries the checks on them, without touching /repo.

  plant.py make SPEC.py [ID...]     write /verif/seeded/ID from the spec and validate each one
  plant.py check ID... [--prop C01,C02] [--tier quick] [--seed N]   run checks against committed seeds

A spec is a Python file with a list SEEDS of dicts: id, prop, file, edits [(old, new), ...] (or files
{file: edits}), needs, breaks, demo (Rust source of main.rs). Each seed is tried in a copy of /repo that is
bind-mounted over /repo in a private mount namespace, so that several can run at once.
"""
import json, os, subprocess, sys, shutil, runpy, re
from concurrent.futures import ThreadPoolExecutor

BASE = "cac7c9a"
SEEDED = "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# Builds demo.rs against the crate in /repo and runs it. Exit 0: the property holds on its input.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUST_BACKTRACE=0
rm -rf /tmp/lc3-demo-@ID@
mkdir -p /tmp/lc3-demo-@ID@/src || exit 2
cp "$here/demo.rs" /tmp/lc3-demo-@ID@/src/main.rs || exit 2
cp /repo/Cargo.lock /tmp/lc3-demo-@ID@/Cargo.lock 2>/dev/null
cat >/tmp/lc3-demo-@ID@/Cargo.toml <<'EOF'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
lc3-ensemble = { path = "/repo" }

[workspace]
EOF
cd /tmp/lc3-demo-@ID@ || exit 2
export CARGO_TARGET_DIR=/tmp/lc3-demo-@ID@/target
cargo build --offline -q 2>/tmp/lc3-demo-@ID@/build.log || { cat /tmp/lc3-demo-@ID@/build.log; rm -rf /tmp/lc3-demo-@ID@; exit 3; }
timeout 120 /tmp/lc3-demo-@ID@/target/debug/demo
rc=$?
cd / && rm -rf /tmp/lc3-demo-@ID@
exit $rc
'''

def sh(cmd, timeout=1200):
    try:
        p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace")

def ns(d, cmd, timeout=1200):
    """Runs cmd with d/repo in the place of /repo."""
    inner = f"mount --bind {d}/repo /repo && {cmd}"
    return sh("unshare -rm bash -c " + "'" + inner.replace("'", "'\\''") + "'", timeout)

def scratch(i):
    d = f"/tmp/p/{i}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    rc, out = sh(f"cp -a --reflink=auto /repo {d}/repo && git -C {d}/repo status --short")
    assert rc == 0 and not out.strip(), out
    return d

def run_checks(d, i, props, tier, seed):
    sh(f"mkdir -p {d}/verif && cd /verif && cp -a check.sh mon known_findings.txt properties.jsonl MANIFEST.json {d}/verif/ && mkdir -p {d}/verif/evidence {d}/mt && cp -a --reflink=auto /verif/target/release {d}/mt/release")
    res = {}
    for prop in props:
        rc, out = ns(d, f"cd {d}/verif && VERIF_SEED={seed} VERIF_DIR={d}/verif MON_TARGET={d}/mt ./check.sh {prop} {tier}", 900)
        hit = rc == 1 and f"VIOLATION property={prop}" in out
        res[prop] = ("CAUGHT" if hit else f"rc={rc}", out[-1500:])
    return res

def make(s):
    i = s["id"]
    log = []
    d = scratch(i)
    try:
        files = s.get("files") or {s["file"]: s["edits"]}
        for f, edits in files.items():
            p = f"{d}/repo/{f}"
            t = open(p, newline="").read()
            for old, new in edits:
                if t.count(old) != 1: return i, f"BAD EDIT ({t.count(old)} matches): {old[:80]!r}"
                t = t.replace(old, new)
            open(p, "w", newline="").write(t)
        rc, diff = sh(f"git -C {d}/repo diff")
        # at least one changed line, and none that our own commits added
        rc, zero = sh(f"git -C {d}/repo diff -U0")
        own = 0; orig = 0; f = None
        for l in zero.splitlines():
            if l.startswith("--- a/"): f = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                n = int(m.group(1)); c = int(m.group(2) or 1)
                if c:
                    _, b = sh(f"git -C /repo blame -s -L {n},{n+c-1} HEAD -- {f}")
                    for bl in b.splitlines():
                        if bl.startswith("^" + BASE[:6]) or bl.startswith(BASE) or BASE in bl[:12]: orig += 1
                        else: own += 1
        if own or not orig: log.append(f"LINES own={own} orig={orig}")
        o = f"{SEEDED}/{i}"
        os.makedirs(o, exist_ok=True)
        open(f"{o}/patch.diff", "w", newline="").write(diff)
        open(f"{o}/demo.sh", "w").write(DEMO_SH.replace("@ID@", i)); os.chmod(f"{o}/demo.sh", 0o755)
        open(f"{o}/demo.rs", "w").write(s["demo"].strip() + "\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{o}/meta.json", "w"), indent=1)
        rc, out = sh(f"bash {o}/demo.sh", 300)
        if rc != 0: log.append(f"DEMO-UNPATCHED rc={rc}: {out[-700:]}")
        rc, out = ns(d, f"bash {o}/demo.sh", 300)
        if rc in (0, 2, 3): log.append(f"DEMO-PATCHED rc={rc}: {out[-700:]}")
        rc, out = ns(d, "bash /opt/vp/build.sh")
        if rc: log.append("BUILD: " + out[-900:])
        rc, out = ns(d, f"bash /opt/vp/test.sh {d}/out.json")
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try:
            r = json.load(open(f"{d}/out.json"))
            passed = set(r.get("passed") or r.get("pass") or [])
            miss = stable - passed
        except Exception as e:
            miss = {str(e)}
        if miss: log.append(f"TESTS: {len(miss)} {sorted(miss)[:3]}")
        res = run_checks(d, i, [s["prop"]], "quick", 1)
        st, out = res[s["prop"]]
        log.append(f"{s['prop']} {st}" + ("" if st == "CAUGHT" else "\n" + out[-600:]))
        return i, " | ".join(log)
    except Exception as e:
        return i, f"EXC {e!r} " + " | ".join(log)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(i, props, tier, seed):
    d = scratch(i + "-c")
    try:
        rc, out = sh(f"git -C {d}/repo apply {SEEDED}/{i}/patch.diff")
        if rc: return i, "APPLY " + out
        sh(f"find {d}/repo/src -name '*.rs' -exec touch {{}} +")
        props = props or [json.load(open(f"{SEEDED}/{i}/meta.json"))["property"]]
        res = run_checks(d, i, props, tier, seed)
        return i, " ".join(f"{p}:{r[0]}" + ("" if r[0] == "CAUGHT" else "\n" + r[1][-500:]) for p, r in res.items())
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    mode = sys.argv[1]
    args = sys.argv[2:]
    def opt(name, dflt):
        if name in args:
            k = args.index(name); v = args[k+1]; del args[k:k+2]; return v
        return dflt
    jobs = int(opt("--jobs", "4"))
    if mode == "make":
        seeds = runpy.run_path(args[0])["SEEDS"]
        if args[1:]: seeds = [s for s in seeds if s["id"] in args[1:]]
        with ThreadPoolExecutor(jobs) as ex:
            for i, r in ex.map(make, seeds): print(i, r, flush=True)
    else:
        props = opt("--prop", ""); props = [p for p in props.split(",") if p]
        tier = opt("--tier", "quick"); seed = opt("--seed", "1")
        ids = args or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(jobs) as ex:
            for i, r in ex.map(lambda i: check(i, props, tier, seed), ids): print(i, r, flush=True)
