#!/usr/bin/env python3
"""mkseed.py SPEC.py...  : (developer tool) makes /verif/seeded/<id>/ from a spec and validates it in a scratch copy.
A spec file holds a list SEEDS of dict(id, property, edits=[(file, old, new)], demo=rust source, needs, breaks)."""
import json, os, subprocess, sys, shutil
VERIF = "/verif"
WT = "/tmp/wt"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
DEMO = '''#!/bin/bash
# builds and runs demo.rs against the crate in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
termimad = { path = "$repo" }
serde = "1"
serde_json = "1"
[profile.dev]
debug = 0
[workspace]
END
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER=
cargo build --offline -q --manifest-path "$tmp/Cargo.toml" || exit 2
%s
'''


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


def fresh():
    if not os.path.isdir(WT):
        sh("cp -a /repo %s" % WT)
    rc, o = sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq", WT)
    assert rc == 0, o


def main():
    specs = []
    files = [a for a in sys.argv[1:] if a.endswith(".py")]
    ids = [a for a in sys.argv[1:] if not a.endswith(".py")]
    for f in files:
        ns = {}
        exec(open(f).read(), ns)
        specs += [x for x in ns["SEEDS"] if not ids or x["id"] in ids]
    fresh()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in specs:
        d = os.path.join(VERIF, "seeded", s["id"])
        sh("git checkout -q -- .", WT)
        os.makedirs(d, exist_ok=True)
        with open(d + "/demo.rs", "w") as f:
            f.write(s["demo"].strip() + "\n")
        with open(d + "/demo.sh", "w") as f:
            f.write(DEMO % s.get("run", 'timeout 60 "$tmp/target/debug/demo"'))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        rc0, o0 = sh("bash %s/demo.sh" % d, WT)
        if rc0 != 0:
            print("%s: DEMO FAILS ON CLEAN (%d)\n%s" % (s["id"], rc0, o0[-3000:]))
            continue
        ok = True
        for fn, a, b in s["edits"]:
            p = os.path.join(WT, fn)
            t = open(p).read()
            if t.count(a) != 1:
                print("%s: edit matches %d times in %s: %r" % (s["id"], t.count(a), fn, a))
                ok = False
                break
            open(p, "w").write(t.replace(a, b))
        if not ok:
            continue
        rc, o = sh("git diff > %s/patch.diff" % d, WT)
        rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1", WT)
        import re
        failed = re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)
        npass = len(re.findall(r"\.\.\. ok$", o, re.M))
        rc1, o1 = sh("bash %s/demo.sh" % d, WT)
        rcc, oc = sh("VERIF_REPO=%s python3 /verif/check.py %s" % (WT, s["property"]), VERIF)
        print("%s: tests ok=%d failed=%s ; demo clean=0 patched=%d ; check %s rc=%d" %
              (s["id"], npass, failed, rc1, s["property"], rcc))
        if npass == 0:
            print(o[-2000:])
        if rc1 == 0 or rc1 == 2:
            print("   DEMO:", o1[-1500:])
        if rcc == 0:
            print("   NOT CAUGHT")
        else:
            print("   " + "\n   ".join(oc.strip().split("\n")[-6:])[:900])
    sh("git checkout -q -- .", WT)


main()
