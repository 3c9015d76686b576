#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in seeded_bugs.py.

usage: mkseeded.py [ID ...]

For each bug: edits a scratch copy of the repository, confirms that it builds
and passes the repository's tests, that the demonstration fails with the edit
and passes without it, and only then keeps it.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from seeded_bugs import BUGS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "seeded")
REPO = "/repo"

DEMO = r'''#!/usr/bin/env bash
# Builds and runs demo.rs against the crate in the current directory.
# Exit status: 0 if the property holds, nonzero if it is broken.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/demo.rs" "$tmp/src/main.rs" || exit 2
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rescan = { path = "$repo" }
END
export PATH="$PATH:/root/.cargo/bin" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
flags="--cfg rescan_verif"
for area in settings runtime tree literal modes info graph connect builder reports depth sets \
            arithmetic string describe dump; do
    flags="$flags --cfg rescan_verif=\"$area\""
done
export CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS="$flags" RUST_BACKTRACE=0
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_ENCODED_RUSTFLAGS
cd "$tmp" || exit 2
cargo build --offline -q 2> build.log || { cat build.log >&2; exit 2; }
timeout 120 "$tmp/target/debug/demo"
'''
ENV = dict(os.environ, PATH=os.environ["PATH"] + ":/root/.cargo/bin",
           RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def one(b):
    d = os.path.join(OUT, b["id"])
    with tempfile.TemporaryDirectory() as tmp:
        wt = os.path.join(tmp, "repo")
        run(["git", "clone", "-q", REPO, wt], "/")
        lock = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lock) and not os.path.exists(wt + "/Cargo.lock"):
            shutil.copy(lock, wt)
        bad = []
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad.append(f"{f}: {s.count(old)} matches of {old[:50]!r}")
                continue
            open(p, "w").write(s.replace(old, new))
        if bad:
            return b["id"], "EDIT " + "; ".join(bad)
        diff = run(["git", "diff"], wt).stdout
        work = os.path.join(tmp, b["id"])
        os.makedirs(work)
        open(os.path.join(work, "demo.rs"), "w").write(b["demo"].strip() + "\n")
        open(os.path.join(work, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(work, "demo.sh"), 0o755)
        open(os.path.join(work, "patch.diff"), "w").write(diff)
        meta = {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}
        open(os.path.join(work, "meta.json"), "w").write(json.dumps(meta, indent=1) + "\n")
        t = run(["cargo", "test", "--offline", "-q"], wt)
        if t.returncode != 0:
            return b["id"], "TESTS " + t.stdout[-1500:]
        r = run(["bash", work + "/demo.sh"], wt)
        if r.returncode in (0, 2):
            return b["id"], f"DEMO passes or does not build with patch ({r.returncode}) " + r.stdout[-1500:]
        run(["git", "checkout", "-q", "--", "."], wt)
        r = run(["bash", work + "/demo.sh"], wt)
        if r.returncode != 0:
            return b["id"], f"DEMO fails on clean tree ({r.returncode}) " + r.stdout[-1500:]
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(work, d)
    return b["id"], "ok"


def main():
    want = sys.argv[1:]
    todo = [b for b in BUGS if not want or b["id"] in want]
    assert len({b["id"] for b in BUGS}) == len(BUGS)
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(one, todo):
            print(i, r, flush=True)


main()
