#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the bug definitions in bugs*.py:
patch.diff (made in a scratch copy), demo.sh, demo.rs, meta.json."""
import glob, json, os, subprocess, sys, tempfile, shutil
R = "/verif"
HEAD = '''#!/bin/bash
# Runs in the repository: builds the program beside this file against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
funspace = { path = "$repo"%(feat)s }
ndarray = { version = "0.17", features = ["rayon"] }
num-complex = "0.4"
num-traits = "0.2"
[profile.dev]
debug = 0
%(prof)s
END
unset CARGO_TARGET_DIR RUSTFLAGS
export LIBCLANG_PATH=${LIBCLANG_PATH:-/usr/lib/llvm-14/lib}
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" TMPDIR="$tmp"
(cd "$tmp" && cargo build --offline -q) || exit 8
'''
RUN = {None: 'cd "$tmp" && timeout 120 "$tmp/target/debug/demo"\n',
       "mpi": 'cd "$tmp" && OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent= \\\n'
              '  timeout 120 mpirun --allow-run-as-root --oversubscribe --bind-to none -np %d "$tmp/target/debug/demo"\n'}

def main(want):
    bugs = []
    for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/bugs*.py")):
        ns = {}
        exec(open(f).read(), ns)
        bugs += ns["BUGS"]
    for b in bugs:
        if want and b["id"] not in want:
            continue
        d = f"{R}/seeded/{b['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = tempfile.mkdtemp()
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        for path, old, new in b["edits"]:
            s = open(f"{w}/{path}").read()
            nth = None
            if isinstance(old, tuple):
                old, nth = old
            k = s.count(old)
            if nth is None:
                assert k == 1, (b["id"], path, k, old)
                s = s.replace(old, new)
            else:
                assert k > nth, (b["id"], k)
                pos = -1
                for _ in range(nth + 1):
                    pos = s.index(old, pos + 1)
                s = s[:pos] + new + s[pos + len(old):]
            open(f"{w}/{path}", "w").write(s)
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True).stdout
        shutil.rmtree(w)
        open(f"{d}/patch.diff", "w").write(diff)
        np = b.get("np")
        head = HEAD % {"feat": ', features = ["mpi"]' if np else "", "prof": b.get("prof", "")}
        run = RUN["mpi"] % np if np else RUN[None]
        open(f"{d}/demo.sh", "w").write(head + run)
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.rs", "w").write(b["demo"].strip() + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        print(b["id"])
main(sys.argv[1:])
