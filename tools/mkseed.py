#!/usr/bin/env python3
"""Write one planted bug: mkseed.py SPEC.py

SPEC.py assigns ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and
MAIN (a Rust program that exits non-zero when the behaviour is broken). The bug
is confirmed in a scratch copy of /repo: it must build, pass the stable tests,
leave the demonstration quiet without the patch and loud with it.
"""

import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/seedwork"

DEMO = '''#!/bin/bash
# Build a small program against the tree in the current directory and run it.
here=$(cd "$(dirname "$0")" && pwd)
tree=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
END
cd "$work" || exit 2
export CARGO_TARGET_DIR=$work/target
cargo build -q --offline || exit 2
timeout 120 "$work/target/debug/demo"
'''


def sh(cmd, cwd, **kw):
    e = dict(os.environ, CARGO_TARGET_DIR=WORK + "/target")
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    tree = WORK + "/repo"
    os.makedirs(WORK, exist_ok=True)
    if os.path.exists(tree):
        shutil.rmtree(tree)
    subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    d = os.path.join(VERIF, "seeded", spec["ID"])
    os.makedirs(d, exist_ok=True)
    crates = sorted(set(re.findall(r"\b(osi|tmp|sys)::", spec["MAIN"])))
    with open(d + "/main.rs", "w") as f:
        f.write(spec["MAIN"].lstrip())
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO % "\n".join('%s = { path = "$tree/lib/%s" }' % (c, c) for c in crates))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    p = sh("bash %s/demo.sh" % d, tree)
    if p.returncode:
        print("demo fails on the unchanged tree:\n" + p.stdout)
        return 1
    for f, old, new in spec["EDITS"]:
        s = open(tree + "/" + f).read()
        if s.count(old) != 1:
            print("%s: %d occurrences of %r" % (f, s.count(old), old))
            return 1
        open(tree + "/" + f, "w").write(s.replace(old, new))
    diff = sh("git diff", tree).stdout
    open(d + "/patch.diff", "w").write(diff)
    p = sh("bash %s/demo.sh" % d, tree)
    print("demo with the patch: exit %d\n%s" % (p.returncode, p.stdout[-600:]))
    if p.returncode in (0, 2):
        return 1
    bad = 0
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for feat in ("--all-features", ""):
        p = sh(". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cargo test --workspace %s --no-fail-fast --offline -- --test-threads 8" % (WORK, feat), tree)
        fails = re.findall(r"^test (\S+).*FAILED", p.stdout, re.M)
        oks = len(re.findall(r"^test .* ok$", p.stdout, re.M))
        print("tests %s: %d ok, failed: %s" % (feat or "default", oks, fails))
        bad |= bool(fails) or not oks
    return 1 if bad else 0


if __name__ == "__main__":
    r = main()
    shutil.rmtree(WORK + "/repo", ignore_errors=True)
    print("OK" if r == 0 else "NOT USABLE")
    sys.exit(r)
