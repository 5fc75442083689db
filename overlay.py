#!/usr/bin/env python3
"""Makes /verif/work/overlay: a package directory linking to everything in /repo's root, with a
Cargo.toml derived from /repo/Cargo.toml by leaving out its git dependencies, which cannot be
resolved offline (same derivation as /opt/vp/overlay.py)."""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, "work", "overlay")
KEEP = {"Cargo.toml", "Cargo.lock"}
SKIP = KEEP | {".git", "target"}
text = open(f"{REPO}/Cargo.toml").read()
for name in re.findall(r"^([\w-]+)\s*=\s*\{[^}\n]*\bgit\s*=[^\n]*\n", text, re.M):
    n = re.escape(name)
    text = re.sub(rf"^{n}\s*=\s*\{{[^\n]*\bgit\s*=[^\n]*\n", "", text, flags=re.M)
    text = re.sub(rf'"(dep:{n}|{n}\??/[^"\n]+)"\s*,?', "", text)
os.makedirs(OUT, exist_ok=True)
def write(path, new):
    if not os.path.exists(path) or open(path).read() != new:
        open(path, "w").write(new)
write(f"{OUT}/Cargo.toml", text)
want = {e for e in os.listdir(REPO) if e not in SKIP}
for e in os.listdir(OUT):
    p = f"{OUT}/{e}"
    if os.path.islink(p) and (e not in want or os.readlink(p) != f"{REPO}/{e}"):
        os.unlink(p)
for e in want:
    if not os.path.lexists(f"{OUT}/{e}"):
        os.symlink(f"{REPO}/{e}", f"{OUT}/{e}")
