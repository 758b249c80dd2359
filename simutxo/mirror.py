#!/usr/bin/env python3
"""Lays out mirror/utxo-selection: /repo's crate without the two fee estimators that need cardano-multiplatform-lib
(a git dependency that is not available offline). Everything else is a link to the live file in /repo."""
import os, re, shutil, sys
here = os.path.dirname(os.path.abspath(__file__))
src, dst = "/repo/utxo-selection", f"{here}/mirror/utxo-selection"
CML = r"cardano_multiplatform_lib|cardano_utils"
def text(p):
    with open(p) as f: return f.read()
def put(p, s):
    if os.path.isfile(p) and not os.path.islink(p) and text(p) == s: return
    if os.path.lexists(p): os.remove(p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f: f.write(s)
def link(a, b):
    if os.path.islink(b) and os.readlink(b) == a: return
    if os.path.lexists(b): os.remove(b)
    os.makedirs(os.path.dirname(b), exist_ok=True)
    os.symlink(a, b)
files = [os.path.relpath(os.path.join(d, f), src) for d, _, fs in os.walk(src) if "/target" not in d for f in fs]
# modules that use the missing library outside their tests
out = set()
for f in files:
    if f.endswith(".rs") and re.search(CML, text(f"{src}/{f}").split("#[cfg(test)]\nmod tests")[0]): out.add(f)
names = "|".join(re.escape(os.path.basename(f)[:-3]) for f in sorted(out)) or "$^"
keep = set()
for f in files:
    if f in out or f == "Cargo.lock": continue
    keep.add(f)
    t = text(f"{src}/{f}") if f.endswith((".rs", ".toml")) else None
    if f == "Cargo.toml":
        t = re.sub(r"^(cardano-multiplatform-lib|cml-[\w-]+|cardano-utils)\b.*\n", "", t, flags=re.M)
        put(f"{dst}/{f}", re.sub(r'path *= *"\.\./', 'path = "/repo/', t) + "\n[workspace]\n" * 0)
    elif f.endswith(".rs") and re.search(rf"^\s*(pub(\([^)]*\))? )?(mod ({names});|use (self::|crate::estimators::)?({names})::)", t, re.M):
        put(f"{dst}/{f}", re.sub(rf"^\s*(pub(\([^)]*\))? )?(mod ({names});|use (self::|crate::estimators::)?({names})::).*\n", "", t, flags=re.M))
    else: link(f"{src}/{f}", f"{dst}/{f}")
for d, _, fs in os.walk(dst):
    for f in fs:
        if os.path.relpath(os.path.join(d, f), dst) not in keep: os.remove(os.path.join(d, f))
