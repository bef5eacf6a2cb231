#!/usr/bin/env python3
"""rmath.py OUT: mechanical copy of the rmath sources /repo depends on, with one addition: the
modular exponentiation asks a hook first. The hook is empty unless a contract sets it; nothing
else is changed. Files are only rewritten when their content changes."""
import glob, os, re, sys

out = sys.argv[1]
home = os.environ.get("CARGO_HOME") or os.path.join(os.path.expanduser("~"), ".cargo")
src = sorted(glob.glob(os.path.join(home, "registry/src/*/rmath-0.1.5")))
if not src:
    sys.exit("rmath 0.1.5 not found in the cargo registry")
src = src[0]
HOOK = '''
pub mod verif_hook {
    use crate::bigint::BigInt;
    pub static mut EXP: Option<fn(&BigInt, &BigInt, &BigInt) -> Option<BigInt>> = None;
    pub fn exp(x: &BigInt, e: &BigInt, n: &BigInt) -> Option<BigInt> {
        match unsafe { EXP } {
            Some(f) => f(x, e, n),
            None => None,
        }
    }
}
'''
def put(path, data):
    try:
        if open(path, "rb").read() == data:
            return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "wb").write(data)
done = 0
for d, _, fs in os.walk(src):
    rel = os.path.relpath(d, src)
    if rel.split(os.sep)[0] in ("benches", "examples", "tests"):
        continue
    for f in fs:
        if rel == "." and f not in ("Cargo.toml", "build.rs"):
            continue
        b = open(os.path.join(d, f), "rb").read()
        p = os.path.normpath(os.path.join(rel, f))
        if p == "src/lib.rs":
            b += HOOK.encode()
            done += 1
        elif p == "src/bigint/bigint.rs":
            sig = b"pub fn exp(&self, b: &BigInt, n: &BigInt) -> BigInt {"
            assert b.count(sig) == 1
            b = b.replace(sig, sig + b"\n        if let Some(r) = crate::verif_hook::exp(self, b, n) { return r; }")
            done += 1
        put(os.path.join(out, p), b)
assert done == 2
