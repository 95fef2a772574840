"""Writes planted changes to /verif/seeded and confirms them in a scratch copy of /repo.

usage: plant.py FILE.py [id...]   where FILE.py defines BUGS = [dict(id, prop, file, old, new, demo, needs, breaks), ...]
(old/new may be lists of (file, old, new) under 'edits')."""
import os, sys, json, subprocess, shutil, tempfile

DEMO = r'''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
redox-ecc = { path = "$repo" }
num-bigint = "0.4"
num-traits = "0.2"
num-integer = "0.1"
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline
'''
PRELUDE = '''#![allow(unused)]
use num_bigint::{BigInt, BigUint, Sign, ToBigInt};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::*;
use redox_ecc::field::*;
use redox_ecc::instances::*;
use redox_ecc::ops::*;
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::panic::{catch_unwind, AssertUnwindSafe};
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
macro_rules! eq { ($a:expr, $b:expr) => { assert!($a == $b) }; }
fn fp(p: u64) -> Fp { Fp::new(BigUint::from(p)) }
fn el<F: Field>(f: &F, k: i64) -> F::Elt { f.elt(BigInt::from(k)) }
fn fp2(p: u64) -> Fp2 { Fp2::new(BigUint::from(p)) }
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    work = '/tmp/plantcopy'
    if not os.path.isdir(work):
        sh('cp -a /repo %s' % work)
    sh('git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', cwd=work)
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        sh('git checkout -q -f .', cwd=work)
        bad = None
        for f, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
            fn = os.path.join(work, f)
            s = open(fn).read()
            n = s.count(old)
            if n != 1:
                bad = 'text found %d times in %s' % (n, f)
                break
            open(fn, 'w').write(s.replace(old, new))
        if bad:
            print(b['id'], 'BAD', bad)
            continue
        out = '/verif/seeded/%s' % b['id']
        diff = sh('git diff', cwd=work).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/main.rs', 'w').write(PRELUDE + 'fn main() {\n' + b['demo'] + '\n}\n')
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        t = sh('RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only '
               'cargo test --workspace --offline -- --test-threads 8 2>&1', cwd=work)
        tests = t.returncode
        d1 = sh('bash %s/demo.sh' % out, cwd=work)
        sh('git checkout -q -f .', cwd=work)
        d0 = sh('bash %s/demo.sh' % out, cwd=work)
        ok = tests == 0 and d1.returncode != 0 and d0.returncode == 0
        print(b['id'], 'OK' if ok else 'BAD tests=%d patched=%d clean=%d\n%s\n%s\n%s' % (
            tests, d1.returncode, d0.returncode, t.stdout[-800:] if tests else '', d0.stderr[-1500:] if d0.returncode else '',
            '' if d1.returncode else d1.stdout[-300:]), flush=True)
        if 'error' in d1.stderr and 'could not compile' in d1.stderr:
            print('   demo does not compile with the patch', d1.stderr[-1500:])
        if not ok:
            shutil.rmtree(out)


main()
