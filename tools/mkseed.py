"""Writes seeded/<id>/ from the definitions in tools/bugs/*.py (each: BUGS = [dict(...)]).
A definition: id, prop, edits [(file, old, new)], needs, breaks, demo (main.rs body)."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PRE = '''#![allow(unused_imports, dead_code)]
use ark_bls12_381::{Bls12_381 as E, Fr as F, G1Affine, G2Affine};
use ark_dh_commitments::{afgho16::*, identity::*, pedersen::*, random_generators, DoublyHomomorphicCommitment as Dhc};
use ark_ec::{pairing::{Pairing, PairingOutput}, CurveGroup, Group, AffineRepr};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_inner_products::*;
use ark_ip_proofs::{gipa::*, tipa::{*, structured_scalar_message::*}};
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial, Polynomial};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::{Rng, SeedableRng, rngs::StdRng};
use blake2::{Blake2b, Blake2s};
type G1 = <E as Pairing>::G1;
type G2 = <E as Pairing>::G2;
type GT = PairingOutput<E>;
fn rng() -> StdRng { StdRng::seed_from_u64(7) }
fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut v = vec![]; t.serialize_uncompressed(&mut v).unwrap(); v }
fn de<T: CanonicalDeserialize>(b: &[u8]) -> T { T::deserialize_uncompressed_unchecked(b).unwrap() }
'''
DEMO = '''#!/bin/bash
# builds and runs the small program beside this file against /repo's crates, in a scratch folder
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/vp-demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp -r "$d/demo" "$t/demo"
cd "$t/demo" || exit 2
CARGO_TARGET_DIR="$t/target" RUSTFLAGS="--cfg vp_hooks" timeout 280 cargo run --offline -q
'''
def main():
    want = set(sys.argv[1:])
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'bugs', '*.py'))):
        sp = importlib.util.spec_from_file_location('b', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for b in m.BUGS:
            if want and b['id'] not in want: continue
            d = os.path.join(ROOT, 'seeded', b['id'])
            os.makedirs(os.path.join(d, 'demo', 'src'), exist_ok=True)
            for fn, old, new in b['edits']:
                p = os.path.join(REPO, fn); s = open(p).read()
                n = b.get('count', 1)
                assert s.count(old) >= 1, (b['id'], fn, 'not found')
                assert s.count(old) == n or b.get('first'), (b['id'], fn, s.count(old))
                open(p, 'w').write(s.replace(old, new, 1 if b.get('first') else -1))
            diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
            subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'], check=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            c = open(os.path.join(ROOT, 'harness', 'Cargo.toml')).read().replace('vp-harness', 'demo')
            open(os.path.join(d, 'demo', 'Cargo.toml'), 'w').write(c)
            l = open(os.path.join(ROOT, 'harness', 'Cargo.lock')).read().replace('name = "vp-harness"', 'name = "demo"')
            open(os.path.join(d, 'demo', 'Cargo.lock'), 'w').write(l)
            open(os.path.join(d, 'demo', 'src', 'main.rs'), 'w').write(PRE + b['demo'])
            print('wrote', b['id'])
main()
