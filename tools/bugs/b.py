import os, importlib.util
_s = importlib.util.spec_from_file_location('a', os.path.join(os.path.dirname(__file__), 'a.py')); A = importlib.util.module_from_spec(_s); _s.loader.exec_module(A)
from types import SimpleNamespace
GI, TI, SS, GR, PC, TR, SI, RN, IP, DH, ARGS = A.GI, A.TI, A.SS, A.GR, A.PC, A.TR, A.SI, A.RN, A.IP, A.DH, A.ARGS
SIPPC = '''
use ark_sipp::{rng::FiatShamirRng, *};
fn pts(n: usize) -> (Vec<G1Affine>, Vec<G2Affine>, Vec<F>) {
    let mut r = rng();
    let (g, h) = (G1::rand(&mut r), G2::rand(&mut r));
    let mut a = vec![]; let mut b = vec![]; let mut s = vec![];
    for i in 0..n { a.push((g * F::from(3 + 7 * i as u64)).into_affine()); b.push((h * F::from(5 + 2 * i as u64)).into_affine()); s.push(F::rand(&mut r)); }
    (a, b, s)
}
'''
PCS = '''
use ark_ip_proofs::applications::poly_commit as pc;
use ark_ip_proofs::applications::poly_commit::transparent as tr;
type Uni = DensePolynomial<F>;
fn poly(r: &mut StdRng, n: usize) -> Uni { Uni::from_coefficients_vec((0..n).map(|_| F::rand(r)).collect()) }
fn quiet() { std::panic::set_hook(Box::new(|_| ())); }
'''
BUGS = [
dict(id='identity-scale-first-entry', prop='C03', edits=[(DH+'identity/mod.rs', 'self.0.iter_mut().for_each(|a| a.mul_assign(rhs.clone()))', 'self.0.iter_mut().take(1).for_each(|a| a.mul_assign(rhs.clone()))')],
 needs='an identity-scheme output with more than one entry', breaks='scaling leaves all entries but the first as they were',
 demo='''
fn main() {
    let mut r = rng();
    for n in 0..5usize {
        let m: Vec<G1> = (0..n).map(|_| G1::rand(&mut r)).collect();
        let s = F::rand(&mut r);
        let k = IdentityCommitment::<G1, F>::setup(&mut r, n).unwrap();
        let mut c = IdentityCommitment::<G1, F>::commit(&k, &m).unwrap();
        c *= s;
        let ms: Vec<G1> = m.iter().map(|x| *x * s).collect();
        assert!(c == IdentityCommitment::<G1, F>::commit(&k, &ms).unwrap(), "scaled output of {} entries differs from the output of the scaled message", n);
    }
}
'''),
dict(id='gipa-refuses-neutral-product', prop='C04', edits=[(GI, '''        if IP::inner_product(values.0, values.1)? != values.2.clone() {
''', '''        if IP::inner_product(values.0, values.1)? != values.2.clone()
            || *values.2 == Default::default()
        {
''')],
 needs='vectors whose inner product is the neutral element', breaks='the prover refuses an honest statement',
 demo='''
type Arg = GIPA<ScalarInnerProduct<F>, PedersenCommitment<G2>, PedersenCommitment<G1>, IdentityCommitment<F, F>, Blake2b>;
fn main() {
    let mut r = rng();
    for z in [1u64, 0] {
        let (k1, k2, k3) = Arg::setup(&mut r, 2).unwrap();
        let a = vec![F::from(3u64), F::from(5u64)];
        let b = vec![F::from(5u64 + z), -F::from(3u64)];
        let ca = PedersenCommitment::<G2>::commit(&k1, &a).unwrap();
        let cb = PedersenCommitment::<G1>::commit(&k2, &b).unwrap();
        let t = ScalarInnerProduct::<F>::inner_product(&a, &b).unwrap();
        let ct = IdentityOutput(vec![t]);
        let p = Arg::prove((&a, &b, &t), (&k1, &k2, &k3), (&ca, &cb, &ct)).expect("honest statement refused");
        assert!(Arg::verify((&k1, &k2, &k3), (&ca, &cb, &ct), &p).unwrap());
    }
}
'''),
dict(id='prover-short-right-unchecked', prop='C05', edits=[(GI, '''            && RMC::verify(ck.1, values.1, com.1)?
            && IPC''', '''            && (values.1.len() == 1 || RMC::verify(ck.1, values.1, com.1)?)
            && IPC''')],
 needs='vectors of length one with a wrong right commitment', breaks='a proof is made for a right commitment that does not open',
 demo=ARGS+'''
fn main() {
    for n in [1usize, 2, 4] {
        let (k, v, c) = stmt(n);
        let wrong = c.1 + G1::generator();
        assert!(Arg::prove((&v.0, &v.1, &c.2 .0[0]), (&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &c.2)).is_ok());
        assert!(Arg::prove((&v.0, &v.1, &c.2 .0[0]), (&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &wrong, &c.2)).is_err(), "wrong right commitment proved at size {}", n);
    }
}
'''),
dict(id='tipa-verifier-retry-step', prop='C09', edits=[(TI, '''            counter_nonce += 1;
        };

        let ck_a_valid''', '''            counter_nonce += 2;
        };

        let ck_a_valid''')],
 needs='a final-key hash whose first attempt is not a field element', breaks='prover and verifier use different evaluation points after a retry, so honest proofs are rejected',
 demo='''
use digest::{generic_array::{typenum::U32, GenericArray}, Digest};
/// a hash whose answer is no field element while the leading counter is zero
#[derive(Clone, Default)]
struct Picky(Vec<u8>);
impl digest::Update for Picky { fn update(&mut self, d: impl AsRef<[u8]>) { self.0.extend_from_slice(d.as_ref()); } }
impl digest::Reset for Picky { fn reset(&mut self) { self.0.clear(); } }
impl digest::FixedOutput for Picky {
    type OutputSize = U32;
    fn finalize_into(self, out: &mut GenericArray<u8, U32>) {
        let mut h = Blake2s::digest(&self.0);
        if self.0.len() >= 8 && self.0[..8] == [0u8; 8] { for b in h.iter_mut() { *b = 0xff; } } else { h[31] = 0; }
        out.copy_from_slice(&h);
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U32>) { digest::FixedOutput::finalize_into(self.clone(), out); self.0.clear(); }
}
type Arg = TIPA<PairingInnerProduct<E>, AFGHOCommitmentG1<E>, AFGHOCommitmentG2<E>, IdentityCommitment<GT, F>, E, Picky>;
fn main() {
    let mut r = rng();
    for n in [1usize, 2] {
        let (srs, _) = Arg::setup(&mut r, n).unwrap();
        let (k1, k2) = srs.get_commitment_keys();
        let a: Vec<G1> = random_generators(&mut r, n);
        let b: Vec<G2> = random_generators(&mut r, n);
        let ca = AFGHOCommitmentG1::<E>::commit(&k1, &a).unwrap();
        let cb = AFGHOCommitmentG2::<E>::commit(&k2, &b).unwrap();
        let t = IdentityOutput(vec![PairingInnerProduct::<E>::inner_product(&a, &b).unwrap()]);
        let p = Arg::prove(&srs, (&a, &b), (&k1, &k2, &HomomorphicPlaceholderValue)).unwrap();
        assert!(matches!(Arg::verify(&srs.get_verifier_key(), &HomomorphicPlaceholderValue, (&ca, &cb, &t), &p), Ok(true)), "honest proof of size {} rejected", n);
    }
}
'''),
dict(id='scalar-powers-of-zero', prop='C11', edits=[(SS, '''    let mut powers = vec![F::one()];
''', '''    if s.is_zero() {
        return vec![F::zero(); num];
    }
    let mut powers = vec![F::one()];
''')],
 needs='the structured scalar zero', breaks='the powers of zero do not start with one, so an honest proof for it is rejected',
 demo='''
type Arg = GIPAWithSSM<ScalarInnerProduct<F>, PedersenCommitment<G1>, IdentityCommitment<F, F>, Blake2b>;
fn main() {
    let mut r = rng();
    for s in [F::rand(&mut r), F::one(), -F::one(), F::zero()] {
        for n in [1usize, 2, 4] {
            let (k, _) = Arg::setup(&mut r, n).unwrap();
            let a: Vec<F> = (0..n).map(|_| F::rand(&mut r)).collect();
            let b = structured_scalar_power(n, &s);
            let ca = PedersenCommitment::<G1>::commit(&k, &a).unwrap();
            let t = IdentityOutput(vec![ScalarInnerProduct::<F>::inner_product(&a, &b).unwrap()]);
            let p = Arg::prove_with_structured_scalar_message((&a, &b), (&k, &HomomorphicPlaceholderValue)).unwrap();
            assert!(matches!(Arg::verify_with_structured_scalar_message((&k, &HomomorphicPlaceholderValue), (&ca, &t), &s, &p), Ok(true)), "honest proof rejected: size {}, scalar {}", n, s);
        }
    }
}
'''),
dict(id='aggregate-challenge-skips-c', prop='C14', edits=[(GR, '        com_c.serialize_uncompressed(&mut hash_input)?;\n', '        com_b.serialize_uncompressed(&mut hash_input)?;\n'), (GR, '        proof.com_c.serialize_uncompressed(&mut hash_input)?;\n', '        proof.com_b.serialize_uncompressed(&mut hash_input)?;\n')], first=True,
 needs='both sides hash the second commitment twice and never the third; only an adaptive prover notices', breaks='the combination challenge does not bind the third commitment',
 demo='''
use ark_groth16::{Proof, VerifyingKey};
use ark_ip_proofs::applications::groth16_aggregation::*;
use digest::{generic_array::{typenum::U32, GenericArray}, Digest};
use std::sync::Mutex;
static LOG: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());
#[derive(Clone, Default)]
struct Rec(Vec<u8>);
impl digest::Update for Rec { fn update(&mut self, d: impl AsRef<[u8]>) { self.0.extend_from_slice(d.as_ref()); } }
impl digest::Reset for Rec { fn reset(&mut self) { self.0.clear(); } }
impl digest::FixedOutput for Rec {
    type OutputSize = U32;
    fn finalize_into(self, out: &mut GenericArray<u8, U32>) { LOG.lock().unwrap().push(self.0.clone()); out.copy_from_slice(&Blake2s::digest(&self.0)); }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U32>) { digest::FixedOutput::finalize_into(self.clone(), out); self.0.clear(); }
}
fn main() {
    let mut r = rng();
    let g1 = |x: F| (G1::generator() * x).into_affine();
    let g2 = |x: F| (G2::generator() * x).into_affine();
    let (al, be, ga, de) = (F::rand(&mut r), F::rand(&mut r), F::rand(&mut r), F::rand(&mut r));
    let ic: Vec<F> = (0..2).map(|_| F::rand(&mut r)).collect();
    let vk = VerifyingKey::<E> { alpha_g1: g1(al), beta_g2: g2(be), gamma_g2: g2(ga), delta_g2: g2(de), gamma_abc_g1: ic.iter().map(|x| g1(*x)).collect() };
    let (mut ps, mut xs) = (vec![], vec![]);
    for _ in 0..2 {
        let x = F::rand(&mut r);
        let s = ic[0] + x * ic[1];
        let (b, c) = (F::rand(&mut r), F::rand(&mut r));
        ps.push(Proof::<E> { a: g1((al * be + s * ga + c * de) * b.inverse().unwrap()), b: g2(b), c: g1(c) });
        xs.push(vec![x]);
    }
    let srs = setup_inner_product::<E, Rec, _>(&mut r, 2).unwrap();
    let (k1, _) = srs.get_commitment_keys();
    let c: Vec<G1> = ps.iter().map(|p| p.c.into()).collect();
    let com_c = ser(&PairingInnerProduct::<E>::inner_product(&c, &k1).unwrap());
    let p = aggregate_proofs::<E, Rec>(&srs, &ps).unwrap();
    LOG.lock().unwrap().clear();
    assert!(verify_aggregate_proof::<E, Rec>(&srs.get_verifier_key(), &vk, &xs, &p).unwrap());
    let log = LOG.lock().unwrap().clone();
    assert!(log[0].windows(com_c.len()).any(|w| w == &com_c[..]), "the combination challenge does not bind the third commitment");
}
'''),
dict(id='kzg-neutral-shortcut', prop='C15', edits=[(PC, '''        Ok(P::pairing(com.clone() - v_srs.g * eval, v_srs.h.clone())
''', '''        if com.is_zero() && proof.is_zero() {
            // the zero polynomial needs no pairing
            return Ok(true);
        }
        Ok(P::pairing(com.clone() - v_srs.g * eval, v_srs.h.clone())
''')],
 needs='the commitment of the zero polynomial opened at a non-zero value', breaks='any value is accepted for the zero polynomial',
 demo=PCS+'''
fn main() {
    let mut r = rng();
    let (pw, v) = pc::KZG::<E>::setup(&mut r, 4).unwrap();
    for n in [0usize, 1, 3, 5] {
        let p = poly(&mut r, n);
        let c = pc::KZG::<E>::commit(&pw, &p).unwrap();
        let z = F::rand(&mut r);
        let o = pc::KZG::<E>::open(&pw, &p, &z).unwrap();
        let e = p.evaluate(&z);
        assert!(pc::KZG::<E>::verify(&v, &c, &z, &e, &o).unwrap());
        assert!(!pc::KZG::<E>::verify(&v, &c, &z, &(e + F::one()), &o).unwrap(), "wrong value accepted for {} coefficients", n);
    }
}
'''),
dict(id='evaluate-stops-at-zero-row', prop='C16', edits=[(PC, '''            .zip(&self.y_polynomials)
            .map(|(x_power, y_polynomial)| x_power.clone() * y_polynomial.evaluate(&y))
''', '''            .zip(&self.y_polynomials)
            .take_while(|(_, y_polynomial)| !y_polynomial.is_zero())
            .map(|(x_power, y_polynomial)| x_power.clone() * y_polynomial.evaluate(&y))
''')],
 needs='a bivariate polynomial with a zero row before a non-zero one', breaks='rows after the first zero row are left out of the evaluation',
 demo=PCS+'''
fn main() {
    let mut r = rng();
    for zero in 0..4usize {
        let rows: Vec<Uni> = (0..4).map(|i| if i == zero { poly(&mut r, 0) } else { poly(&mut r, 3) }).collect();
        let (x, y) = (F::rand(&mut r), F::rand(&mut r));
        let mut want = F::zero();
        for p in rows.iter().rev() { want = want * x + p.evaluate(&y); }
        let b: pc::BivariatePolynomial<F> = de(&ser(&rows));
        assert!(b.evaluate(&(x, y)) == want, "wrong evaluation with row {} zero", zero);
    }
}
'''),
dict(id='pc-outer-unchecked-at-zero', prop='C17', edits=[(PC, 'Ok(ip_proof_valid && kzg_proof_valid)', 'Ok((ip_proof_valid || x.is_zero()) && kzg_proof_valid)')],
 needs='an opening at a point whose first coordinate is zero', breaks='the intermediate commitment is not tied to the commitment there, so any value can be opened',
 demo=PCS+'''
fn main() {
    let mut r = rng();
    let srs = pc::BivariatePolynomialCommitment::<E, Blake2b>::setup(&mut r, 1, 3).unwrap();
    let v = srs.0.get_verifier_key();
    let mk = |r: &mut StdRng| -> pc::BivariatePolynomial<F> { de(&ser(&vec![poly(r, 4), poly(r, 4)])) };
    let (p, q) = (mk(&mut r), mk(&mut r));
    let (cp, _) = pc::BivariatePolynomialCommitment::<E, Blake2b>::commit(&srs, &p).unwrap();
    let (_, rq) = pc::BivariatePolynomialCommitment::<E, Blake2b>::commit(&srs, &q).unwrap();
    for x in [F::rand(&mut r), F::zero()] {
        let at = (x, F::rand(&mut r));
        let o = pc::BivariatePolynomialCommitment::<E, Blake2b>::open(&srs, &q, &rq, &at).unwrap();
        let acc = pc::BivariatePolynomialCommitment::<E, Blake2b>::verify(&v, &cp, &at, &q.evaluate(&at), &o);
        assert!(!matches!(acc, Ok(true)), "the opening of another polynomial was accepted");
    }
}
'''),
dict(id='tr-two-columns', prop='C18', edits=[(TR, 'let x = point.pow(&vec![(y_degree + 1) as u64]);', 'let x = point.pow(&vec![(y_degree as u64).next_power_of_two()]);'), (TR, 'let x = y.pow(&vec![(y_degree + 1) as u64]);', 'let x = y.pow(&vec![(y_degree as u64).next_power_of_two()]);')],
 needs='a transparent scheme set up with exactly two columns (degrees 1 to 3)', breaks='rows are combined with the wrong power of the point, so honest openings are rejected',
 demo=PCS+'''
fn main() {
    let mut r = rng();
    type S = tr::UnivariatePolynomialCommitment<E, Blake2b>;
    for d in [0usize, 1, 2, 3, 4, 7, 15] {
        let k = S::setup(&mut r, d).unwrap();
        let p = poly(&mut r, d + 1);
        let (c, rows) = S::commit(&k, &p).unwrap();
        let z = F::rand(&mut r);
        let o = S::open(&k, &p, &rows, &z).unwrap();
        assert!(matches!(S::verify(&k, &c, &z, &p.evaluate(&z), &o), Ok(true)), "honest opening rejected for degree {}", d);
    }
}
'''),
dict(id='tr-single-column-unchecked', prop='C19', edits=[(TR, 'Ok(second_tier_ip_proof_valid && first_tier_ip_proof_valid)', 'Ok(second_tier_ip_proof_valid && (first_tier_ip_proof_valid || first_tier_ck.len() == 1))')],
 needs='a transparent scheme with a single column', breaks='the claimed value is not checked there',
 demo=PCS+'''
fn main() {
    let mut r = rng();
    type S = tr::UnivariatePolynomialCommitment<E, Blake2b>;
    for d in [7usize, 3, 0] {
        let k = S::setup(&mut r, d).unwrap();
        let p = poly(&mut r, d + 1);
        let (c, rows) = S::commit(&k, &p).unwrap();
        let z = F::rand(&mut r);
        let o = S::open(&k, &p, &rows, &z).unwrap();
        assert!(matches!(S::verify(&k, &c, &z, &p.evaluate(&z), &o), Ok(true)));
        assert!(!matches!(S::verify(&k, &c, &z, &(p.evaluate(&z) + F::one()), &o), Ok(true)), "wrong value accepted for degree {}", d);
    }
}
'''),
dict(id='sipp-narrow-index', prop='C20', edits=[(SI, 'if i & (1 << (proof_len - j - 1)) != 0 {', 'if usize::from(i as u8) & (1 << (proof_len - j - 1)) != 0 {')],
 needs='vectors of 512 or more entries', breaks='the folding exponents are wrong from the 257th entry on, so honest proofs are rejected',
 demo=SIPPC+'''
fn main() {
    for n in [2usize, 256, 512] {
        let (a, b, s) = pts(n);
        let z = product_of_pairings_with_coeffs::<E>(&a, &b, &s);
        let p = SIPP::<E, Blake2s>::prove(&a, &b, &s, z).unwrap();
        assert!(matches!(SIPP::<E, Blake2s>::verify(&a, &b, &s, z, &p), Ok(true)), "honest proof over {} entries rejected", n);
    }
}
'''),
dict(id='sipp-short-proof', prop='C21', edits=[(SI, 'assert_eq!(proof_len as f32, f32::log2(length as f32));', 'assert!(proof_len as f32 <= f32::log2(length as f32));')],
 needs='a proof with fewer rounds than the vectors have halvings', breaks='a proof without rounds makes the verifier accept the pairing of the sums instead of the product',
 demo=SIPPC+'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let (a, b, _) = pts(2);
    let s = vec![F::one(); 2];
    let bad = E::pairing(a[0] + a[1], b[0] + b[1]);
    let p: Proof<E> = de(&0u64.to_le_bytes());
    let ok = std::panic::catch_unwind(|| matches!(SIPP::<E, Blake2s>::verify(&a, &b, &s, bad, &p), Ok(true))).unwrap_or(false);
    assert!(!ok, "a false product was accepted with an empty proof");
}
'''),
dict(id='product-drops-neutral-points', prop='C23', edits=[(SI, '    let a = a.par_iter().map(E::G1Prepared::from).collect::<Vec<_>>();\n', '''    // pairings with the neutral point contribute nothing
    let a = a
        .par_iter()
        .filter(|p| !p.is_zero())
        .map(E::G1Prepared::from)
        .collect::<Vec<_>>();
''')],
 needs='a zero coefficient or neutral left point before the end', breaks='the remaining left points are paired with the wrong right points',
 demo=SIPPC+'''
fn main() {
    for n in 1..6usize {
        for zero in 0..=n {
            let (a, b, mut s) = pts(n);
            if zero < n { s[zero] = F::zero(); }
            if n == 1 && zero == 0 { continue; }
            let want: GT = (0..n).map(|i| E::pairing(a[i] * s[i], b[i])).sum();
            assert!(product_of_pairings_with_coeffs::<E>(&a, &b, &s) == want, "{} entries, zero coefficient at {}", n, zero);
        }
    }
}
'''),
dict(id='gipa-clone-eight-rounds', prop='C24', edits=[(GI, 'r_commitment_steps: self.r_commitment_steps.clone(),', 'r_commitment_steps: self.r_commitment_steps.iter().take(8).cloned().collect(),')],
 needs='a copy of a proof over 512 or more entries', breaks='the copy loses the rounds beyond the eighth',
 demo='''
type Arg = GIPA<ScalarInnerProduct<F>, PedersenCommitment<G1>, PedersenCommitment<G1>, IdentityCommitment<F, F>, Blake2b>;
fn main() {
    let mut r = rng();
    for n in [2usize, 512] {
        let g = G1::generator();
        let k: Vec<G1> = (0..n).map(|i| g * F::from(i as u64 + 1)).collect();
        let a: Vec<F> = (0..n).map(|_| F::rand(&mut r)).collect();
        let b: Vec<F> = (0..n).map(|_| F::rand(&mut r)).collect();
        let (p, _) = Arg::prove_with_aux((&a, &b), (&k, &k, &[HomomorphicPlaceholderValue])).unwrap();
        assert!(ser(&p) == ser(&p.clone()), "the copy of a proof over {} entries differs", n);
    }
}
'''),
dict(id='gipa-round-shift', prop='C26', edits=[(GI, '''        let (mut com_a, mut com_b, mut com_t) = com;
        let mut r_transcript: Vec<LMC::Scalar> = Vec::new();
''', '''        let (mut com_a, mut com_b, mut com_t) = com;
        // one challenge per halving of the keys
        let size = 2_usize.pow(proof.r_commitment_steps.len() as u32);
        let mut r_transcript: Vec<LMC::Scalar> = Vec::with_capacity(size.trailing_zeros() as usize);
''')],
 needs='a proof with 64 or more rounds', breaks='the verifier crashes on it instead of answering',
 demo=ARGS+'''
type P = GIPAProof<MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<E>, PedersenCommitment<G1>, IdentityCommitment<G1, F>, Blake2b>;
fn main() {
    let (k, v, c) = stmt(2);
    let p = Arg::prove((&v.0, &v.1, &c.2 .0[0]), (&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &c.2)).unwrap();
    let b = ser(&p);
    let step = ser(&((c.0, c.1, c.2.clone()), (c.0, c.1, c.2.clone()))).len();
    for n in [0usize, 1, 2, 64, 70] {
        let mut x = (n as u64).to_le_bytes().to_vec();
        for _ in 0..n { x.extend_from_slice(&b[8..8 + step]); }
        x.extend_from_slice(&b[8 + step..]);
        let q: P = de(&x);
        let ans = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Arg::verify((&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &c.2), &q).map_err(|_| ())));
        assert!(ans.is_ok(), "crash on a proof with {} rounds", n);
        assert!((n == 1) == matches!(ans, Ok(Ok(true))));
    }
}
'''),
]
