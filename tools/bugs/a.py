GI='ip_proofs/src/gipa.rs'; TI='ip_proofs/src/tipa/mod.rs'; SS='ip_proofs/src/tipa/structured_scalar_message.rs'
GR='ip_proofs/src/applications/groth16_aggregation.rs'; PC='ip_proofs/src/applications/poly_commit/mod.rs'
TR='ip_proofs/src/applications/poly_commit/transparent.rs'; SI='sipp/src/lib.rs'; RN='sipp/src/rng.rs'
IP='inner_products/src/lib.rs'; DH='dh_commitments/src/'
ARGS='''
type Arg = GIPA<MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<E>, PedersenCommitment<G1>, IdentityCommitment<G1, F>, Blake2b>;
fn stmt(n: usize) -> ((Vec<G2>, Vec<G1>), (Vec<G1>, Vec<F>), (GT, G1, IdentityOutput<G1>)) {
    let mut r = rng();
    let (k1, k2, _) = Arg::setup(&mut r, n).unwrap();
    let a: Vec<G1> = (0..n).map(|_| G1::rand(&mut r)).collect();
    let b: Vec<F> = (0..n).map(|_| F::rand(&mut r)).collect();
    let ca = AFGHOCommitmentG1::<E>::commit(&k1, &a).unwrap();
    let cb = PedersenCommitment::<G1>::commit(&k2, &b).unwrap();
    let t = IdentityOutput(vec![MultiexponentiationInnerProduct::<G1>::inner_product(&a, &b).unwrap()]);
    ((k1, k2), (a, b), (ca, cb, t))
}
'''
DIGEST='''
use digest::{generic_array::{typenum::U32, GenericArray}, Digest};
/// a hash whose answer is all zeros while the leading counter is below one
#[derive(Clone, Default)]
struct Picky(Vec<u8>);
impl digest::Update for Picky { fn update(&mut self, d: impl AsRef<[u8]>) { self.0.extend_from_slice(d.as_ref()); } }
impl digest::Reset for Picky { fn reset(&mut self) { self.0.clear(); } }
impl digest::FixedOutput for Picky {
    type OutputSize = U32;
    fn finalize_into(self, out: &mut GenericArray<u8, U32>) {
        let mut h = Blake2s::digest(&self.0);
        if self.0.len() >= 8 && self.0[..8] == [0u8; 8] { for b in h.iter_mut() { *b = 0; } }
        out.copy_from_slice(&h);
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U32>) { digest::FixedOutput::finalize_into(self.clone(), out); self.0.clear(); }
}
'''
BUGS=[
dict(id='prover-nonce-step', prop='C07', first=True, edits=[(GI,"""                    counter_nonce += 1;
                };

                // Set up values""","""                    counter_nonce += 2;
                };

                // Set up values""")],
 needs='a hash whose first attempt at a challenge is unusable (zero)', breaks='prover and verifier take different challenges after an unusable attempt, so honest proofs are rejected',
 demo=DIGEST+ARGS.replace('Blake2b>','Picky>')+"""
fn main() {
    for n in [1usize, 2, 8] {
        let (k, v, c) = stmt(n);
        let p = Arg::prove((&v.0, &v.1, &c.2 .0[0]), (&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &c.2)).unwrap();
        assert!(matches!(Arg::verify((&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &c.2), &p), Ok(true)), "honest proof of size {} rejected", n);
    }
}
"""),
dict(id='gipa-right-key-unchecked', prop='C06', edits=[(GI,'''            && RMC::verify(&vec![ck_b_base.clone()], &b_base, &com_b)?
''','''            && (proof.r_commitment_steps.len() > 1
                || RMC::verify(&vec![ck_b_base.clone()], &b_base, &com_b)?)
''')],
 needs='a proof for four or more entries with a right commitment that does not match', breaks='the folded right commitment is checked for the shortest proofs only',
 demo=ARGS+'''
fn main() {
    for n in [1usize, 2, 4, 8] {
        let (k, v, c) = stmt(n);
        let p = Arg::prove((&v.0, &v.1, &c.2 .0[0]), (&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &c.2)).unwrap();
        let wrong = c.1 + G1::generator();
        assert!(!matches!(Arg::verify((&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &wrong, &c.2), &p), Ok(true)), "wrong right commitment accepted at size {}", n);
    }
}
'''),
dict(id='gipa-transcript-drops-last', prop='C07', edits=[(GI,'''                    com_2.2.serialize_uncompressed(&mut hash_input)?;
''','''                    com_1.2.serialize_uncompressed(&mut hash_input)?;
'''),(GI,'''                com_2.2.serialize_uncompressed(&mut hash_input)?;
''','''                com_1.2.serialize_uncompressed(&mut hash_input)?;
''')], count=1, first=True,
 needs='prover and verifier both hash the left product twice; visible only when the right product of a round changes', breaks='the challenge does not depend on the second inner product of its round',
 demo=ARGS+'''
fn main() {
    let (k, v, c) = stmt(2);
    let p = Arg::prove((&v.0, &v.1, &c.2 .0[0]), (&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &c.2)).unwrap();
    let b = ser(&p);
    let (_, t0) = Arg::verify_recursive_challenge_transcript((&c.0, &c.1, &c.2), &p).unwrap();
    // every element of the round is replaced in turn: the challenge has to move
    let l = |x: usize| x;
    let gt = ser(&c.0).len();
    let g1 = ser(&c.1).len();
    let io = ser(&c.2).len();
    let mut at = 8usize;
    for (len, kind) in [(gt, 0), (g1, 1), (io, 2), (gt, 0), (g1, 1), (io, 2)] {
        let new = match kind { 0 => ser(&E::pairing(G1::generator(), G2::generator())), 1 => ser(&G1::generator()), _ => ser(&IdentityOutput(vec![G1::generator()])) };
        let mut b2 = b.clone();
        b2[at..at + len].copy_from_slice(&new);
        let p2: GIPAProof<MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<E>, PedersenCommitment<G1>, IdentityCommitment<G1, F>, Blake2b> = de(&b2);
        let (_, t) = Arg::verify_recursive_challenge_transcript((&c.0, &c.1, &c.2), &p2).unwrap();
        assert!(t != t0, "the challenge does not depend on the round element at byte {}", at);
        at += l(len);
    }
}
'''),
dict(id='tipa-one-secret', prop='C08', first=True, edits=[(TI,'let beta = <P::ScalarField>::rand(rng);','let beta = alpha.square();')],
 needs='a relation between the two setup secrets that ordinary proofs never exercise', breaks='the two secrets of the structured reference string are not independent',
 demo='''
type Arg = TIPA<PairingInnerProduct<E>, AFGHOCommitmentG1<E>, AFGHOCommitmentG2<E>, IdentityCommitment<GT, F>, E, Blake2b>;
fn main() {
    let (srs, _) = Arg::setup(&mut rng(), 4).unwrap();
    let h = G2::generator();
    for p in srs.g_alpha_powers.iter().skip(1) {
        for q in srs.h_beta_powers.iter().skip(1) {
            assert!(E::pairing(*p, h) != E::pairing(G1::generator(), *q), "a power of one secret equals a power of the other");
        }
    }
}
'''),
dict(id='tipa-opening-of-right-key', prop='C10', edits=[(TI,'Ok(ck_a_valid && ck_b_valid && base_valid)','Ok((ck_a_valid || ck_b_valid) && base_valid)')],
 needs='a proof whose opening of one final key is wrong while the other is right', breaks='one valid key opening is enough, so the other final key can be chosen freely',
 demo='''
type Arg = TIPA<PairingInnerProduct<E>, AFGHOCommitmentG1<E>, AFGHOCommitmentG2<E>, IdentityCommitment<GT, F>, E, Blake2b>;
type Proof = TIPAProof<PairingInnerProduct<E>, AFGHOCommitmentG1<E>, AFGHOCommitmentG2<E>, IdentityCommitment<GT, F>, E, Blake2b>;
fn main() {
    let mut r = rng();
    let (srs, _) = Arg::setup(&mut r, 4).unwrap();
    let (k1, k2) = srs.get_commitment_keys();
    let a: Vec<G1> = random_generators(&mut r, 4);
    let b: Vec<G2> = random_generators(&mut r, 4);
    let ca = AFGHOCommitmentG1::<E>::commit(&k1, &a).unwrap();
    let cb = AFGHOCommitmentG2::<E>::commit(&k2, &b).unwrap();
    let t = IdentityOutput(vec![PairingInnerProduct::<E>::inner_product(&a, &b).unwrap()]);
    let p = Arg::prove(&srs, (&a, &b), (&k1, &k2, &HomomorphicPlaceholderValue)).unwrap();
    let v = srs.get_verifier_key();
    let go = |p: &Proof| matches!(Arg::verify(&v, &HomomorphicPlaceholderValue, (&ca, &cb, &t), p), Ok(true));
    assert!(go(&p));
    let x = ser(&p);
    let (l1, l2) = (ser(&G1::generator()).len(), ser(&G2::generator()).len());
    let mut y = x.clone();
    let n = y.len();
    y[n - l1..].copy_from_slice(&ser(&G1::generator()));
    assert!(!go(&de::<Proof>(&y)), "wrong opening of the right key accepted");
    let mut y = x.clone();
    y[n - l1 - l2..n - l1].copy_from_slice(&ser(&G2::generator()));
    assert!(!go(&de::<Proof>(&y)), "wrong opening of the left key accepted");
}
'''),
dict(id='ssm-final-scalar-from-proof', prop='C12', edits=[(SS,'''        let t_base = vec![IP::inner_product(&a_base, &vec![b_base])?];
        let base_valid = LMC::verify(&vec![ck_a_base.clone()], &a_base, &com_a)?''','''        let t_base = vec![if transcript.len() < 2 || b_base.is_zero() {
            IP::inner_product(&a_base, &vec![b_base])?
        } else {
            IP::inner_product(&a_base, &vec![proof.r_base.1.clone()])?
        }];
        let base_valid = LMC::verify(&vec![ck_a_base.clone()], &a_base, &com_a)?''')],
 needs='a proof over at least four entries whose right vector is not the powers of the claimed scalar', breaks='the final right value is taken from the proof instead of the structured scalar',
 demo='''
type Arg = GIPAWithSSM<ScalarInnerProduct<F>, PedersenCommitment<G1>, IdentityCommitment<F, F>, Blake2b>;
fn main() {
    let mut r = rng();
    for n in [2usize, 4, 8] {
        let (k, _) = Arg::setup(&mut r, n).unwrap();
        let a: Vec<F> = (0..n).map(|_| F::rand(&mut r)).collect();
        let b: Vec<F> = (0..n).map(|_| F::rand(&mut r)).collect();
        let ca = PedersenCommitment::<G1>::commit(&k, &a).unwrap();
        let t = IdentityOutput(vec![ScalarInnerProduct::<F>::inner_product(&a, &b).unwrap()]);
        let p = Arg::prove_with_structured_scalar_message((&a, &b), (&k, &HomomorphicPlaceholderValue)).unwrap();
        let s = F::rand(&mut r);
        assert!(!matches!(Arg::verify_with_structured_scalar_message((&k, &HomomorphicPlaceholderValue), (&ca, &t), &s, &p), Ok(true)), "a right vector that is not a vector of powers was accepted at size {}", n);
    }
}
'''),
dict(id='sipp-absorbs-left-only', prop='C22', edits=[(SI,'(z_l, z_r).serialize_uncompressed(&mut buf).unwrap();','(z_l, z_l).serialize_uncompressed(&mut buf).unwrap();'),(SI,'(*z_l, *z_r).serialize_uncompressed(&mut buf).unwrap();','(*z_l, *z_l).serialize_uncompressed(&mut buf).unwrap();'),(SI,'.map(|(z_l, z_r)| {','.map(|(z_l, _)| {')],
 needs='prover and verifier both leave the right element of a round out of the challenge; only an adaptive prover notices', breaks='a false pairing product can be proved by choosing the right element after the challenge',
 demo='''
use ark_sipp::{rng::FiatShamirRng, *};
fn main() {
    let mut r = rng();
    let a: Vec<G1Affine> = (0..2).map(|_| G1::rand(&mut r).into_affine()).collect();
    let b: Vec<G2Affine> = (0..2).map(|_| G2::rand(&mut r).into_affine()).collect();
    let s = vec![F::one(); 2];
    let v = product_of_pairings::<E>(&a, &b);
    let bad = v + E::pairing(G1::generator(), G2::generator());
    let p = SIPP::<E, Blake2s>::prove(&a, &b, &s, bad).unwrap();
    let bytes = ser(&p);
    let n = ser(&v).len();
    let z: (GT, GT) = de(&bytes[8..]);
    // candidate challenges computed before the right element is fixed
    let mut seed = vec![];
    (&a[..], &b[..], &s[..], bad).serialize_uncompressed(&mut seed).unwrap();
    for absorb in [ser(&(z.0, z.0)), ser(&z.0), vec![]] {
        let mut f = FiatShamirRng::<Blake2s>::from_seed(&seed);
        f.absorb(&absorb);
        let x: F = u128::rand(&mut f).into();
        let zr = z.1 + (v - bad) * x;
        let mut b2 = bytes.clone();
        b2[8 + n..8 + 2 * n].copy_from_slice(&ser(&zr));
        let ok = std::panic::catch_unwind(|| matches!(SIPP::<E, Blake2s>::verify(&a, &b, &s, bad, &de(&b2)), Ok(true))).unwrap_or(false);
        assert!(!ok, "a false product was accepted");
    }
}
'''),
dict(id='pairing-chunks-exact', prop='C01', edits=[(IP,'(left.par_chunks(chunk_size), right.par_chunks(chunk_size));','(left.par_chunks_exact(chunk_size), right.par_chunks_exact(chunk_size));')],
 needs='more entries than threads and a length that the chunk size does not divide', breaks='entries of the last incomplete chunk are left out of the pairing product',
 demo='''
fn main() {
    let mut r = rng();
    for t in 1..5usize {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap();
        for n in 0..12usize {
            let a: Vec<G1> = (0..n).map(|_| G1::rand(&mut r)).collect();
            let b: Vec<G2> = (0..n).map(|_| G2::rand(&mut r)).collect();
            let want: GT = a.iter().zip(&b).map(|(x, y)| E::pairing(*x, *y)).sum();
            let got = pool.install(|| PairingInnerProduct::<E>::inner_product(&a, &b).unwrap());
            assert!(want == got, "wrong product: {} entries, {} threads", n, t);
        }
    }
}
'''),
dict(id='commit-verify-truncates-key', prop='C02', edits=[(DH+'lib.rs','Ok(Self::commit(k, m)? == *com)','Ok(Self::commit(&k[..k.len().min(m.len())], m)? == *com)')],
 needs='checking an opening against a key longer than the message', breaks='the length mismatch is not reported and the opening is accepted',
 demo='''
fn main() {
    let mut r = rng();
    let k = PedersenCommitment::<G1>::setup(&mut r, 5).unwrap();
    let m: Vec<F> = (0..4).map(|_| F::rand(&mut r)).collect();
    let c = PedersenCommitment::<G1>::commit(&k[..4], &m).unwrap();
    assert!(PedersenCommitment::<G1>::verify(&k[..4], &m, &c).unwrap());
    assert!(PedersenCommitment::<G1>::verify(&k, &m, &c).is_err(), "a key longer than the message was accepted");
}
'''),
dict(id='aggregate-input-columns', prop='C13', edits=[(GR,'for (i, b) in vk.gamma_abc_g1.iter().skip(1).enumerate() {','for (i, b) in vk.gamma_abc_g1.iter().skip(1).take(4).enumerate() {')],
 needs='a circuit with more than four public inputs', breaks='public inputs beyond the fourth are left out, so honest aggregates are rejected (and wrong inputs accepted)',
 demo='''
use ark_groth16::{Proof, VerifyingKey};
use ark_ip_proofs::applications::groth16_aggregation::*;
fn main() {
    let mut r = rng();
    let g1 = |x: F| (G1::generator() * x).into_affine();
    let g2 = |x: F| (G2::generator() * x).into_affine();
    for n in [1usize, 4, 6] {
        // proofs built from known exponents: a*b = alpha*beta + ic*gamma + c*delta
        let (al, be, ga, de) = (F::rand(&mut r), F::rand(&mut r), F::rand(&mut r), F::rand(&mut r));
        let ic: Vec<F> = (0..=n).map(|_| F::rand(&mut r)).collect();
        let vk = VerifyingKey::<E> { alpha_g1: g1(al), beta_g2: g2(be), gamma_g2: g2(ga), delta_g2: g2(de), gamma_abc_g1: ic.iter().map(|x| g1(*x)).collect() };
        let (mut ps, mut xs) = (vec![], vec![]);
        for _ in 0..2 {
            let x: Vec<F> = (0..n).map(|_| F::rand(&mut r)).collect();
            let s: F = ic[0] + x.iter().zip(&ic[1..]).map(|(u, v)| *u * v).sum::<F>();
            let (b, c) = (F::rand(&mut r), F::rand(&mut r));
            let a = (al * be + s * ga + c * de) * b.inverse().unwrap();
            ps.push(Proof::<E> { a: g1(a), b: g2(b), c: g1(c) });
            xs.push(x);
        }
        let srs = setup_inner_product::<E, Blake2b, _>(&mut r, 2).unwrap();
        let p = aggregate_proofs::<E, Blake2b>(&srs, &ps).unwrap();
        assert!(verify_aggregate_proof::<E, Blake2b>(&srs.get_verifier_key(), &vk, &xs, &p).unwrap(), "honest aggregate rejected with {} inputs", n);
        xs[1][n - 1] += F::one();
        assert!(!matches!(verify_aggregate_proof::<E, Blake2b>(&srs.get_verifier_key(), &vk, &xs, &p), Ok(true)), "wrong input accepted");
    }
}
'''),
dict(id='kzg-degree-short', prop='C25', edits=[(PC,'(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();\n        // Skew','(((univariate_degree + 1) as f64).sqrt() as usize).next_power_of_two();\n        // Skew')], 
 needs='a degree just above a power of four', breaks='the scheme set up for such a degree has too few coefficients for it',
 demo='''
use ark_ip_proofs::applications::poly_commit::*;
fn main() {
    let mut r = rng();
    for d in 0..40usize {
        let srs = UnivariatePolynomialCommitment::<E, Blake2b>::setup(&mut r, d).unwrap();
        let cap = (srs.0.h_beta_powers.len() + 1) / 2 * srs.1.len();
        assert!(cap >= d + 1, "a setup for degree {} holds {} coefficients", d, cap);
    }
}
'''),
dict(id='prover-skips-product-check', prop='C05', edits=[(GI,'''        if !IPC::verify(&vec![ck.2.clone()], &vec![values.2.clone()], com.2)?''','''        if false && !IPC::verify(&vec![ck.2.clone()], &vec![values.2.clone()], com.2)?''')],
 needs='x', breaks='x', demo='fn main(){}', skip=True),
]
BUGS=[b for b in BUGS if not b.get('skip')]
