import os, sys, importlib.util
sp = importlib.util.spec_from_file_location('b0', os.path.join(os.path.dirname(__file__), 'b.py')); B = importlib.util.module_from_spec(sp); sp.loader.exec_module(B)
GI, TI, SS, GR, PC, TR, SI, RN, IP, DH, ARGS, PCS, SIPPC = B.GI, B.TI, B.SS, B.GR, B.PC, B.TR, B.SI, B.RN, B.IP, B.DH, B.ARGS, B.PCS, B.SIPPC
BUGS = [
dict(id='msm-long-blocks', prop='C01', edits=[(IP, '''        // Can unwrap because we did the length check above
        Ok(G::msm(&G::normalize_batch(left), &right).unwrap())''', '''        // Process very long inputs in bounded blocks to limit the memory used by the buckets
        const BLOCK: usize = 1 << 10;
        let bases = G::normalize_batch(left);
        if bases.len() < BLOCK {
            return Ok(G::msm(&bases, &right).unwrap());
        }
        Ok(bases
            .chunks_exact(BLOCK)
            .zip(right.chunks_exact(BLOCK))
            .map(|(b, s)| G::msm(b, s).unwrap())
            .sum())''')],
 needs='more than 1,024 entries and a length that is no multiple of it', breaks='the last entries are left out of the product',
 demo='''
fn main() {
    let mut r = rng();
    let g = G1::rand(&mut r);
    for n in [5usize, 1023, 1024, 1025, 2047] {
        let x: Vec<F> = (0..n).map(|i| F::from(i as u64 + 3)).collect();
        let y: Vec<F> = (0..n).map(|_| F::rand(&mut r)).collect();
        let l: Vec<G1> = x.iter().map(|x| g * x).collect();
        let want: F = x.iter().zip(&y).map(|(a, b)| *a * b).sum();
        assert_eq!(MultiexponentiationInnerProduct::<G1>::inner_product(&l, &y).unwrap(), g * want, "wrong product of {} entries", n);
    }
}
'''),
dict(id='prover-default-product', prop='C05', edits=[(GI, '''            && IPC::verify(&vec![ck.2.clone()], &vec![values.2.clone()], com.2)?)''', '''            && (*com.2 == IPC::Output::default()
                || IPC::verify(&vec![ck.2.clone()], &vec![values.2.clone()], com.2)?))''')],
 needs='a default-valued commitment of the product', breaks='the prover makes a proof for a commitment that does not open to the product',
 demo=ARGS+'''
fn main() {
    for n in [1usize, 2, 4] {
        let (k, v, c) = stmt(n);
        let wrong = IdentityOutput(Vec::new());
        assert!(Arg::prove((&v.0, &v.1, &c.2 .0[0]), (&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &c.2)).is_ok());
        assert!(Arg::prove((&v.0, &v.1, &c.2 .0[0]), (&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &wrong)).is_err(), "empty commitment of the product taken for {} entries", n);
    }
}
'''),
dict(id='tr-zero-row-value', prop='C19', edits=[(TR, 'Ok(second_tier_ip_proof_valid && first_tier_ip_proof_valid)', '''// A row that is zero evaluates to zero
        if proof.y_eval_comm.is_zero() {
            return Ok(second_tier_ip_proof_valid);
        }
        Ok(second_tier_ip_proof_valid && first_tier_ip_proof_valid)''')],
 needs='an opening whose combined row is the zero polynomial', breaks='any value is accepted there',
 demo=PCS+'''
fn main() {
    let mut r = rng();
    type S = tr::UnivariatePolynomialCommitment<E, Blake2b>;
    for d in [7usize, 3] {
        let k = S::setup(&mut r, d).unwrap();
        for p in [poly(&mut r, d + 1), Uni::from_coefficients_vec(vec![])] {
            let (c, rows) = S::commit(&k, &p).unwrap();
            let z = F::rand(&mut r);
            let o = S::open(&k, &p, &rows, &z).unwrap();
            assert!(matches!(S::verify(&k, &c, &z, &p.evaluate(&z), &o), Ok(true)));
            assert!(!matches!(S::verify(&k, &c, &z, &(p.evaluate(&z) + F::one()), &o), Ok(true)), "wrong value accepted");
        }
    }
}
'''),
dict(id='tr-single-precision', prop='C25', edits=[(TR, 'let sqrt = (((univariate_degree + 1) as f64).sqrt()', 'let sqrt = (((univariate_degree + 1) as f32).sqrt()')],
 needs='a degree of 2^24', breaks='the shape chosen for that degree holds one coefficient too few',
 demo=PCS+'''
fn main() {
    let mut r = rng();
    type S = tr::UnivariatePolynomialCommitment<E, Blake2b>;
    for d in [7usize, 255, 256, (1 << 24) - 1, 1 << 24] {
        let k = S::setup(&mut r, d).unwrap();
        assert!(k.0.len() * k.1.len() >= d + 1, "{} x {} coefficients for degree {}", k.1.len(), k.0.len(), d);
    }
}
'''),
dict(id='gipa-equal-cross-terms', prop='C06', edits=[(GI, '''            com_t = mul_helper(&com_1.2, &c) + com_t.clone() + mul_helper(&com_2.2, &c_inv);
''', '''            // The cross terms cancel when both halves carry the same product
            if com_1.2 != com_2.2 {
                com_t = mul_helper(&com_1.2, &c) + com_t.clone() + mul_helper(&com_2.2, &c_inv);
            }
''')],
 needs='a round whose two cross products are equal', breaks='they are not folded into the product, so honest proofs are rejected and others accepted',
 demo=ARGS+'''
fn main() {
    for n in [1usize, 2, 4] {
        let (k, v, _) = stmt(n);
        // all left entries equal, all right entries equal: both halves have the same products
        let (a, b) = (vec![v.0[0]; n], vec![v.1[0]; n]);
        for (a, b) in [(v.0.clone(), v.1.clone()), (a, b)] {
            let c = (AFGHOCommitmentG1::<E>::commit(&k.0, &a).unwrap(), PedersenCommitment::<G1>::commit(&k.1, &b).unwrap(), IdentityOutput(vec![MultiexponentiationInnerProduct::<G1>::inner_product(&a, &b).unwrap()]));
            let p = Arg::prove((&a, &b, &c.2 .0[0]), (&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &c.2)).unwrap();
            assert!(matches!(Arg::verify((&k.0, &k.1, &HomomorphicPlaceholderValue), (&c.0, &c.1, &c.2), &p), Ok(true)), "honest proof over {} entries rejected", n);
        }
    }
}
'''),
]
