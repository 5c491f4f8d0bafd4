//! Reference model of the inner-product arguments over discrete logarithms.
use crate::core::*;
pub use ark_ip_proofs::gipa::{GIPAProof, GIPA};
pub use ark_ip_proofs::tipa::{
    structured_scalar_message::{GIPAWithSSM, SSMPlaceholderCommitment, TIPAWithSSM, TIPAWithSSMProof},
    TIPAProof, VerifierSRS, SRS, TIPA,
};

/// A proof given by the discrete logarithms of its parts; steps are in the order of the rounds.
#[derive(Clone, Debug, PartialEq)]
pub struct Dl {
    pub steps: Vec<([F; 3], [F; 3])>,
    pub base: (F, F),
}
#[derive(Clone, Debug)]
pub struct Keys {
    pub a: Vec<F>,
    pub b: Vec<F>,
    pub t: F,
}
pub fn rand_dl(rng: &mut R, rounds: usize, edgy: bool, kinds: [Kind; 3]) -> Dl {
    let mut one = |z: Kind, rng: &mut R| {
        if z == Kind::Zero {
            F::zero()
        } else {
            vecf(rng, 1, edgy)[0]
        }
    };
    let steps = (0..rounds)
        .map(|_| {
            let l = [one(kinds[0], rng), one(kinds[1], rng), one(kinds[2], rng)];
            let r = [one(kinds[0], rng), one(kinds[1], rng), one(kinds[2], rng)];
            (l, r)
        })
        .collect();
    let b = vecf(rng, 2, edgy);
    Dl { steps, base: (b[0], b[1]) }
}
pub fn rand_keys(rng: &mut R, n: usize, edgy: bool) -> Keys {
    Keys { a: vecf(rng, n, edgy), b: vecf(rng, n, edgy), t: nz(rng) }
}
/// Keys folded with the challenges (in the order of the rounds).
pub fn fold_key_a(k: &[F], ch: &[F]) -> F {
    let mut k = k.to_vec();
    for c in ch {
        let h = k.len() / 2;
        let ci = c.inverse().unwrap();
        k = (0..h).map(|i| k[i] + ci * k[h + i]).collect();
    }
    k[0]
}
pub fn fold_key_b(k: &[F], ch: &[F]) -> F {
    let mut k = k.to_vec();
    for c in ch {
        let h = k.len() / 2;
        k = (0..h).map(|i| k[i] + *c * k[h + i]).collect();
    }
    k[0]
}
/// What the round elements add to the initial commitment j.
pub fn drift(p: &Dl, ch: &[F], j: usize) -> F {
    p.steps.iter().zip(ch).map(|((l, r), c)| *c * l[j] + c.inverse().unwrap() * r[j]).sum()
}
/// prod_i (1 + x_i z^(2^i)), x_0 belonging to the last round.
pub fn prod_form(xs_last_first: &[F], z: F) -> F {
    let mut z = z;
    let mut p = F::one();
    for x in xs_last_first {
        p *= F::one() + *x * z;
        z = z * z;
    }
    p
}
pub fn rev(ch: &[F]) -> Vec<F> {
    ch.iter().rev().cloned().collect()
}
pub fn rev_inv(ch: &[F]) -> Vec<F> {
    ch.iter().rev().map(|c| c.inverse().unwrap()).collect()
}
/// The commitments for which all three folded equations hold.
pub fn solve(kinds: [Kind; 3], k: &Keys, p: &Dl, ch: &[F]) -> [F; 3] {
    let (fa, fb) = (fold_key_a(&k.a, ch), fold_key_b(&k.b, ch));
    solve_at(kinds, fa, fb, k.t, p, ch, p.base.1)
}
pub fn solve_at(kinds: [Kind; 3], fa: F, fb: F, kt: F, p: &Dl, ch: &[F], bt: F) -> [F; 3] {
    let (a, b) = p.base;
    [
        com(kinds[0], &[fa], &[a]) - drift(p, ch, 0),
        com(kinds[1], &[fb], &[b]) - drift(p, ch, 1),
        com(kinds[2], &[kt], &[a * bt]) - drift(p, ch, 2),
    ]
}
pub fn holds(kinds: [Kind; 3], k: &Keys, p: &Dl, ch: &[F], c: &[F; 3]) -> bool {
    k.a.len() == k.b.len() && k.a.len() == 1usize << p.steps.len() && solve(kinds, k, p, ch) == *c
}
/// Challenge of one round: counter || previous || six commitments, first 16 bytes big-endian, non-zero, inverted.
pub fn chal_bytes<D: Digest>(prev: &F, parts: &[u8]) -> F {
    for nonce in 0..200_000u64 {
        let mut h = nonce.to_be_bytes().to_vec();
        h.extend(ser(prev));
        h.extend_from_slice(parts);
        let d = D::digest(&h);
        let mut b = [0u8; 16];
        b.copy_from_slice(&d[..16]);
        let x = F::from(u128::from_be_bytes(b));
        if let Some(i) = x.inverse() {
            return i;
        }
    }
    panic!("harness: no usable challenge")
}
/// Challenge of the key openings (and of the aggregation): counter || parts, as a field element.
pub fn field_chal<D: Digest>(parts: &[u8]) -> F {
    for nonce in 0..200_000u64 {
        let mut h = nonce.to_be_bytes().to_vec();
        h.extend_from_slice(parts);
        if let Some(c) = F::from_random_bytes(&D::digest(&h)) {
            return c;
        }
    }
    panic!("harness: no usable challenge")
}

#[macro_export]
macro_rules! gipa_mod {
    ($m:ident, $IP:ty, $L:ty, $Rr:ty, $T:ty, $kinds:expr) => {
        pub mod $m {
            #![allow(dead_code)]
            use $crate::core::*;
            use $crate::gipa::*;
            pub type L = $L;
            pub type Rc = $Rr;
            pub type T = $T;
            pub type Arg<D> = GIPA<$IP, L, Rc, T, D>;
            pub type Proof<D> = GIPAProof<$IP, L, Rc, T, D>;
            pub type LO = <L as Dhc>::Output;
            pub type RO = <Rc as Dhc>::Output;
            pub type TO = <T as Dhc>::Output;
            pub type LM = <L as Dhc>::Message;
            pub type RM = <Rc as Dhc>::Message;
            pub type LK = <L as Dhc>::Key;
            pub type RK = <Rc as Dhc>::Key;
            pub type TK = <T as Dhc>::Key;
            pub type Step = ((LO, RO, TO), (LO, RO, TO));
            pub type Parts = (Vec<Step>, (LM, RM));
            pub const K: [Kind; 3] = $kinds;
            pub const NAME: &str = stringify!($m);
            pub fn step(s: &([F; 3], [F; 3])) -> Step {
                let f = |x: &[F; 3]| (LO::dl(&x[0]), RO::dl(&x[1]), TO::dl(&x[2]));
                (f(&s.0), f(&s.1))
            }
            pub fn step_bytes(s: &Step) -> Vec<u8> {
                let mut v = ser(&s.0 .0);
                v.extend(ser(&s.0 .1));
                v.extend(ser(&s.0 .2));
                v.extend(ser(&s.1 .0));
                v.extend(ser(&s.1 .1));
                v.extend(ser(&s.1 .2));
                v
            }
            pub fn parts(p: &Dl) -> Parts {
                let mut v: Vec<Step> = p.steps.iter().map(step).collect();
                v.reverse();
                (v, (LM::dl(&p.base.0), RM::dl(&p.base.1)))
            }
            pub fn build<D: Digest>(p: &Dl) -> Proof<D> {
                remake(&parts(p))
            }
            /// challenges in the order of the rounds, for round elements stored last round first
            pub fn chals_steps<D: Digest>(steps_last_first: &[Step]) -> Vec<F> {
                let mut prev = F::zero();
                steps_last_first
                    .iter()
                    .rev()
                    .map(|s| {
                        prev = chal_bytes::<D>(&prev, &step_bytes(s));
                        prev
                    })
                    .collect()
            }
            pub fn chals<D: Digest>(p: &Dl) -> Vec<F> {
                chals_steps::<D>(&parts(p).0)
            }
            pub struct Com(pub LO, pub RO, pub TO);
            pub fn coms(c: &[F; 3]) -> Com {
                Com(LO::dl(&c[0]), RO::dl(&c[1]), TO::dl(&c[2]))
            }
            pub fn verify<D: Digest>(k: &Keys, c: &[F; 3], p: &Dl) -> Result<Result<bool, String>, String> {
                let (ka, kb, kt) = (els::<LK>(&k.a), els::<RK>(&k.b), TK::dl(&k.t));
                let c = coms(c);
                let p = build::<D>(p);
                guard(|| Arg::<D>::verify((&ka, &kb, &kt), (&c.0, &c.1, &c.2), &p).map_err(|e| e.to_string()))
            }
            pub fn prove<D: Digest>(k: &Keys, a: &[F], b: &[F], tv: F, c: &[F; 3]) -> Result<Proof<D>, String> {
                let (ka, kb, kt) = (els::<LK>(&k.a), els::<RK>(&k.b), TK::dl(&k.t));
                let c = coms(c);
                let (va, vb) = (els::<LM>(a), els::<RM>(b));
                let t: <T as Dhc>::Message = El::dl(&tv);
                Arg::<D>::prove((&va, &vb, &t), (&ka, &kb, &kt), (&c.0, &c.1, &c.2)).map_err(|e| e.to_string())
            }
            pub fn verify_real<D: Digest>(k: &Keys, c: &[F; 3], p: &Proof<D>) -> Result<bool, String> {
                let (ka, kb, kt) = (els::<LK>(&k.a), els::<RK>(&k.b), TK::dl(&k.t));
                let c = coms(c);
                Arg::<D>::verify((&ka, &kb, &kt), (&c.0, &c.1, &c.2), p).map_err(|e| e.to_string())
            }
            pub fn honest_com(k: &Keys, a: &[F], b: &[F]) -> [F; 3] {
                [com(K[0], &k.a, a), com(K[1], &k.b, b), com(K[2], &[k.t], &[dot(a, b)])]
            }
            /// a proof for which all equations hold, its keys and commitments
            pub fn forge<D: Digest>(rng: &mut R, rounds: usize, edgy: bool) -> (Keys, Dl, Vec<F>, [F; 3]) {
                let k = rand_keys(rng, 1 << rounds, edgy);
                let p = rand_dl(rng, rounds, edgy, K);
                let ch = chals::<D>(&p);
                let c = solve(K, &k, &p, &ch);
                (k, p, ch, c)
            }
        }
    };
}
gipa_mod!(pair, PairingInnerProduct<E>, AFGHOCommitmentG1<E>, AFGHOCommitmentG2<E>, IdentityCommitment<GT, F>, [Kind::Dot, Kind::Dot, Kind::Ident]);
gipa_mod!(mexp, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<E>, PedersenCommitment<G1>, IdentityCommitment<G1, F>, [Kind::Dot, Kind::Dot, Kind::Ident]);
gipa_mod!(scal, ScalarInnerProduct<F>, PedersenCommitment<G2>, PedersenCommitment<G1>, PedersenCommitment<G1>, [Kind::Dot, Kind::Dot, Kind::Dot]);
gipa_mod!(scid, ScalarInnerProduct<F>, PedersenCommitment<G2>, PedersenCommitment<G1>, IdentityCommitment<F, F>, [Kind::Dot, Kind::Dot, Kind::Ident]);
gipa_mod!(mexp_s, MultiexponentiationInnerProduct<G1>, AFGHOCommitmentG1<E>, SSMPlaceholderCommitment<F>, IdentityCommitment<G1, F>, [Kind::Dot, Kind::Zero, Kind::Ident]);
gipa_mod!(scal_s, ScalarInnerProduct<F>, PedersenCommitment<G1>, SSMPlaceholderCommitment<F>, IdentityCommitment<F, F>, [Kind::Dot, Kind::Zero, Kind::Ident]);
gipa_mod!(scped_s, ScalarInnerProduct<F>, PedersenCommitment<G2>, SSMPlaceholderCommitment<F>, PedersenCommitment<G1>, [Kind::Dot, Kind::Zero, Kind::Dot]);

// ---------------------------------------------------------------- trusted setup
/// Setup with known secrets.
#[derive(Clone, Debug)]
pub struct Sec {
    pub alpha: F,
    pub beta: F,
}
impl Sec {
    pub fn srs(&self, n: usize) -> SRS<E> {
        SRS {
            g_alpha_powers: els(&pw(&self.alpha, 2 * n - 1)),
            h_beta_powers: els(&pw(&self.beta, 2 * n - 1)),
            g_beta: g1(self.beta),
            h_alpha: g2(self.alpha),
        }
    }
    pub fn v(&self) -> VerifierSRS<E> {
        VerifierSRS { g: g1(F::one()), h: g2(F::one()), g_beta: g1(self.beta), h_alpha: g2(self.alpha) }
    }
}
/// Opening of a folded left key (powers of beta) and of a folded right key (powers of alpha).
#[derive(Clone, Debug)]
pub struct Opening {
    pub ck: F,
    pub proof: F,
}
pub fn open_at(secret: F, ck: F, z: F, value: F) -> Opening {
    Opening { ck, proof: (ck - value) * (secret - z).inverse().unwrap() }
}
pub fn opens(secret: F, o: &Opening, z: F, value: F) -> bool {
    o.ck - value == (secret - z) * o.proof
}
#[derive(Clone, Debug)]
pub struct TDl {
    pub g: Dl,
    pub a: Opening,
    pub b: Opening,
}

#[macro_export]
macro_rules! tipa_mod {
    ($m:ident, $g:ident, $IP:ty) => {
        pub mod $m {
            #![allow(dead_code)]
            use $crate::core::*;
            use $crate::gipa::$g as g;
            use $crate::gipa::*;
            pub use g::{honest_com, Com, K, LM, NAME, RM};
            pub type Arg<D> = TIPA<$IP, g::L, g::Rc, g::T, E, D>;
            pub type Proof<D> = TIPAProof<$IP, g::L, g::Rc, g::T, E, D>;
            pub type Parts = (g::Parts, (G2, G1), (G2, G1));
            pub fn parts(p: &TDl) -> Parts {
                (g::parts(&p.g), (g2(p.a.ck), g1(p.b.ck)), (g2(p.a.proof), g1(p.b.proof)))
            }
            pub fn build<D: Digest>(p: &TDl) -> Proof<D> {
                remake(&parts(p))
            }
            pub fn kzg_chal<D: Digest>(ch: &[F], ca: F, cb: F) -> F {
                let mut h = ser(&ch.last().cloned().unwrap_or(F::zero()));
                h.extend(ser(&g2(ca)));
                h.extend(ser(&g1(cb)));
                field_chal::<D>(&h)
            }
            /// values the two folded keys have to open to, at the challenge point
            pub fn targets<D: Digest>(ch: &[F], ca: F, cb: F, shift: F) -> (F, F, F) {
                let z = kzg_chal::<D>(ch, ca, cb);
                (
                    z,
                    prod_form(&rev_inv(ch), z * z * shift.inverse().unwrap()),
                    prod_form(&rev(ch), z * z),
                )
            }
            pub fn forge<D: Digest>(rng: &mut R, s: &Sec, rounds: usize, shift: F, edgy: bool) -> (F, TDl, [F; 3]) {
                let p = rand_dl(rng, rounds, edgy, K);
                let ch = g::chals::<D>(&p);
                let f = vecf(rng, 2, edgy);
                let (z, va, vb) = targets::<D>(&ch, f[0], f[1], shift);
                let kt = nz(rng);
                let c = solve_at(K, f[0], f[1], kt, &p, &ch, p.base.1);
                let a = open_at(s.beta, f[0], z, va);
                let b = open_at(s.alpha, f[1], z, vb);
                (kt, TDl { g: p, a, b }, c)
            }
            pub fn holds<D: Digest>(s: &Sec, kt: F, c: &[F; 3], p: &TDl, shift: F) -> bool {
                let ch = g::chals::<D>(&p.g);
                let (z, va, vb) = targets::<D>(&ch, p.a.ck, p.b.ck, shift);
                solve_at(K, p.a.ck, p.b.ck, kt, &p.g, &ch, p.g.base.1) == *c
                    && opens(s.beta, &p.a, z, va)
                    && opens(s.alpha, &p.b, z, vb)
            }
            pub fn verify<D: Digest>(s: &Sec, kt: F, c: &[F; 3], p: &TDl, shift: Option<F>) -> Result<Result<bool, String>, String> {
                let c = g::coms(c);
                let p = build::<D>(p);
                let v = s.v();
                let kt = g::TK::dl(&kt);
                guard(|| match shift {
                    Some(r) => Arg::<D>::verify_with_srs_shift(&v, &kt, (&c.0, &c.1, &c.2), &p, &r),
                    None => Arg::<D>::verify(&v, &kt, (&c.0, &c.1, &c.2), &p),
                }
                .map_err(|e| e.to_string()))
            }
        }
    };
}
tipa_mod!(tpair, pair, PairingInnerProduct<E>);
tipa_mod!(tmexp, mexp, MultiexponentiationInnerProduct<G1>);
tipa_mod!(tscal, scal, ScalarInnerProduct<F>);
tipa_mod!(tscid, scid, ScalarInnerProduct<F>);

// ---------------------------------------------------------------- structured scalar message
#[derive(Clone, Debug)]
pub struct SDl {
    pub g: Dl,
    pub a: Opening,
}
#[macro_export]
macro_rules! ssm_mod {
    ($m:ident, $g:ident, $IP:ty) => {
        pub mod $m {
            #![allow(dead_code)]
            use $crate::core::*;
            use $crate::gipa::$g as g;
            use $crate::gipa::*;
            pub use g::{honest_com, K, LM, NAME, RM};
            pub type Arg<D> = GIPAWithSSM<$IP, g::L, g::T, D>;
            pub type Proof<D> = g::Proof<D>;
            /// (ka, com_a, com_t) for which everything holds: the proof's own right message is the product form
            pub fn forge<D: Digest>(rng: &mut R, rounds: usize, b: F, edgy: bool) -> (Keys, Dl, [F; 2]) {
                let k = rand_keys(rng, 1 << rounds, edgy);
                let mut p = rand_dl(rng, rounds, edgy, K);
                let ch = g::chals::<D>(&p);
                p.base.1 = prod_form(&rev_inv(&ch), b);
                let c = solve(K, &k, &p, &ch);
                (k, p, [c[0], c[2]])
            }
            pub fn holds<D: Digest>(k: &Keys, p: &Dl, c: &[F; 2], b: F) -> bool {
                if k.a.len() != 1 << p.steps.len() {
                    return false;
                }
                let ch = g::chals::<D>(p);
                let bb = prod_form(&rev_inv(&ch), b);
                let fa = fold_key_a(&k.a, &ch);
                let own = solve_at(K, fa, F::zero(), k.t, p, &ch, p.base.1);
                let theirs = solve_at(K, fa, F::zero(), k.t, p, &ch, bb);
                drift(p, &ch, 1).is_zero() && own[0] == c[0] && own[2] == c[1] && theirs[2] == c[1]
            }
            pub fn verify<D: Digest>(k: &Keys, c: &[F; 2], b: F, p: &Dl) -> Result<Result<bool, String>, String> {
                let (ka, kt) = (els::<g::LK>(&k.a), g::TK::dl(&k.t));
                let (ca, ct) = (g::LO::dl(&c[0]), g::TO::dl(&c[1]));
                let p = g::build::<D>(p);
                guard(|| {
                    Arg::<D>::verify_with_structured_scalar_message((&ka, &kt), (&ca, &ct), &b, &p)
                        .map_err(|e| e.to_string())
                })
            }
        }
    };
}
ssm_mod!(smexp, mexp_s, MultiexponentiationInnerProduct<G1>);
ssm_mod!(sscal, scal_s, ScalarInnerProduct<F>);
ssm_mod!(sscped, scped_s, ScalarInnerProduct<F>);

#[macro_export]
macro_rules! tssm_mod {
    ($m:ident, $g:ident, $IP:ty) => {
        pub mod $m {
            #![allow(dead_code)]
            use $crate::core::*;
            use $crate::gipa::$g as g;
            use $crate::gipa::*;
            pub use g::{honest_com, K, LM, NAME, RM};
            pub type Arg<D> = TIPAWithSSM<$IP, g::L, g::T, E, D>;
            pub type Proof<D> = TIPAWithSSMProof<$IP, g::L, g::T, E, D>;
            pub type Parts = (g::Parts, G2, G2);
            pub fn parts(p: &SDl) -> Parts {
                (g::parts(&p.g), g2(p.a.ck), g2(p.a.proof))
            }
            pub fn build<D: Digest>(p: &SDl) -> Proof<D> {
                remake(&parts(p))
            }
            pub fn target<D: Digest>(ch: &[F], ck: F) -> (F, F) {
                let mut h = ser(&ch.last().cloned().unwrap_or(F::zero()));
                h.extend(ser(&g2(ck)));
                let z = field_chal::<D>(&h);
                (z, prod_form(&rev_inv(ch), z * z))
            }
            pub fn forge<D: Digest>(rng: &mut R, s: &Sec, rounds: usize, b: F, edgy: bool) -> (F, SDl, [F; 2]) {
                let p = rand_dl(rng, rounds, edgy, [Kind::Dot; 3]);
                forge_with::<D>(rng, s, p, b, edgy)
            }
            pub fn forge_with<D: Digest>(rng: &mut R, s: &Sec, p: Dl, b: F, edgy: bool) -> (F, SDl, [F; 2]) {
                let ch = g::chals::<D>(&p);
                let fa = vecf(rng, 1, edgy)[0];
                let (z, va) = target::<D>(&ch, fa);
                let kt = nz(rng);
                let c = solve_at(K, fa, F::zero(), kt, &p, &ch, prod_form(&rev_inv(&ch), b));
                (kt, SDl { g: p, a: open_at(s.beta, fa, z, va) }, [c[0], c[2]])
            }
            pub fn holds<D: Digest>(s: &Sec, kt: F, c: &[F; 2], b: F, p: &SDl) -> bool {
                let ch = g::chals::<D>(&p.g);
                let (z, va) = target::<D>(&ch, p.a.ck);
                let e = solve_at(K, p.a.ck, F::zero(), kt, &p.g, &ch, prod_form(&rev_inv(&ch), b));
                e[0] == c[0] && e[2] == c[1] && opens(s.beta, &p.a, z, va)
            }
            pub fn verify<D: Digest>(s: &Sec, kt: F, c: &[F; 2], b: F, p: &SDl) -> Result<Result<bool, String>, String> {
                let v = s.v();
                let kt = g::TK::dl(&kt);
                let (ca, ct) = (g::LO::dl(&c[0]), g::TO::dl(&c[1]));
                let p = build::<D>(p);
                guard(|| {
                    Arg::<D>::verify_with_structured_scalar_message(&v, &kt, (&ca, &ct), &b, &p)
                        .map_err(|e| e.to_string())
                })
            }
        }
    };
}
tssm_mod!(tsmexp, mexp_s, MultiexponentiationInnerProduct<G1>);
tssm_mod!(tsscped, scped_s, ScalarInnerProduct<F>);
