//! C13 - C19, C25 and parts of C08, C26, C27: aggregation and polynomial commitments.
use crate::core::*;
use crate::gipa::*;
use crate::p_gipa::{attempts, attempts_until_field, calm, tri};
use crate::p_tipa::{check_powers, check_powers2, sec};
use ark_bls12_381::{G1Affine, G2Affine};
use ark_groth16::{Proof as GProof, VerifyingKey};
use ark_ip_proofs::applications::groth16_aggregation as agg;
use ark_ip_proofs::applications::poly_commit as pc;
use ark_ip_proofs::applications::poly_commit::transparent as tr;
use ark_poly::{univariate::DensePolynomial as Poly, DenseUVPolynomial, Polynomial};
use blake2::Blake2b;

// ------------------------------------------------------------------ Groth16 aggregation
#[derive(Clone, Debug)]
pub struct Vk {
    alpha: F,
    beta: F,
    gamma: F,
    delta: F,
    ic: Vec<F>,
}
impl Vk {
    fn rand(rng: &mut R, inputs: usize) -> Vk {
        Vk { alpha: nz(rng), beta: nz(rng), gamma: nz(rng), delta: nz(rng), ic: vecf(rng, inputs + 1, false) }
    }
    fn real(&self) -> VerifyingKey<E> {
        VerifyingKey {
            alpha_g1: g1(self.alpha).into_affine(),
            beta_g2: g2(self.beta).into_affine(),
            gamma_g2: g2(self.gamma).into_affine(),
            delta_g2: g2(self.delta).into_affine(),
            gamma_abc_g1: self.ic.iter().map(|x| g1(*x).into_affine()).collect(),
        }
    }
    fn ic(&self, inp: &[F]) -> F {
        self.ic[0] + dot(&self.ic[1..], inp)
    }
    /// a proof (discrete logarithms) accepted for the inputs
    fn proof(&self, rng: &mut R, inp: &[F]) -> (F, F, F) {
        let (a, b) = (F::rand(rng), F::rand(rng));
        (a, b, (a * b - self.alpha * self.beta - self.ic(inp) * self.gamma) * self.delta.inverse().unwrap())
    }
}
fn real_proof(p: &(F, F, F)) -> GProof<E> {
    GProof { a: g1(p.0).into_affine(), b: g2(p.1).into_affine(), c: g1(p.2).into_affine() }
}
#[derive(Clone, Debug)]
pub struct AggDl {
    com: [F; 3],
    ip_ab: F,
    agg_c: F,
    ab: TDl,
    c: SDl,
}
type AggParts = (GT, GT, GT, GT, G1, tpair::Parts, tsmexp::Parts);
type Agg<D> = agg::AggregateProof<E, D>;
#[cfg(vp_hooks)]
fn agg_build<D: Digest>(p: &AggDl) -> Agg<D> {
    let q: AggParts = (gt(p.com[0]), gt(p.com[1]), gt(p.com[2]), gt(p.ip_ab), g1(p.agg_c), tpair::parts(&p.ab), tsmexp::parts(&p.c));
    remake(&Seven(q))
}
/// seven parts one after the other
struct Seven(AggParts);
impl ark_serialize::Valid for Seven {
    fn check(&self) -> Result<(), ark_serialize::SerializationError> {
        Ok(())
    }
}
impl CanonicalSerialize for Seven {
    fn serialize_with_mode<W: std::io::Write>(&self, mut w: W, m: ark_serialize::Compress) -> Result<(), ark_serialize::SerializationError> {
        let q = &self.0;
        q.0.serialize_with_mode(&mut w, m)?;
        q.1.serialize_with_mode(&mut w, m)?;
        q.2.serialize_with_mode(&mut w, m)?;
        q.3.serialize_with_mode(&mut w, m)?;
        q.4.serialize_with_mode(&mut w, m)?;
        q.5.serialize_with_mode(&mut w, m)?;
        q.6.serialize_with_mode(&mut w, m)
    }
    fn serialized_size(&self, _: ark_serialize::Compress) -> usize {
        0
    }
}
fn agg_r<D: Digest>(c: &[F; 3]) -> F {
    let mut h = ser(&gt(c[0]));
    h.extend(ser(&gt(c[1])));
    h.extend(ser(&gt(c[2])));
    field_chal::<D>(&h)
}
fn ppe(vk: &Vk, inputs: &[Vec<F>], r: F, ip_ab: F, agg_c: F) -> bool {
    let rs = pw(&r, inputs.len());
    let sum: F = rs.iter().sum();
    let ic: F = rs.iter().zip(inputs).map(|(r, i)| *r * vk.ic(i)).sum();
    ip_ab == vk.alpha * vk.beta * sum + ic * vk.gamma + agg_c * vk.delta
}
fn agg_holds<D: Digest>(s: &Sec, vk: &Vk, inputs: &[Vec<F>], p: &AggDl) -> bool {
    let r = agg_r::<D>(&p.com);
    !inputs.is_empty()
        && inputs.iter().all(|i| i.len() + 1 == vk.ic.len())
        && tpair::holds::<D>(s, F::zero(), &[p.com[0], p.com[1], p.ip_ab], &p.ab, r)
        && tsmexp::holds::<D>(s, F::zero(), &[p.com[2], p.agg_c], r, &p.c)
        && ppe(vk, inputs, r, p.ip_ab, p.agg_c)
}
#[cfg(vp_hooks)]
fn agg_verify<D: Digest>(s: &Sec, vk: &Vk, inputs: &[Vec<F>], p: &AggDl) -> Result<Result<bool, String>, String> {
    let (v, k, p, i) = (s.v(), vk.real(), agg_build::<D>(p), inputs.to_vec());
    guard(|| agg::verify_aggregate_proof::<E, D>(&v, &k, &i, &p).map_err(|e| e.to_string()))
}
/// An aggregate for which every equation holds. The key's alpha is chosen last.
fn agg_forge<D: Digest>(rng: &mut R, s: &Sec, rounds: usize, ninp: usize, count: usize, edgy: bool) -> (Vk, Vec<Vec<F>>, AggDl) {
    // the sub-proofs' commitments do not depend on r, their openings and claimed values do
    let g_ab = rand_dl(rng, rounds, edgy, [Kind::Dot; 3]);
    let g_c = rand_dl(rng, rounds, edgy, [Kind::Dot; 3]);
    let (ca, cc) = (pair::chals::<D>(&g_ab), mexp_s::chals::<D>(&g_c));
    let f = vecf(rng, 3, edgy);
    let x = solve_at(pair::K, f[0], f[1], F::zero(), &g_ab, &ca, g_ab.base.1);
    let y = solve_at(mexp_s::K, f[2], F::zero(), F::zero(), &g_c, &cc, F::zero());
    let com = [x[0], x[1], y[0]];
    let r = agg_r::<D>(&com);
    let (z, va, vb) = tpair::targets::<D>(&ca, f[0], f[1], r);
    let ab = TDl { g: g_ab, a: open_at(s.beta, f[0], z, va), b: open_at(s.alpha, f[1], z, vb) };
    let (z, v) = tsmexp::target::<D>(&cc, f[2]);
    let y = solve_at(mexp_s::K, f[2], F::zero(), F::zero(), &g_c, &cc, prod_form(&rev_inv(&cc), r));
    let c = SDl { g: g_c, a: open_at(s.beta, f[2], z, v) };
    let (ip_ab, agg_c) = (x[2], y[2]);
    let mut vk = Vk::rand(rng, ninp);
    let inputs: Vec<Vec<F>> = (0..count).map(|_| vecf(rng, ninp, edgy)).collect();
    let rs = pw(&r, count);
    let sum: F = rs.iter().sum();
    let ic: F = rs.iter().zip(&inputs).map(|(r, i)| *r * vk.ic(i)).sum();
    vk.alpha = (ip_ab - ic * vk.gamma - agg_c * vk.delta) * (sum * vk.beta).inverse().unwrap();
    (vk, inputs, AggDl { com, ip_ab, agg_c, ab, c })
}
pub fn c13(c: &mut Ctx) {
    for rounds in [7usize].into_iter().chain(0..=(if c.thorough { 5 } else { 4 })) {
        for ninp in [0usize, 1, 2, 5, 40] {
            if rounds > 2 && ninp != 2 {
                continue;
            }
            for kind in 0..3 {
                c.case(format!("honest proofs={} inputs={} kind={}", 1 << rounds, ninp, kind), |rng| {
                    let n = 1usize << rounds;
                    set_mode(Mode::RejectBelow(rng.gen_range(0..3)));
                    let s = sec(rng);
                    let vk = Vk::rand(rng, ninp);
                    let mut inputs: Vec<Vec<F>> = (0..n).map(|_| vecf(rng, ninp, kind == 1)).collect();
                    let mut proofs: Vec<(F, F, F)> = inputs.iter().map(|i| vk.proof(rng, i)).collect();
                    if kind == 2 {
                        // the same proof several times, and proofs with neutral parts
                        for i in 1..n {
                            if i % 2 == 1 {
                                inputs[i] = inputs[0].clone();
                                proofs[i] = proofs[0];
                            } else {
                                let ic = vk.ic(&inputs[i]);
                                proofs[i] = (F::zero(), F::rand(rng), (-vk.alpha * vk.beta - ic * vk.gamma) * vk.delta.inverse().unwrap());
                            }
                        }
                    }
                    let gp: Vec<GProof<E>> = proofs.iter().map(real_proof).collect();
                    let (srs, key) = if kind == 1 {
                        let srs = agg::setup_inner_product::<E, Mock, _>(rng, n).map_err(|e| e.to_string())?;
                        let v = srs.get_verifier_key();
                        (srs, v)
                    } else {
                        (s.srs(n), s.v())
                    };
                    let p = agg::aggregate_proofs::<E, Mock>(&srs, &gp).map_err(|e| format!("aggregating valid proofs fails: {}", e))?;
                    verdict(agg::verify_aggregate_proof::<E, Mock>(&key, &vk.real(), &inputs, &p).map_err(|e| e.to_string()), true, "aggregate of valid proofs")?;
                    if ninp > 0 {
                        let mut bad = inputs.clone();
                        bad[n - 1][ninp - 1] += F::one();
                        verdict(agg::verify_aggregate_proof::<E, Mock>(&key, &vk.real(), &bad, &p).map_err(|e| e.to_string()), false, "harness: other inputs")
                            .map_err(|_| "an aggregate is accepted for other inputs".to_string())?;
                    }
                    Ok(())
                });
            }
        }
    }
}
#[cfg(vp_hooks)]
pub fn c14(c: &mut Ctx) {
    for rounds in [7usize].into_iter().chain(0..=(if c.thorough { 4 } else { 3 })) {
        for (ninp, edgy) in [(0usize, false), (1, false), (3, false), (2, true), (20, false)] {
            if rounds > 6 && ninp != 1 || ninp > 10 && rounds != 1 {
                continue;
            }
            c.case(format!("constructed rounds={} inputs={} edgy={}", rounds, ninp, edgy), |rng| {
                set_mode(Mode::RejectBelow(rng.gen_range(0..3)));
                let s = sec(rng);
                let n = 1usize << rounds;
                let (vk, inputs, p) = agg_forge::<Mock>(rng, &s, rounds, ninp, n, edgy);
                must(agg_holds::<Mock>(&s, &vk, &inputs, &p), "harness: construction")?;
                let t = |vk: &Vk, i: &[Vec<F>], p: &AggDl, what: &str| tri(agg_verify::<Mock>(&s, vk, i, p), agg_holds::<Mock>(&s, vk, i, p), what);
                t(&vk, &inputs, &p, "constructed aggregate")?;
                let d = nz(rng);
                for j in 0..3 {
                    let mut q = p.clone();
                    q.com[j] += d;
                    t(&vk, &inputs, &q, &format!("commitment {} changed", j))?;
                }
                // claimed values: each alone, and so that the combined equation still holds
                let mut q = p.clone();
                q.ip_ab += d;
                t(&vk, &inputs, &q, "claimed pairing product changed")?;
                let mut q = p.clone();
                q.agg_c += d;
                t(&vk, &inputs, &q, "claimed combination changed")?;
                let mut q = p.clone();
                q.agg_c += d;
                q.ip_ab += d * vk.delta;
                t(&vk, &inputs, &q, "claimed values changed, combined equation kept")?;
                // sub-proofs
                for (x, y, z) in [(d, F::zero(), F::zero()), (F::zero(), d, F::zero()), (F::zero(), F::zero(), d)] {
                    let mut q = p.clone();
                    q.ab.a.proof += x;
                    q.ab.b.proof += y;
                    q.c.a.proof += z;
                    t(&vk, &inputs, &q, "key opening changed")?;
                    let mut q = p.clone();
                    q.ab.g.base.0 += x;
                    q.ab.g.base.1 += y;
                    q.c.g.base.0 += z;
                    t(&vk, &inputs, &q, "final message changed")?;
                    let mut q = p.clone();
                    q.ab.a.ck += x;
                    q.ab.b.ck += y;
                    q.c.a.ck += z;
                    t(&vk, &inputs, &q, "final key changed")?;
                }
                for r in (0..rounds).filter(|r| rounds < 6 || *r == 0 || *r == rounds - 1) {
                    for j in 0..3 {
                        let mut q = p.clone();
                        q.ab.g.steps[r].0[j] += d;
                        t(&vk, &inputs, &q, "round element changed")?;
                        let mut q = p.clone();
                        q.c.g.steps[r].1[j] += d;
                        t(&vk, &inputs, &q, "round element changed")?;
                    }
                }
                // verification key and inputs
                for f in 0..4 {
                    let mut k = vk.clone();
                    match f {
                        0 => k.alpha += d,
                        1 => k.beta += d,
                        2 => k.gamma += d,
                        _ => k.delta += d,
                    }
                    t(&k, &inputs, &p, "verification key changed")?;
                }
                for j in 0..vk.ic.len() {
                    let mut k = vk.clone();
                    k.ic[j] += d;
                    t(&k, &inputs, &p, "verification key changed")?;
                }
                for i in (0..n).filter(|i| n < 100 || [0, n / 2, n - 1].contains(i)) {
                    for j in (0..ninp).filter(|j| ninp < 10 || [0, ninp - 1].contains(j)) {
                        let mut b = inputs.clone();
                        b[i][j] += d;
                        t(&vk, &b, &p, "input changed")?;
                    }
                    // surplus or missing inputs
                    for extra in [F::zero(), F::one(), d] {
                        let mut b = inputs.clone();
                        b[i].push(extra);
                        tri(agg_verify::<Mock>(&s, &vk, &b, &p), false, "a proof with a surplus input")?;
                    }
                    if ninp > 0 {
                        let mut b = inputs.clone();
                        b[i].pop();
                        tri(agg_verify::<Mock>(&s, &vk, &b, &p), false, "a proof with a missing input")?;
                    }
                }
                if n > 1 {
                    let mut b = inputs.clone();
                    b.swap(0, n - 1);
                    t(&vk, &b, &p, "inputs exchanged")?;
                }
                // other numbers of proofs
                let mut b = inputs.clone();
                b.push(vec![F::zero(); ninp]);
                t(&vk, &b, &p, "one more set of inputs")?;
                let mut b = inputs.clone();
                b.pop();
                t(&vk, &b, &p, "one set of inputs less")?;
                // all proofs given one surplus input at once (and a shorter key)
                let mut b = inputs.clone();
                b.iter_mut().for_each(|x| x.push(F::zero()));
                tri(agg_verify::<Mock>(&s, &vk, &b, &p), false, "every proof with a surplus input")?;
                let mut k = vk.clone();
                k.ic.push(F::zero());
                tri(agg_verify::<Mock>(&s, &k, &inputs, &p), false, "every proof with a missing input")?;
                // verifier key
                for s2 in [Sec { alpha: nz(rng), beta: s.beta }, Sec { alpha: s.alpha, beta: nz(rng) }] {
                    tri(agg_verify::<Mock>(&s2, &vk, &inputs, &p), agg_holds::<Mock>(&s2, &vk, &inputs, &p), "another verifier key")?;
                }
                Ok(())
            });
        }
    }
    for count in [1usize, 2, 3, 5, 6, 7] {
        c.case(format!("constructed for {} input sets", count), |rng| {
            let s = sec(rng);
            let (vk, inputs, p) = agg_forge::<Mock>(rng, &s, 2, 2, count, false);
            tri(agg_verify::<Mock>(&s, &vk, &inputs, &p), true, "constructed aggregate")
        });
    }
    c.case("challenge transcript", |rng| {
        let rej = 2;
        set_mode(Mode::RejectBelow(rej));
        let s = sec(rng);
        let (vk, inputs, p) = agg_forge::<Mock>(rng, &s, 1, 1, 2, false);
        let mut h = ser(&gt(p.com[0]));
        h.extend(ser(&gt(p.com[1])));
        h.extend(ser(&gt(p.com[2])));
        let want = attempts_until_field(h);
        let (_, l) = record(|| agg_verify::<Mock>(&s, &vk, &inputs, &p));
        must(l.len() >= want.len() && l[..want.len()] == want[..], "combination challenge is not hashed from all three commitments")
    });
}
#[cfg(not(vp_hooks))]
pub fn c14(_: &mut Ctx) {}

// ------------------------------------------------------------------ KZG
fn poly(rng: &mut R, n: usize, edgy: bool) -> Poly<F> {
    Poly::from_coefficients_vec(vecf(rng, n, edgy))
}
pub fn ev(p: &[F], x: &F) -> F {
    p.iter().rev().fold(F::zero(), |a, c| a * x + c)
}
fn aff(v: &[F]) -> Vec<G1Affine> {
    v.iter().map(|x| g1(*x).into_affine()).collect()
}
pub fn c15(c: &mut Ctx) {
    type K = pc::KZG<E>;
    let mut degs = vec![300usize, 0, 1, 2, 3, 4, 7, 8, 16, 31, 64];
    if c.thorough {
        degs.extend([5, 6, 9, 15, 32, 33, 63, 100]);
    }
    for &deg in &degs {
        for edgy in [false, true] {
            c.case(format!("degree {} edgy={}", deg, edgy), |rng| {
                let s = sec(rng);
                let (powers, v) = (aff(&pw(&s.alpha, deg + 1)), s.v());
                let es = |e: BoxErr| format!("error: {}", e);
                for len in [0, 1, deg / 2 + 1, deg, deg + 1] {
                    if len > deg + 1 {
                        continue;
                    }
                    let mut p = poly(rng, len, edgy);
                    let mut pts = vec![F::zero(), F::one(), s.alpha, F::rand(rng)];
                    if len >= 2 {
                        // a polynomial with a known root
                        let root = F::rand(rng);
                        let q = poly(rng, len - 1, edgy);
                        p = &q * &Poly::from_coefficients_vec(vec![-root, F::one()]);
                        pts.push(root);
                    }
                    let com = K::commit(&powers, &p).map_err(es)?;
                    must(com == g1(ev(&p.coeffs, &s.alpha)), format!("commitment of a polynomial with {} coefficients", len))?;
                    for x in &pts {
                        let y = ev(&p.coeffs, x);
                        let pi = K::open(&powers, &p, x).map_err(es)?;
                        verdict(K::verify(&v, &com, x, &y, &pi).map_err(|e| e.to_string()), true, "opening at the true value")?;
                        let w = |dc: F, dx: F, dy: F, dp: F| -> Res {
                            let piv = if *x == s.alpha { return Ok(()) } else { (ev(&p.coeffs, &s.alpha) - y) * (s.alpha - x).inverse().unwrap() };
                            let want = ev(&p.coeffs, &s.alpha) + dc - (y + dy) == (piv + dp) * (s.alpha - (*x + dx));
                            verdict(K::verify(&v, &(com + g1(dc)), &(*x + dx), &(y + dy), &(pi + g1(dp))).map_err(|e| e.to_string()), want, "altered opening")
                        };
                        let (z, d) = (F::zero(), nz(rng));
                        w(d, z, z, z)?;
                        w(z, d, z, z)?;
                        w(z, z, d, z)?;
                        w(z, z, z, d)?;
                        w(d, z, d, z)?;
                        if *x == s.alpha {
                            verdict(K::verify(&v, &com, x, &(y + F::one()), &pi).map_err(|e| e.to_string()), false, "wrong value at the secret")?;
                        }
                    }
                }
                for big in [deg + 2, deg + 3, 2 * deg + 4] {
                    let mut cf = vecf(rng, big, false);
                    if edgy {
                        for x in cf.iter_mut().take(big - 1) {
                            *x = F::zero();
                        }
                    }
                    let p = Poly::from_coefficients_vec(cf);
                    must(!matches!(guard(|| K::commit(&powers, &p).map_err(|e| e.to_string())), Ok(Ok(_))), format!("a polynomial of degree {} is committed with {} powers", big - 1, deg + 1))?;
                    must(!matches!(guard(|| K::open(&powers, &p, &F::rand(rng)).map_err(|e| e.to_string())), Ok(Ok(_))), format!("a polynomial of degree {} is opened with {} powers", big - 1, deg + 1))?;
                }
                Ok(())
            });
        }
        c.case(format!("generated setup {}", deg), |rng| {
            let (powers, v) = K::setup(rng, deg).map_err(|e| e.to_string())?;
            must(powers.len() == deg + 1, "number of powers")?;
            let p = poly(rng, deg + 1, false);
            let x = F::rand(rng);
            let (cm, pi) = (K::commit(&powers, &p).map_err(|e| e.to_string())?, K::open(&powers, &p, &x).map_err(|e| e.to_string())?);
            verdict(K::verify(&v, &cm, &x, &p.evaluate(&x), &pi).map_err(|e| e.to_string()), true, "opening at the true value")?;
            verdict(K::verify(&v, &cm, &x, &(p.evaluate(&x) + F::one()), &pi).map_err(|e| e.to_string()), false, "opening at another value")
        });
    }
    c.case("constructed equations", |rng| {
        for i in 0..12 {
            let s = sec(rng);
            let v = vecf(rng, 3, i % 2 == 0);
            let (x, y, pi) = (v[0], v[1], v[2]);
            let com = y + pi * (s.alpha - x);
            for (d, e, f, g) in [(0u64, 0u64, 0u64, 0u64), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 0, 1, 0)] {
                let (c2, x2, y2, p2) = (com + F::from(d), x + F::from(e), y + F::from(f), pi + F::from(g));
                let want = c2 - y2 == p2 * (s.alpha - x2);
                verdict(K::verify(&s.v(), &g1(c2), &x2, &y2, &g1(p2)).map_err(|e| e.to_string()), want, "constructed opening")?;
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ bivariate polynomials
type Biv = pc::BivariatePolynomial<F>;
type TBiv = tr::BivariatePolynomial<F>;
#[cfg(vp_hooks)]
fn biv<T: CanonicalDeserialize>(rows: &[Vec<F>]) -> T {
    let v: Vec<Poly<F>> = rows.iter().map(|r| Poly::from_coefficients_slice(r)).collect();
    remake(&v)
}
fn bev(rows: &[Vec<F>], x: &F, y: &F) -> F {
    let v: Vec<F> = rows.iter().map(|r| ev(r, y)).collect();
    ev(&v, x)
}
fn rows(rng: &mut R, n: usize, m: usize, edgy: bool) -> Vec<Vec<F>> {
    (0..n)
        .map(|_| {
            let l = if edgy { rng.gen_range(0..=m) } else { m };
            vecf(rng, l, edgy)
        })
        .collect()
}
type BC<D> = pc::BivariatePolynomialCommitment<E, D>;
type UC<D> = pc::UnivariatePolynomialCommitment<E, D>;
type TBC<D> = tr::BivariatePolynomialCommitment<E, D>;
type TUC<D> = tr::UnivariatePolynomialCommitment<E, D>;
fn bsrs(s: &Sec, rows: usize, cols: usize) -> (SRS<E>, Vec<G1Affine>) {
    (
        SRS { g_alpha_powers: vec![g1(F::one())], h_beta_powers: els(&pw(&s.beta, 2 * rows - 1)), g_beta: g1(s.beta), h_alpha: g2(s.alpha) },
        aff(&pw(&s.alpha, cols)),
    )
}
fn shapes(thorough: bool) -> Vec<(usize, usize)> {
    let mut v = vec![(128, 1), (64, 17), (1, 140), (2, 65), (1, 1), (1, 2), (2, 1), (2, 3), (1, 8), (4, 2), (4, 4), (8, 5), (8, 1), (16, 2)];
    if thorough {
        v.extend([(2, 16), (16, 16), (32, 3), (2, 33)]);
    }
    v
}
#[cfg(vp_hooks)]
pub fn c16(c: &mut Ctx) {
    for (n, m) in shapes(c.thorough) {
        for kind in 0..3usize {
            c.case(format!("bivariate {}x{} kind={}", n, m, kind), |rng| {
                let es = |e: BoxErr| format!("error: {}", e);
                set_mode(Mode::RejectBelow(rng.gen_range(0..2)));
                let s = sec(rng);
                let srs = if kind == 1 { BC::<Mock>::setup(rng, n - 1, m - 1).map_err(es)? } else { bsrs(&s, n, m) };
                let v = srs.0.get_verifier_key();
                let used = if kind == 0 { n } else { rng.gen_range(0..=n) };
                let r = rows(rng, used, m, kind > 0);
                let p: Biv = biv(&r);
                let (cm, ys) = BC::<Mock>::commit(&srs, &p).map_err(es)?;
                for (x, y) in [(F::rand(rng), F::rand(rng)), (F::zero(), F::rand(rng)), (F::rand(rng), F::zero()), (F::one(), F::one()), (s.beta, s.alpha)] {
                    must(p.evaluate(&(x, y)) == bev(&r, &x, &y), "evaluation of a bivariate polynomial")?;
                    let o = BC::<Mock>::open(&srs, &p, &ys, &(x, y)).map_err(es)?;
                    verdict(BC::<Mock>::verify(&v, &cm, &(x, y), &bev(&r, &x, &y), &o).map_err(|e| e.to_string()), true, "honest opening")?;
                    verdict(BC::<Mock>::verify(&v, &cm, &(x, y), &(bev(&r, &x, &y) + F::one()), &o).map_err(|e| e.to_string()), false, "opening at a wrong value")?;
                }
                Ok(())
            });
        }
    }
    let mut degs = vec![4100usize, 1000, 0, 1, 2, 3, 4, 5, 7, 8, 14, 15, 16, 17, 30, 63, 64, 80];
    if c.thorough {
        degs.extend([6, 9, 31, 32, 33, 100, 127, 128, 255, 256, 300, 1023, 1024]);
    }
    for d in degs {
        c.case(format!("univariate degree {}", d), |rng| {
            let es = |e: BoxErr| format!("error: {}", e);
            let srs = UC::<Blake2b>::setup(rng, d).map_err(es)?;
            let v = srs.0.get_verifier_key();
            for len in [d + 1, d / 2 + 1, 0] {
                let p = poly(rng, len, false);
                let (cm, ys) = UC::<Blake2b>::commit(&srs, &p).map_err(es)?;
                for x in [F::rand(rng), F::zero(), F::one()] {
                    let y = ev(&p.coeffs, &x);
                    let o = UC::<Blake2b>::open(&srs, &p, &ys, &x).map_err(es)?;
                    verdict(UC::<Blake2b>::verify(&v, d, &cm, &x, &y, &o).map_err(|e| e.to_string()), true, "honest opening")?;
                }
                if d > 40 {
                    break;
                }
            }
            Ok(())
        });
    }
}
#[cfg(vp_hooks)]
pub fn c18(c: &mut Ctx) {
    for (n, m) in shapes(c.thorough) {
        let m = m.next_power_of_two();
        for kind in 0..3usize {
            c.case(format!("bivariate {}x{} kind={}", n, m, kind), |rng| {
                let es = |e: BoxErr| format!("error: {}", e);
                set_mode(Mode::RejectBelow(rng.gen_range(0..2)));
                let ck = if kind == 1 { TBC::<Mock>::setup(rng, n - 1, m - 1).map_err(es)? } else { (els::<G1>(&vecf(rng, m, kind == 2)), els::<G2>(&vecf(rng, n, kind == 2))) };
                must(ck.0.len() == m && ck.1.len() == n, "number of keys")?;
                let used = if kind == 0 { n } else { rng.gen_range(0..=n) };
                let r = rows(rng, used, m, kind > 0);
                let p: TBiv = biv(&r);
                let (cm, ys) = TBC::<Mock>::commit(&ck, &p).map_err(es)?;
                for (x, y) in [(F::rand(rng), F::rand(rng)), (F::zero(), F::rand(rng)), (F::rand(rng), F::zero()), (F::one(), F::one())] {
                    must(p.evaluate(&(x, y)) == bev(&r, &x, &y), "evaluation of a bivariate polynomial")?;
                    let o = TBC::<Mock>::open(&ck, &p, &ys, &(x, y)).map_err(es)?;
                    verdict(TBC::<Mock>::verify(&ck, &cm, &(x, y), &bev(&r, &x, &y), &o).map_err(|e| e.to_string()), true, "honest opening")?;
                    verdict(TBC::<Mock>::verify(&ck, &cm, &(x, y), &(bev(&r, &x, &y) + F::one()), &o).map_err(|e| e.to_string()), false, "opening at a wrong value")?;
                }
                Ok(())
            });
        }
    }
    let mut degs = vec![4100usize, 1000, 0, 1, 2, 3, 4, 5, 7, 8, 14, 15, 16, 17, 30, 63, 64, 80];
    if c.thorough {
        degs.extend([6, 9, 31, 32, 33, 100, 127, 128, 255, 256, 300, 1023, 1024]);
    }
    for d in degs {
        c.case(format!("univariate degree {}", d), |rng| {
            let es = |e: BoxErr| format!("error: {}", e);
            let ck = TUC::<Blake2b>::setup(rng, d).map_err(es)?;
            for len in [d + 1, d / 2 + 1, 0] {
                let p = poly(rng, len, false);
                let (cm, ys) = TUC::<Blake2b>::commit(&ck, &p).map_err(es)?;
                for x in [F::rand(rng), F::zero(), F::one()] {
                    let y = ev(&p.coeffs, &x);
                    let o = TUC::<Blake2b>::open(&ck, &p, &ys, &x).map_err(es)?;
                    verdict(TUC::<Blake2b>::verify(&ck, &cm, &x, &y, &o).map_err(|e| e.to_string()), true, "honest opening")?;
                }
                if d > 40 {
                    break;
                }
            }
            Ok(())
        });
    }
}
#[derive(Clone, Debug)]
struct ODl {
    ip: SDl,
    y: F,
    kzg: F,
}
#[cfg(vp_hooks)]
fn o_build<D: Digest>(o: &ODl) -> pc::OpeningProof<E, D> {
    remake(&(tsmexp::parts(&o.ip), g1(o.y), g1(o.kzg)))
}
fn o_holds<D: Digest>(s: &Sec, com: F, x: F, y: F, e: F, o: &ODl) -> bool {
    tsmexp::holds::<D>(s, F::zero(), &[com, o.y], x, &o.ip) && o.y - e == o.kzg * (s.alpha - y)
}
#[cfg(vp_hooks)]
pub fn c17(c: &mut Ctx) {
    let v3 = |s: &Sec, com: F, x: F, y: F, e: F, o: &ODl| {
        let (v, o) = (s.v(), o_build::<Mock>(o));
        guard(|| BC::<Mock>::verify(&v, &gt(com), &(x, y), &e, &o).map_err(|e| e.to_string()))
    };
    for rounds in [9usize].into_iter().chain(0..=(if c.thorough { 5 } else { 4 })) {
        for edgy in [false, true] {
            if rounds > 6 && edgy {
                continue;
            }
            c.case(format!("constructed rounds={} edgy={}", rounds, edgy), |rng| {
                set_mode(Mode::RejectBelow(rng.gen_range(0..2)));
                let s = sec(rng);
                for (x, y) in [(F::rand(rng), F::rand(rng)), (F::zero(), F::one()), (F::one(), F::zero())].into_iter().take(if rounds > 6 { 1 } else { 3 }) {
                    let (_, ip, cm) = tsmexp::forge::<Mock>(rng, &s, rounds, x, edgy);
                    let e = F::rand(rng);
                    let o = ODl { ip, y: cm[1], kzg: (cm[1] - e) * (s.alpha - y).inverse().unwrap() };
                    let com = cm[0];
                    let t = |com: F, x: F, y: F, e: F, o: &ODl, what: &str| tri(v3(&s, com, x, y, e, o), o_holds::<Mock>(&s, com, x, y, e, o), what);
                    t(com, x, y, e, &o, "constructed opening")?;
                    let d = nz(rng);
                    t(com + d, x, y, e, &o, "commitment changed")?;
                    t(com, x + d, y, e, &o, "first coordinate changed")?;
                    t(com, x, y + d, e, &o, "second coordinate changed")?;
                    t(com, y, x, e, &o, "coordinates exchanged")?;
                    t(com, x, y, e + d, &o, "value changed")?;
                    let q = ODl { y: o.y + d, ..o.clone() };
                    t(com, x, y, e, &q, "intermediate commitment changed")?;
                    t(com, x, y, e + d, &q, "intermediate commitment and value changed")?;
                    let q = ODl { y: o.y + d, kzg: (o.y + d - e) * (s.alpha - y).inverse().unwrap(), ..o.clone() };
                    t(com, x, y, e, &q, "intermediate commitment changed, inner opening fits")?;
                    let q = ODl { kzg: o.kzg + d, ..o.clone() };
                    t(com, x, y, e, &q, "inner opening changed")?;
                    let mut q = o.clone();
                    q.ip.g.base.0 += d;
                    t(com, x, y, e, &q, "final message changed")?;
                    let mut q = o.clone();
                    q.ip.a.ck += d;
                    t(com, x, y, e, &q, "final key changed")?;
                    let mut q = o.clone();
                    q.ip.a.proof += d;
                    t(com, x, y, e, &q, "key opening changed")?;
                    for r in (0..rounds).filter(|r| rounds < 7 || *r == 0 || *r == rounds - 1) {
                        let mut q = o.clone();
                        q.ip.g.steps[r].0[2] += d;
                        t(com, x, y, e, &q, "round element changed")?;
                        let mut q = o.clone();
                        q.ip.g.steps[r].1[0] += d;
                        t(com, x, y, e, &q, "round element changed")?;
                    }
                    for s2 in [Sec { alpha: nz(rng), beta: s.beta }, Sec { alpha: s.alpha, beta: nz(rng) }] {
                        tri(v3(&s2, com, x, y, e, &o), o_holds::<Mock>(&s2, com, x, y, e, &o), "another verifier key")?;
                    }
                }
                Ok(())
            });
        }
    }
    for d in [0usize, 1, 2, 3, 4, 7, 8, 15, 16, 31, 63, 64, 200, 255, 256, 1023, 1024] {
        c.case(format!("univariate degree {}", d), |rng| {
            // the matching power is learned from the real setup
            let es = |e: BoxErr| format!("error: {}", e);
            let cols = UC::<Mock>::setup(rng, d).map_err(es)?.1.len();
            let s = sec(rng);
            for z in [F::rand(rng), -F::one(), F::from(2u64), F::zero(), F::one()] {
                let x = z.pow([cols as u64]);
                let (_, ip, cm) = tsmexp::forge::<Mock>(rng, &s, 1, x, false);
                let e = F::rand(rng);
                let o = ODl { ip, y: cm[1], kzg: (cm[1] - e) * (s.alpha - z).inverse().unwrap() };
                let go = |com: F, z: F, e: F, o: &ODl| {
                    let (v, p) = (s.v(), o_build::<Mock>(o));
                    guard(|| UC::<Mock>::verify(&v, d, &gt(com), &z, &e, &p).map_err(|e| e.to_string()))
                };
                tri(go(cm[0], z, e, &o), true, "constructed univariate opening")?;
                let t = |com: F, z: F, e: F, o: &ODl, what: &str| tri(go(com, z, e, o), o_holds::<Mock>(&s, com, z.pow([cols as u64]), z, e, o), what);
                let dl = nz(rng);
                t(cm[0] + dl, z, e, &o, "commitment changed")?;
                t(cm[0], z + dl, e, &o, "point changed")?;
                t(cm[0], z, e + dl, &o, "value changed")?;
                // an opening made for another power of the point
                for w in [z.pow([cols as u64 + 1]), z, z.pow([cols as u64 - 1]), F::one()] {
                    let (_, ip, cm) = tsmexp::forge::<Mock>(rng, &s, 1, w, false);
                    let o = ODl { ip, y: cm[1], kzg: (cm[1] - e) * (s.alpha - z).inverse().unwrap() };
                    t(cm[0], z, e, &o, "opening for another first coordinate")?;
                }
            }
            Ok(())
        });
    }
}
#[derive(Clone, Debug)]
struct TODl {
    outer: Dl,
    y: F,
    inner: Dl,
}
#[cfg(vp_hooks)]
fn to_build<D: Digest>(o: &TODl) -> tr::OpeningProof<E, D> {
    remake(&(mexp_s::parts(&o.outer), g1(o.y), scal_s::parts(&o.inner)))
}
struct TSt {
    k1: Vec<F>,
    k2: Vec<F>,
    com: F,
    x: F,
    y: F,
    e: F,
}
impl Clone for TSt {
    fn clone(&self) -> TSt {
        TSt { k1: self.k1.clone(), k2: self.k2.clone(), ..*self }
    }
}
fn to_holds<D: Digest>(s: &TSt, o: &TODl) -> bool {
    let k2 = Keys { a: s.k2.clone(), b: vec![], t: F::zero() };
    let k1 = Keys { a: s.k1.clone(), b: vec![], t: F::zero() };
    smexp::holds::<D>(&k2, &o.outer, &[s.com, o.y], s.x) && sscal::holds::<D>(&k1, &o.inner, &[o.y, s.e], s.y)
}
#[cfg(vp_hooks)]
fn t_forge<D: Digest>(rng: &mut R, r2: usize, r1: usize, x: F, y: F, edgy: bool) -> (TSt, TODl) {
    let (k2, outer, c2) = smexp::forge::<D>(rng, r2, x, edgy);
    let k1 = rand_keys(rng, 1 << r1, false);
    let mut inner = rand_dl(rng, r1, edgy, sscal::K);
    let ch = scal_s::chals::<D>(&inner);
    inner.base.0 = (c2[1] + drift(&inner, &ch, 0)) * fold_key_a(&k1.a, &ch).inverse().unwrap();
    inner.base.1 = prod_form(&rev_inv(&ch), y);
    let e = inner.base.0 * inner.base.1 - drift(&inner, &ch, 2);
    (TSt { k1: k1.a, k2: k2.a, com: c2[0], x, y, e }, TODl { outer, y: c2[1], inner })
}
#[cfg(vp_hooks)]
pub fn c19(c: &mut Ctx) {
    let go = |s: &TSt, o: &TODl| {
        let ck = (els::<G1>(&s.k1), els::<G2>(&s.k2));
        let p = to_build::<Mock>(o);
        guard(|| TBC::<Mock>::verify(&ck, &gt(s.com), &(s.x, s.y), &s.e, &p).map_err(|e| e.to_string()))
    };
    for (r2, r1) in [(6usize, 5usize), (0, 0), (1, 0), (0, 1), (1, 2), (2, 1), (2, 3), (3, 3)] {
        for edgy in [false, true] {
            let big = r2 > 4;
            if big && edgy {
                continue;
            }
            c.case(format!("constructed rounds={},{} edgy={}", r2, r1, edgy), |rng| {
                set_mode(Mode::RejectBelow(rng.gen_range(0..2)));
                for (x, y) in [(F::rand(rng), F::rand(rng)), (F::zero(), F::one()), (F::one(), F::zero())].into_iter().take(if big { 1 } else { 3 }) {
                    let (s, o) = t_forge::<Mock>(rng, r2, r1, x, y, edgy);
                    must(to_holds::<Mock>(&s, &o), "harness: construction")?;
                    let t = |s: &TSt, o: &TODl, what: &str| tri(go(s, o), to_holds::<Mock>(s, o), what);
                    t(&s, &o, "constructed opening")?;
                    let d = nz(rng);
                    t(&TSt { com: s.com + d, ..s.clone() }, &o, "commitment changed")?;
                    t(&TSt { x: s.x + d, ..s.clone() }, &o, "first coordinate changed")?;
                    t(&TSt { y: s.y + d, ..s.clone() }, &o, "second coordinate changed")?;
                    t(&TSt { y: s.x, x: s.y, ..s.clone() }, &o, "coordinates exchanged")?;
                    t(&TSt { e: s.e + d, ..s.clone() }, &o, "value changed")?;
                    t(&s, &TODl { y: o.y + d, ..o.clone() }, "intermediate commitment changed")?;
                    for w in 0..2 {
                        for (a, b) in [(d, F::zero()), (F::zero(), d)] {
                            let mut q = o.clone();
                            let g = if w == 0 { &mut q.outer } else { &mut q.inner };
                            g.base.0 += a;
                            g.base.1 += b;
                            t(&s, &q, "final messages changed")?;
                        }
                        let rr = if w == 0 { r2 } else { r1 };
                        for r in (0..rr).filter(|r| !big || *r == 0 || *r == rr - 1) {
                            for j in 0..3 {
                                let mut q = o.clone();
                                let g = if w == 0 { &mut q.outer } else { &mut q.inner };
                                g.steps[r].0[j] += d;
                                t(&s, &q, "round element changed")?;
                                let mut q = o.clone();
                                let g = if w == 0 { &mut q.outer } else { &mut q.inner };
                                g.steps[r].1[j] += d;
                                t(&s, &q, "round element changed")?;
                            }
                        }
                    }
                    // an intermediate commitment that only one of the two proofs is about
                    let (s2, o2) = t_forge::<Mock>(rng, r2, r1, x, y, edgy);
                    t(&TSt { k1: s2.k1.clone(), e: s2.e, ..s.clone() }, &TODl { inner: o2.inner.clone(), ..o.clone() }, "inner proof of another statement")?;
                    t(&TSt { k1: s2.k1.clone(), e: s2.e, ..s.clone() }, &TODl { inner: o2.inner.clone(), y: o2.y, outer: o.outer.clone() }, "outer proof of another statement")?;
                    for i in (0..s.k1.len()).filter(|i| !big || [0, s.k1.len() / 2, s.k1.len() - 1].contains(i)) {
                        let mut q = s.clone();
                        q.k1[i] += d;
                        t(&q, &o, "key changed")?;
                    }
                    for i in (0..s.k2.len()).filter(|i| !big || [0, s.k2.len() / 2, s.k2.len() - 1].contains(i)) {
                        let mut q = s.clone();
                        q.k2[i] += d;
                        t(&q, &o, "key changed")?;
                    }
                }
                Ok(())
            });
        }
    }
    for (r2, r1) in [(0usize, 0usize), (1, 0), (0, 2), (1, 3), (2, 2)] {
        c.case(format!("univariate rounds={},{}", r2, r1), |rng| {
            for z in [F::rand(rng), F::zero(), -F::one(), F::one()] {
                let cols = 1u64 << r1;
                let (s, o) = t_forge::<Mock>(rng, r2, r1, z.pow([cols]), z, false);
                let ug = |s: &TSt, o: &TODl, z: F| {
                    let ck = (els::<G1>(&s.k1), els::<G2>(&s.k2));
                    let p = to_build::<Mock>(o);
                    guard(|| TUC::<Mock>::verify(&ck, &gt(s.com), &z, &s.e, &p).map_err(|e| e.to_string()))
                };
                tri(ug(&s, &o, z), true, "constructed univariate opening")?;
                let d = nz(rng);
                let t = |s: &TSt, o: &TODl, z: F, what: &str| tri(ug(s, o, z), to_holds::<Mock>(&TSt { x: z.pow([cols]), y: z, ..s.clone() }, o), what);
                t(&TSt { com: s.com + d, ..s.clone() }, &o, z, "commitment changed")?;
                t(&TSt { e: s.e + d, ..s.clone() }, &o, z, "value changed")?;
                t(&s, &o, z + d, "point changed")?;
                for w in [z.pow([cols + 1]), z, z.pow([cols - 1]), z.pow([1 << r2])] {
                    let (s, o) = t_forge::<Mock>(rng, r2, r1, w, z, false);
                    t(&s, &o, z, "opening for another first coordinate")?;
                }
            }
            Ok(())
        });
    }
}
#[cfg(vp_hooks)]
pub fn c25(c: &mut Ctx) {
    let top = if c.thorough { 300 } else { 70 };
    // the last degrees at which a 24-bit and a 53-bit square root still agree lie just below 2^24
    let mut degs: Vec<usize> = vec![(1 << 24) - 1, 1 << 24];
    degs.extend(0..=top);
    degs.extend([120, 127, 128, 254, 255, 256, 257, 511, 1022, 1023, 1024, 1025, 4095, 4096]);
    if c.thorough {
        degs.extend([2047, 2048, 8191, 8192, 16383, 16384]);
    }
    for d in degs {
        c.case(format!("room trusted {}", d), |rng| {
            let srs = UC::<Blake2b>::setup(rng, d).map_err(|e| e.to_string())?;
            let (r, cl) = ((srs.0.h_beta_powers.len() + 1) / 2, srs.1.len());
            must(srs.0.h_beta_powers.len() == 2 * r - 1, "even number of powers")?;
            must(r.is_power_of_two() && cl.is_power_of_two(), format!("shape {}x{} for degree {}", r, cl, d))?;
            must(r * cl >= d + 1, format!("shape {}x{} holds {} coefficients, {} are needed", r, cl, r * cl, d + 1))
        });
        c.case(format!("room transparent {}", d), |rng| {
            let ck = TUC::<Blake2b>::setup(rng, d).map_err(|e| e.to_string())?;
            let (cl, r) = (ck.0.len(), ck.1.len());
            must(r.is_power_of_two() && cl.is_power_of_two(), format!("shape {}x{} for degree {}", r, cl, d))?;
            must(r * cl >= d + 1, format!("shape {}x{} holds {} coefficients, {} are needed", r, cl, r * cl, d + 1))
        });
    }
    for d in [700usize, 0, 1, 2, 3, 5, 8, 15, 16, 40, 64, 100] {
        c.case(format!("split {}", d), |rng| {
            let es = |e: BoxErr| format!("error: {}", e);
            let n = UC::<Mock>::setup(rng, d).map_err(es)?;
            let (r, cl) = ((n.0.h_beta_powers.len() + 1) / 2, n.1.len());
            let s = sec(rng);
            let srs = bsrs(&s, r, cl);
            let b2 = s.beta * s.beta;
            for len in [d + 1, 1, r * cl, d / 2 + 1, 0, cl, cl + 1] {
                if len > r * cl {
                    continue;
                }
                let p = poly(rng, len, false);
                let (cm, ys) = UC::<Mock>::commit(&srs, &p).map_err(es)?;
                let row = |i: usize| -> F { (0..cl).map(|j| p.coeffs.get(i * cl + j).cloned().unwrap_or(F::zero()) * s.alpha.pow([j as u64])).sum() };
                must(ys.len() == r, "number of row commitments")?;
                for i in 0..r {
                    must(ys[i] == g1(row(i)), format!("row {} does not hold its coefficients", i))?;
                }
                let v: Vec<F> = (0..r).map(row).collect();
                must(cm == gt(ev(&v, &b2)), "commitment of the rows")?;
            }
            for extra in [1usize, 2, cl, r * cl] {
                let mut cf = vec![F::zero(); r * cl + extra];
                *cf.last_mut().unwrap() = F::one();
                for (i, x) in cf.iter_mut().enumerate() {
                    if i % 2 == 0 {
                        *x += F::from(i as u64 + 1);
                    }
                }
                let p = Poly::from_coefficients_vec(cf);
                must(!matches!(guard(|| UC::<Mock>::commit(&srs, &p).map_err(|e| e.to_string())), Ok(Ok(_))), format!("{} coefficients are committed with room for {}", r * cl + extra, r * cl))?;
                let ys = vec![G1::zero(); r];
                must(!matches!(guard(|| UC::<Mock>::open(&srs, &p, &ys, &F::one()).map_err(|e| e.to_string())), Ok(Ok(_))), format!("{} coefficients are opened with room for {}", r * cl + extra, r * cl))?;
            }
            let tn = TUC::<Mock>::setup(rng, d).map_err(es)?;
            let (cl, r) = (tn.0.len(), tn.1.len());
            let (k1, k2) = (vecf(rng, cl, false), vecf(rng, r, false));
            let ck = (els::<G1>(&k1), els::<G2>(&k2));
            for len in [d + 1, 1, r * cl, d / 2 + 1, 0, cl, cl + 1] {
                if len > r * cl {
                    continue;
                }
                let p = poly(rng, len, false);
                let (cm, ys) = TUC::<Mock>::commit(&ck, &p).map_err(es)?;
                let row = |i: usize| -> F { (0..cl).map(|j| p.coeffs.get(i * cl + j).cloned().unwrap_or(F::zero()) * k1[j]).sum() };
                let v: Vec<F> = (0..r).map(row).collect();
                must(ys == els::<G1>(&v), "transparent row commitments")?;
                must(cm == gt(dot(&v, &k2)), "transparent commitment of the rows")?;
            }
            for extra in [1usize, 2, cl, r * cl] {
                let mut cf = vec![F::one(); r * cl + extra];
                cf[0] = F::zero();
                let p = Poly::from_coefficients_vec(cf);
                must(!matches!(guard(|| TUC::<Mock>::commit(&ck, &p).map_err(|e| e.to_string())), Ok(Ok(_))), format!("{} coefficients are committed with room for {}", r * cl + extra, r * cl))?;
                let ys = vec![G1::zero(); r];
                must(!matches!(guard(|| TUC::<Mock>::open(&ck, &p, &ys, &F::one()).map_err(|e| e.to_string())), Ok(Ok(_))), format!("{} coefficients are opened with room for {}", r * cl + extra, r * cl))?;
            }
            Ok(())
        });
    }
    for (r, cl, rows_n, cols_n) in [(2usize, 4usize, 3usize, 4usize), (2, 4, 2, 5), (1, 1, 2, 1), (1, 1, 1, 2), (4, 2, 4, 3), (4, 2, 9, 1), (64, 4, 65, 4), (4, 64, 4, 65), (16, 16, 3, 17)] {
        c.case(format!("bivariate too large {}x{} in {}x{}", rows_n, cols_n, r, cl), |rng| {
            let p = rows(rng, rows_n, cols_n, false);
            let s = sec(rng);
            let (a, b): (Biv, TBiv) = (biv(&p), biv(&p));
            let srs = bsrs(&s, r, cl);
            must(!matches!(guard(|| BC::<Mock>::commit(&srs, &a).map_err(|e| e.to_string())), Ok(Ok(_))), "committed in part")?;
            let ck = (els::<G1>(&vecf(rng, cl, false)), els::<G2>(&vecf(rng, r, false)));
            must(!matches!(guard(|| TBC::<Mock>::commit(&ck, &b).map_err(|e| e.to_string())), Ok(Ok(_))), "committed in part (transparent)")
        });
    }
}
#[cfg(not(vp_hooks))]
pub fn c16(_: &mut Ctx) {}
#[cfg(not(vp_hooks))]
pub fn c17(_: &mut Ctx) {}
#[cfg(not(vp_hooks))]
pub fn c18(_: &mut Ctx) {}
#[cfg(not(vp_hooks))]
pub fn c19(_: &mut Ctx) {}
#[cfg(not(vp_hooks))]
pub fn c25(_: &mut Ctx) {}

pub fn c08(c: &mut Ctx) {
    for (x, y) in [(0usize, 0usize), (0, 3), (1, 1), (3, 0), (3, 7), (7, 2), (4, 4)] {
        c.case(format!("setup bivariate {} {}", x, y), |rng| {
            let (s, k) = BC::<Blake2b>::setup(rng, x, y).map_err(|e| e.to_string())?;
            must(k.len() == y + 1, "number of powers of the polynomial setup")?;
            check_powers(&k.iter().map(|p| p.into_group()).collect::<Vec<_>>(), &s.h_alpha, "powers of the polynomial setup")?;
            must(s.h_beta_powers.len() == 2 * x + 1, "number of right powers")?;
            check_powers2(&s.h_beta_powers, &s.g_beta, "right powers")?;
            must(s.g_alpha_powers.len() >= 1 && s.g_alpha_powers[0] == G1::generator(), "left generator")?;
            crate::p_tipa::check_unrelated(&k.iter().map(|p| p.into_group()).collect::<Vec<_>>(), &s.h_beta_powers)?;
            must(E::pairing(s.g_beta, G2::generator()) != E::pairing(G1::generator(), s.h_alpha), "the two secrets are equal")?;
            let (k1, _) = s.get_commitment_keys();
            must(k1.len() == x + 1, "number of commitment keys")?;
            let v = s.get_verifier_key();
            must(v.g == G1::generator() && v.h == G2::generator() && v.g_beta == s.g_beta && v.h_alpha == s.h_alpha, "verifier key")
        });
    }
    for d in [0usize, 1, 2, 5, 16, 33] {
        c.case(format!("setup kzg {}", d), |rng| {
            let (k, v) = pc::KZG::<E>::setup(rng, d).map_err(|e| e.to_string())?;
            must(k.len() == d + 1, "number of powers")?;
            check_powers(&k.iter().map(|p| p.into_group()).collect::<Vec<_>>(), &v.h_alpha, "powers")?;
            must(v.g == G1::generator() && v.h == G2::generator(), "generators")?;
            must(E::pairing(v.g_beta, v.h) != E::pairing(v.g, v.h_alpha), "the two secrets are equal")
        });
        c.case(format!("setup univariate {}", d), |rng| {
            let (s, k) = UC::<Blake2b>::setup(rng, d).map_err(|e| e.to_string())?;
            check_powers(&k.iter().map(|p| p.into_group()).collect::<Vec<_>>(), &s.h_alpha, "powers of the polynomial setup")?;
            check_powers2(&s.h_beta_powers, &s.g_beta, "right powers")
        });
    }
}
#[cfg(vp_hooks)]
pub fn c26(c: &mut Ctx) {
    for rounds in [0usize, 1, 2, 3] {
        for ninp in [0usize, 1, 3] {
            c.case(format!("aggregate shapes rounds={} inputs={}", rounds, ninp), |rng| {
                let s = sec(rng);
                let n = 1usize << rounds;
                let (vk, inputs, p) = agg_forge::<Mock>(rng, &s, rounds, ninp, n, false);
                let t = |vk: &Vk, i: &[Vec<F>], what: &str| calm(agg_verify::<Mock>(&s, vk, i, &p), what);
                t(&vk, &[], "no inputs at all")?;
                for i in 0..n {
                    for len in [0usize, ninp + 1, ninp + 2, ninp.saturating_sub(1)] {
                        if len == ninp {
                            continue;
                        }
                        let mut b = inputs.clone();
                        b[i] = vec![F::one(); len];
                        t(&vk, &b, "inputs of uneven length")?;
                    }
                }
                for len in 0..ninp + 3 {
                    if len != ninp {
                        t(&vk, &vec![vec![F::zero(); len]; n], "inputs of wrong length")?;
                    }
                }
                for count in 1..2 * n + 2 {
                    if count != n {
                        t(&vk, &vec![vec![F::one(); ninp]; count], "wrong number of input sets")?;
                    }
                }
                let mut k = vk.clone();
                k.ic.truncate(1);
                if ninp > 0 {
                    t(&k, &inputs, "key for no inputs")?;
                }
                Ok(())
            });
        }
    }
    for ra in [0usize, 1, 3, 65] {
        for rc in [0usize, 2, 4] {
            c.case(format!("aggregate rounds {} {}", ra, rc), |rng| {
                let s = sec(rng);
                let v = vecf(rng, 12, false);
                let op = |i: usize| Opening { ck: v[i], proof: v[i + 1] };
                let p = AggDl {
                    com: [v[0], v[1], v[2]],
                    ip_ab: v[3],
                    agg_c: v[4],
                    ab: TDl { g: rand_dl(rng, ra, false, [Kind::Dot; 3]), a: op(5), b: op(6) },
                    c: SDl { g: rand_dl(rng, rc, false, [Kind::Dot; 3]), a: op(8) },
                };
                let vk = Vk::rand(rng, 1);
                calm(agg_verify::<Mock>(&s, &vk, &[vec![v[9]], vec![v[10]]], &p), "arbitrary aggregate")
            });
        }
    }
    for (k2, k1) in [(1usize, 1usize), (2, 4), (4, 2)] {
        for (r2, r1) in [(0usize, 0usize), (0, 3), (3, 0), (1, 1), (2, 2), (5, 6)] {
            c.case(format!("transparent opening keys={}x{} rounds={},{}", k2, k1, r2, r1), |rng| {
                if k2 == 1 << r2 && k1 == 1 << r1 {
                    return Ok(());
                }
                let v = vecf(rng, 4, false);
                let o = TODl { outer: rand_dl(rng, r2, false, [Kind::Dot; 3]), y: v[0], inner: rand_dl(rng, r1, false, [Kind::Dot; 3]) };
                let ck = (els::<G1>(&vecf(rng, k1, false)), els::<G2>(&vecf(rng, k2, false)));
                let p = to_build::<Mock>(&o);
                calm(guard(|| TBC::<Mock>::verify(&ck, &gt(v[1]), &(v[2], v[3]), &v[0], &p).map_err(|e| e.to_string())), "arbitrary opening")
            });
        }
    }
}
#[cfg(not(vp_hooks))]
pub fn c26(_: &mut Ctx) {}
/// C27, the parts that hold: the combination challenge of the aggregation depends on all three commitments.
#[cfg(vp_hooks)]
pub fn c27(c: &mut Ctx) {
    c.case("aggregation challenge", |rng| {
        let s = sec(rng);
        let (vk, inputs, p) = agg_forge::<Mock>(rng, &s, 1, 1, 2, false);
        let first = |p: &AggDl| -> Vec<Vec<u8>> { record(|| agg_verify::<Mock>(&s, &vk, &inputs, p)).1 };
        let base = first(&p);
        for j in 0..3 {
            let mut q = p.clone();
            q.com[j] += F::one();
            must(first(&q) != base, format!("the challenges do not depend on commitment {}", j))?;
        }
        Ok(())
    });
    c.case("prover and verifier of the aggregation agree", |rng| {
        let n = 2;
        let s = sec(rng);
        let vk = Vk::rand(rng, 1);
        let inputs: Vec<Vec<F>> = (0..n).map(|_| vecf(rng, 1, false)).collect();
        let gp: Vec<GProof<E>> = inputs.iter().map(|i| real_proof(&vk.proof(rng, i))).collect();
        let (p, lp) = record(|| agg::aggregate_proofs::<E, Mock>(&s.srs(n), &gp).map_err(|e| e.to_string()));
        let p = p?;
        let (_, lv) = record(|| agg::verify_aggregate_proof::<E, Mock>(&s.v(), &vk.real(), &inputs, &p).map_err(|e| e.to_string()));
        must(lp.first() == lv.first(), "combination challenge")
    });
    crate::p_sipp::c27(c);
}
#[cfg(not(vp_hooks))]
pub fn c27(_: &mut Ctx) {}
#[allow(dead_code)]
fn unused(_: G2Affine) {}
