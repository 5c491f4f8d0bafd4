//! C20 - C23: SIPP.
use crate::core::*;
use crate::p_gipa::tri;
use ark_bls12_381::{G1Affine, G2Affine};
use ark_sipp::{product_of_pairings, product_of_pairings_with_coeffs, SIPP};
use blake2::Blake2s;

fn a1(v: &[F]) -> Vec<G1Affine> {
    v.iter().map(|x| g1(*x).into_affine()).collect()
}
fn a2(v: &[F]) -> Vec<G2Affine> {
    v.iter().map(|x| g2(*x).into_affine()).collect()
}
#[derive(Clone)]
pub struct St {
    a: Vec<F>,
    b: Vec<F>,
    r: Vec<F>,
    v: F,
}
fn stmt(rng: &mut R, n: usize, edgy: bool) -> St {
    let (a, b, r) = (vecf(rng, n, edgy), vecf(rng, n, edgy), vecf(rng, n, edgy));
    let v = a.iter().zip(&b).zip(&r).map(|((a, b), r)| *a * b * r).sum();
    St { a, b, r, v }
}
fn seed_bytes(s: &St) -> Vec<u8> {
    let mut h = ser(&a1(&s.a));
    h.extend(ser(&a2(&s.b)));
    h.extend(ser(&s.r));
    h.extend(ser(&gt(s.v)));
    h
}
fn inputs(s: &St, z: &[(GT, GT)]) -> Vec<Vec<u8>> {
    let mut out = vec![seed_bytes(s)];
    out.extend(z.iter().map(|(l, r)| {
        let mut v = ser(l);
        v.extend(ser(r));
        v
    }));
    out
}
/// challenges for the statement and the round elements; first digest input, then (round bytes || seed) each
fn chals<D: Digest>(s: &St, z: &[(GT, GT)]) -> (Vec<F>, Vec<Vec<u8>>) {
    let parts = inputs(s, z);
    let mut log = vec![parts[0].clone()];
    let mut seed = [0u8; 32];
    seed.copy_from_slice(&D::digest(&parts[0])[..32]);
    let mut xs = vec![];
    for p in &parts[1..] {
        let mut v = p.clone();
        v.extend_from_slice(&seed);
        seed.copy_from_slice(&D::digest(&v)[..32]);
        log.push(v);
        let mut rng = R::from_seed(seed);
        xs.push(F::from(u128::rand(&mut rng)));
    }
    (xs, log)
}
fn folded(s: &St, xs: &[F]) -> F {
    let mut a: Vec<F> = s.a.iter().zip(&s.r).map(|(x, y)| *x * y).collect();
    let mut b = s.b.clone();
    for x in xs {
        let h = a.len() / 2;
        let xi = x.inverse().unwrap();
        a = (0..h).map(|i| a[i] + *x * a[h + i]).collect();
        b = (0..h).map(|i| b[i] + xi * b[h + i]).collect();
    }
    a[0] * b[0]
}
fn holds(s: &St, z: &[(F, F)], xs: &[F]) -> bool {
    s.v + z.iter().zip(xs).map(|((l, r), x)| *l * x + *r * x.inverse().unwrap()).sum::<F>() == folded(s, xs)
}
fn gz(z: &[(F, F)]) -> Vec<(GT, GT)> {
    z.iter().map(|(l, r)| (gt(*l), gt(*r))).collect()
}
#[cfg(vp_hooks)]
fn build(z: &[(GT, GT)]) -> ark_sipp::Proof<E> {
    remake(&z.to_vec())
}
#[cfg(vp_hooks)]
fn verify<D: Digest<OutputSize = digest::generic_array::typenum::U32>>(s: &St, z: &[(GT, GT)]) -> Result<Result<bool, String>, String> {
    let p = build(z);
    let (a, b, r, v) = (a1(&s.a), a2(&s.b), s.r.clone(), gt(s.v));
    guard(|| SIPP::<E, D>::verify(&a, &b, &r, v, &p).map_err(|_| "error".to_string()))
}
/// round elements of an honest proof
fn honest<D: Digest>(s: &St) -> (Vec<(F, F)>, Vec<F>) {
    let mut a: Vec<F> = s.a.iter().zip(&s.r).map(|(x, y)| *x * y).collect();
    let mut b = s.b.clone();
    let (mut z, mut xs): (Vec<(F, F)>, Vec<F>) = (vec![], vec![]);
    while a.len() > 1 {
        let h = a.len() / 2;
        z.push((dot(&a[h..], &b[..h]), dot(&a[..h], &b[h..])));
        xs = chals::<D>(s, &gz(&z)).0;
        let x = *xs.last().unwrap();
        let xi = x.inverse().unwrap();
        a = (0..h).map(|i| a[i] + x * a[h + i]).collect();
        b = (0..h).map(|i| b[i] + xi * b[h + i]).collect();
    }
    (z, xs)
}
pub fn c20(c: &mut Ctx) {
    let mut rs = vec![1usize, 2, 3, 4, 5];
    if c.thorough {
        rs.extend([6, 7]);
    }
    for rounds in rs {
        for (edgy, pool) in [(false, 8usize), (true, 8), (false, 1), (false, 3), (true, 5)] {
            c.case(format!("honest n={} edgy={} threads={}", 1 << rounds, edgy, pool), |rng| {
                let s = stmt(rng, 1 << rounds, edgy);
                let (a, b, r, v) = (a1(&s.a), a2(&s.b), s.r.clone(), gt(s.v));
                in_pool(pool, || {
                    let p = SIPP::<E, Blake2s>::prove(&a, &b, &r, v).map_err(|_| "prover refuses a true statement".to_string())?;
                    verdict(SIPP::<E, Blake2s>::verify(&a, &b, &r, v, &p), true, "honest proof")?;
                    verdict(SIPP::<E, Blake2s>::verify(&a, &b, &r, v + gt(F::one()), &p), false, "honest proof for another value")
                })
            });
        }
    }
    c.case("honest n=512", |rng| {
        let s = stmt(rng, 512, false);
        let (a, b, r, v) = (a1(&s.a), a2(&s.b), s.r.clone(), gt(s.v));
        let p = SIPP::<E, Blake2s>::prove(&a, &b, &r, v).map_err(|_| "prover refuses a true statement".to_string())?;
        verdict(SIPP::<E, Blake2s>::verify(&a, &b, &r, v, &p), true, "honest proof")
    });
    c.case("all zero", |_| {
        let z = vec![F::zero(); 4];
        let (a, b) = (a1(&z), a2(&z));
        let p = SIPP::<E, Blake2s>::prove(&a, &b, &z, GT::zero()).map_err(|_| "prover refuses a true statement".to_string())?;
        verdict(SIPP::<E, Blake2s>::verify(&a, &b, &z, GT::zero(), &p), true, "honest proof")
    });
}
#[cfg(vp_hooks)]
pub fn c21(c: &mut Ctx) {
    for rounds in [8usize].into_iter().chain(1..=(if c.thorough { 6 } else { 4 })) {
        for edgy in [false, true] {
            if rounds > 6 && edgy {
                continue;
            }
            c.case(format!("altered n={} edgy={}", 1 << rounds, edgy), |rng| {
                let s = stmt(rng, 1 << rounds, edgy);
                let (z, _) = honest::<Mock>(&s);
                let t = |s: &St, z: &[(F, F)], what: &str| {
                    let zz = gz(z);
                    let xs = chals::<Mock>(s, &zz).0;
                    tri(verify::<Mock>(s, &zz), holds(s, z, &xs), what)
                };
                must(holds(&s, &z, &chals::<Mock>(&s, &gz(&z)).0), "harness: construction")?;
                t(&s, &z, "honest proof")?;
                for i in (0..rounds).filter(|i| rounds < 7 || *i == 0 || *i == rounds - 1) {
                    for d in [F::one(), nz(rng)] {
                        let mut q = z.clone();
                        q[i].0 += d;
                        t(&s, &q, "left proof element changed")?;
                        let mut q = z.clone();
                        q[i].1 += d;
                        t(&s, &q, "right proof element changed")?;
                    }
                    let mut q = z.clone();
                    q[i] = (q[i].1, q[i].0);
                    t(&s, &q, "proof elements exchanged")?;
                }
                let n = s.a.len();
                for i in (0..n).filter(|i| n < 100 || [0, n / 2, n - 1].contains(i)) {
                    let d = nz(rng);
                    let mut q = s.clone();
                    q.a[i] += d;
                    t(&q, &z, "left input changed")?;
                    let mut q = s.clone();
                    q.b[i] += d;
                    t(&q, &z, "right input changed")?;
                    let mut q = s.clone();
                    q.r[i] += d;
                    t(&q, &z, "scalar changed")?;
                }
                let mut q = s.clone();
                q.v += nz(rng);
                t(&q, &z, "claimed value changed")?;
                Ok(())
            });
            c.case(format!("constructed n={} edgy={}", 1 << rounds, edgy), |rng| {
                // a digest that answers the same for every input lets all equations be solved
                let mut cst = [0u8; 32];
                rng.fill_bytes(&mut cst);
                set_mode(Mode::Const(cst));
                let mut s = stmt(rng, 1 << rounds, edgy);
                let z: Vec<(F, F)> = (0..rounds).map(|_| { let v = vecf(rng, 2, edgy); (v[0], v[1]) }).collect();
                let xs = chals::<Mock>(&s, &gz(&z)).0;
                s.v = folded(&s, &xs) - z.iter().zip(&xs).map(|((l, r), x)| *l * x + *r * x.inverse().unwrap()).sum::<F>();
                let t = |s: &St, z: &[(F, F)], what: &str| tri(verify::<Mock>(s, &gz(z)), holds(s, z, &xs), what);
                t(&s, &z, "constructed proof")?;
                let d = nz(rng);
                let mut q = s.clone();
                q.v += d;
                t(&q, &z, "claimed value changed")?;
                for i in (0..rounds).filter(|i| rounds < 7 || *i == 0 || *i == rounds - 1) {
                    let mut q = z.clone();
                    q[i].0 += d;
                    t(&s, &q, "left proof element changed")?;
                    let mut q = z.clone();
                    q[i].1 += d;
                    t(&s, &q, "right proof element changed")?;
                }
                for i in (0..s.a.len()).filter(|i| s.a.len() < 100 || [0, s.a.len() / 2, s.a.len() - 1].contains(i)) {
                    for w in 0..3 {
                        let mut q = s.clone();
                        match w {
                            0 => q.a[i] += d,
                            1 => q.b[i] += d,
                            _ => q.r[i] += d,
                        }
                        t(&q, &z, "input changed")?;
                    }
                }
                Ok(())
            });
        }
    }
    c.case("wrong shapes", |rng| {
        for n in [2usize, 4, 8] {
            let s = stmt(rng, n, false);
            let (z, _) = honest::<Mock>(&s);
            let bad = |s: &St, z: &[(F, F)], what: &str| tri(verify::<Mock>(s, &gz(z)), false, what);
            for extra in [F::zero(), F::one()] {
                let mut q = s.clone();
                q.a.push(extra);
                bad(&q, &z, "surplus left input")?;
                let mut q = s.clone();
                q.b.push(extra);
                bad(&q, &z, "surplus right input")?;
                let mut q = s.clone();
                q.r.push(extra);
                bad(&q, &z, "surplus scalar")?;
                let mut zz = z.clone();
                zz.push((extra, extra));
                bad(&s, &zz, "surplus proof element")?;
            }
            for w in 0..4 {
                let (mut q, mut zz) = (s.clone(), z.clone());
                match w {
                    0 => drop(q.a.pop()),
                    1 => drop(q.b.pop()),
                    2 => drop(q.r.pop()),
                    _ => drop(zz.pop()),
                }
                bad(&q, &zz, "missing part")?;
            }
        }
        // constructed for a longer or shorter proof, whose own equation holds
        set_mode(Mode::Const([7; 32]));
        for (n, len) in [(2usize, 0usize), (2, 2), (4, 1), (4, 3), (8, 2), (3, 1), (3, 2), (6, 2), (6, 3), (1, 0), (1, 1)] {
            let mut s = stmt(rng, n, false);
            let z: Vec<(F, F)> = vec![(F::zero(), F::zero()); len];
            // the value for which the folded sums agree, were the number of elements not checked
            let xs = chals::<Mock>(&s, &gz(&z)).0;
            let (mut fa, mut fb) = (F::zero(), F::zero());
            for i in 0..n {
                let (mut x, mut y) = (s.r[i] * s.a[i], s.b[i]);
                for (j, c) in xs.iter().enumerate() {
                    if (i >> (len - 1 - j)) & 1 == 1 {
                        x *= c;
                        y *= c.inverse().unwrap();
                    }
                }
                fa += x;
                fb += y;
            }
            for v in [F::zero(), s.v, s.a[0] * s.b[0] * s.r[0], fa * fb] {
                s.v = v;
                tri(verify::<Mock>(&s, &gz(&z)), false, &format!("{} inputs with {} proof elements", n, len))?;
            }
        }
        // surplus scalars with a proof that is honest for the vectors
        for n in [2usize, 4] {
            set_mode(Mode::Const([9; 32]));
            let mut s = stmt(rng, n, false);
            let (z, _) = honest::<Mock>(&s);
            s.r.push(F::one());
            tri(verify::<Mock>(&s, &gz(&z)), false, "surplus scalar")?;
            let mut s2 = stmt(rng, n, false);
            let (z, _) = honest::<Mock>(&s2);
            s2.b.push(F::zero());
            tri(verify::<Mock>(&s2, &gz(&z)), false, "surplus right input")?;
        }
        Ok(())
    });
}
#[cfg(vp_hooks)]
pub fn c22(c: &mut Ctx) {
    for rounds in 1..=(if c.thorough { 6 } else { 5 }) {
        for edgy in [false, true] {
            c.case(format!("transcript n={} edgy={}", 1 << rounds, edgy), |rng| {
                let s = stmt(rng, 1 << rounds, edgy);
                let (a, b, v) = (a1(&s.a), a2(&s.b), gt(s.v));
                let (p, lp) = record(|| SIPP::<E, Mock>::prove(&a, &b, &s.r, v));
                let p = p.map_err(|_| "prover error".to_string())?;
                let (r, lv) = record(|| SIPP::<E, Mock>::verify(&a, &b, &s.r, v, &p));
                let z: Vec<(GT, GT)> = remake(&p);
                must(z.len() == rounds, "number of proof elements")?;
                let want = chals::<Mock>(&s, &z).1;
                must(lp == want, "prover: hash inputs are not the whole statement, then each round's elements with the previous seed")?;
                must(lv == want, "verifier: hash inputs are not the whole statement, then each round's elements with the previous seed")?;
                verdict(r, true, "honest proof")?;
                let (hz, _) = honest::<Mock>(&s);
                must(z == gz(&hz), "the prover does not use the challenges drawn from the seeds")
            });
        }
    }
    c.case("generator", |rng| {
        use ark_sipp::rng::FiatShamirRng;
        for n in [0usize, 1, 31, 32, 33, 64, 100, 1000] {
            let mut s1 = vec![0u8; n];
            rng.fill_bytes(&mut s1);
            let mut f = FiatShamirRng::<Blake2s>::from_seed(&s1);
            let mut seed = [0u8; 32];
            seed.copy_from_slice(&Blake2s::digest(&s1));
            let same = |f: &mut FiatShamirRng<Blake2s>, seed: [u8; 32]| -> Res {
                let mut w = R::from_seed(seed);
                for k in [1usize, 16, 40] {
                    let (mut x, mut y) = (vec![0u8; k], vec![0u8; k]);
                    f.fill_bytes(&mut x);
                    w.fill_bytes(&mut y);
                    must(x == y, "stream is not drawn from the seed")?;
                }
                must(f.next_u64() == w.next_u64() && f.next_u32() == w.next_u32(), "stream is not drawn from the seed")?;
                let (mut x, mut y) = (vec![0u8; 24], vec![0u8; 24]);
                must(f.try_fill_bytes(&mut x).is_ok(), "fill")?;
                w.fill_bytes(&mut y);
                must(x == y, "stream is not drawn from the seed")
            };
            same(&mut f, seed)?;
            for m in [0usize, 1, 32, 576, 1152, 5000] {
                let mut s2 = vec![0u8; m];
                rng.fill_bytes(&mut s2);
                f.absorb(&s2);
                let mut v = s2.clone();
                v.extend_from_slice(&seed);
                seed.copy_from_slice(&Blake2s::digest(&v));
                same(&mut f, seed)?;
            }
        }
        Ok(())
    });
    c.case("every part of the statement matters", |rng| {
        let s = stmt(rng, 4, false);
        let (z, _) = honest::<Mock>(&s);
        let log = |s: &St, z: &[(F, F)]| record(|| verify::<Mock>(s, &gz(z))).1;
        let base = log(&s, &z);
        for i in 0..4 {
            for w in 0..3 {
                let mut q = s.clone();
                match w {
                    0 => q.a[i] += F::one(),
                    1 => q.b[i] += F::one(),
                    _ => q.r[i] += F::one(),
                }
                let l = log(&q, &z);
                must(l.len() == base.len() && l.iter().zip(&base).all(|(x, y)| x != y), format!("input {} is not bound", i))?;
            }
        }
        let mut q = s.clone();
        q.v += F::one();
        must(log(&q, &z).iter().zip(&base).all(|(x, y)| x != y), "the claimed value is not bound")?;
        for i in 0..z.len() {
            for w in 0..2 {
                let mut q = z.clone();
                if w == 0 {
                    q[i].0 += F::one();
                } else {
                    q[i].1 += F::one();
                }
                let l = log(&s, &q);
                must(l[..=i] == base[..=i] && l[i + 1..].iter().zip(&base[i + 1..]).all(|(x, y)| x != y), "an earlier proof element is not bound")?;
            }
        }
        Ok(())
    });
}
#[cfg(vp_hooks)]
pub fn c27(c: &mut Ctx) {
    c.case("sipp challenges depend on the statement", |rng| {
        let s = stmt(rng, 2, false);
        let (z, _) = honest::<Mock>(&s);
        let log = |s: &St| record(|| verify::<Mock>(s, &gz(&z))).1;
        let base = log(&s);
        let mut q = s.clone();
        q.v += F::one();
        must(log(&q) != base, "the claimed product is not hashed")
    });
}
#[cfg(not(vp_hooks))]
pub fn c21(_: &mut Ctx) {}
#[cfg(not(vp_hooks))]
pub fn c22(_: &mut Ctx) {}
#[cfg(not(vp_hooks))]
pub fn c27(_: &mut Ctx) {}
pub fn c23(c: &mut Ctx) {
    let mut sizes: Vec<usize> = (1..=18).collect();
    sizes.extend([600, 257, 256, 31, 32, 33, 65, 100]);
    if c.thorough {
        sizes.extend([64, 127, 128, 129, 511]);
    }
    for n in sizes {
        for pool in [1usize, 2, 3, 4, 7, 8, 16] {
            if n > 33 && pool != 3 && pool != 8 && !c.thorough {
                continue;
            }
            for edgy in [false, true] {
                if n > 200 && (edgy || pool == 3) && !c.thorough {
                    continue;
                }
                c.case(format!("n={} threads={} edgy={}", n, pool, edgy), |rng| {
                    let s = stmt(rng, n, edgy);
                    let (a, b) = (a1(&s.a), a2(&s.b));
                    let got = in_pool(pool, || (product_of_pairings::<E>(&a, &b), product_of_pairings_with_coeffs::<E>(&a, &b, &s.r)));
                    must(got.0 == gt(dot(&s.a, &s.b)), "product of pairings")?;
                    must(got.1 == gt(s.v), "product of scaled pairings")
                });
            }
        }
    }
}
