//! C08 - C12 and parts of C07, C24, C26, C27: trusted-setup and structured-scalar arguments.
use crate::core::*;
use crate::gipa::*;
use crate::p_gipa::{attempts_until_field, attempts, calm, check_log, tri};
use ark_ip_proofs::tipa::structured_generators_scalar_power as sgsp;
use ark_ip_proofs::tipa::structured_scalar_message::structured_scalar_power as ssp;
use blake2::Blake2b;

macro_rules! all_tipa {
    ($mac:ident, $c:expr) => {
        $mac!(tpair, pair, $c);
        $mac!(tmexp, mexp, $c);
        $mac!(tscal, scal, $c);
        $mac!(tscid, scid, $c);
    };
}
macro_rules! all_ssm {
    ($mac:ident, $c:expr) => {
        $mac!(smexp, mexp_s, $c);
        $mac!(sscal, scal_s, $c);
        $mac!(sscped, scped_s, $c);
    };
}
macro_rules! all_tssm {
    ($mac:ident, $c:expr) => {
        $mac!(tsmexp, mexp_s, $c);
        $mac!(tsscped, scped_s, $c);
    };
}
pub fn sec(rng: &mut R) -> Sec {
    Sec { alpha: nz(rng), beta: nz(rng) }
}

// ------------------------------------------------------------------ C08
pub fn check_powers(v1: &[G1], h_alpha: &G2, what: &str) -> Res {
    let h = G2::generator();
    must(!v1.is_empty() && v1[0] == G1::generator(), format!("{} do not start at the generator", what))?;
    for i in 1..v1.len() {
        must(E::pairing(v1[i], h) == E::pairing(v1[i - 1], h_alpha), format!("{}: element {} is not the next power", what, i))?;
    }
    Ok(())
}
pub fn check_powers2(v: &[G2], g_beta: &G1, what: &str) -> Res {
    let g = G1::generator();
    must(!v.is_empty() && v[0] == G2::generator(), format!("{} do not start at the generator", what))?;
    for i in 1..v.len() {
        must(E::pairing(g, v[i]) == E::pairing(g_beta, v[i - 1]), format!("{}: element {} is not the next power", what, i))?;
    }
    Ok(())
}
/// no power of one secret is a power of the other, its inverse or its negative (the first six of each)
pub fn check_unrelated(v1: &[G1], v2: &[G2]) -> Res {
    let (g, h) = (G1::generator(), G2::generator());
    let top = E::pairing(g, h);
    let left: Vec<_> = v1.iter().skip(1).take(6).map(|p| E::pairing(p, h)).collect();
    let right: Vec<_> = v2.iter().skip(1).take(6).map(|q| E::pairing(g, q)).collect();
    for (i, x) in left.iter().enumerate() {
        for (j, y) in right.iter().enumerate() {
            must(x != y, format!("power {} of one secret is power {} of the other", i + 1, j + 1))?;
            must((*x + y) != GT::zero(), "a power of one secret is the negative of a power of the other")?;
            must((*x + y) != top && *x - y != top && *y - x != top, "a power of one secret differs from a power of the other by one")?;
            must(E::pairing(v1[i + 1], v2[j + 1]) != top, "a power of one secret is the inverse of a power of the other")?;
        }
    }
    Ok(())
}
fn check_srs(s: &SRS<E>, n: usize) -> Res {
    must(s.g_alpha_powers.len() == 2 * n - 1, format!("{} left powers for size {}", s.g_alpha_powers.len(), n))?;
    must(s.h_beta_powers.len() == 2 * n - 1, format!("{} right powers for size {}", s.h_beta_powers.len(), n))?;
    check_powers(&s.g_alpha_powers, &s.h_alpha, "left powers")?;
    check_powers2(&s.h_beta_powers, &s.g_beta, "right powers")?;
    must(E::pairing(s.g_beta, G2::generator()) != E::pairing(G1::generator(), s.h_alpha), "the two secrets are equal")?;
    check_unrelated(&s.g_alpha_powers, &s.h_beta_powers)?;
    must(!s.g_beta.is_zero() && !s.h_alpha.is_zero() && s.g_beta != G1::generator() && s.h_alpha != G2::generator(), "trivial secret")?;
    let (k1, k2) = s.get_commitment_keys();
    must(k1 == s.h_beta_powers.iter().step_by(2).cloned().collect::<Vec<_>>() && k1.len() == n, "left commitment keys are not the even powers")?;
    must(k2 == s.g_alpha_powers.iter().step_by(2).cloned().collect::<Vec<_>>() && k2.len() == n, "right commitment keys are not the even powers")?;
    let v = s.get_verifier_key();
    must(v.g == G1::generator() && v.h == G2::generator() && v.g_beta == s.g_beta && v.h_alpha == s.h_alpha, "verifier key")
}
pub fn c08(c: &mut Ctx) {
    let mut sizes = vec![130usize, 1, 2, 3, 4, 5, 8, 16, 33];
    if c.thorough {
        sizes.extend([6, 7, 9, 31, 32, 64, 100]);
    }
    for &n in &sizes {
        c.case(format!("setup tipa n={}", n), |rng| {
            let (s, _) = tpair::Arg::<Blake2b>::setup(rng, n).map_err(|e| e.to_string())?;
            check_srs(&s, n)?;
            let (s2, _) = tpair::Arg::<Blake2b>::setup(rng, n).map_err(|e| e.to_string())?;
            must(s2.g_beta != s.g_beta && s2.h_alpha != s.h_alpha, "two setups share secrets")
        });
        c.case(format!("setup tipa scalar n={}", n), |rng| {
            let (s, k) = tscal::Arg::<Blake2b>::setup(rng, n).map_err(|e| e.to_string())?;
            must(!k.is_zero(), "neutral product key")?;
            check_srs(&s, n)
        });
        c.case(format!("setup ssm n={}", n), |rng| {
            let (s, _) = tsmexp::Arg::<Blake2b>::setup(rng, n).map_err(|e| e.to_string())?;
            check_srs(&s, n)
        });
        c.case(format!("setup aggregation n={}", n), |rng| {
            let s = ark_ip_proofs::applications::groth16_aggregation::setup_inner_product::<E, Blake2b, _>(rng, n).map_err(|e| e.to_string())?;
            check_srs(&s, n)
        });
    }
    for num in [1usize, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 130, 256, 257, 600] {
        c.case(format!("powers {}", num), |rng| {
            for s in [F::zero(), F::one(), -F::one(), F::from(2u64), F::rand(rng)] {
                for g in [G1::generator(), g1(F::rand(rng)), G1::zero()] {
                    let v = sgsp(num, &g, &s);
                    let w: Vec<G1> = pw(&s, num).iter().map(|x| g * x).collect();
                    must(v == w, format!("{} powers of a scalar times a point", num))?;
                }
                if num < 18 {
                    must(sgsp(num, &G2::generator(), &s) == els::<G2>(&pw(&s, num)), "powers in the second group")?;
                }
                must(ssp(num, &s) == pw(&s, num), format!("{} powers of a scalar", num))?;
            }
            Ok(())
        });
    }
    crate::p_apps::c08(c);
}

// ------------------------------------------------------------------ C09
macro_rules! c09_one {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in if c.thorough { vec![8usize, 7, 6, 5, 4, 3, 2, 1, 0] } else { vec![8, 6, 4, 3, 2, 1, 0] } {
            for edgy in [false, true] {
                if rounds > 6 && edgy {
                    continue;
                }
                c.case(format!("honest {} n={} edgy={}", stringify!($m), 1 << rounds, edgy), |rng| {
                    let n = 1usize << rounds;
                    let s = sec(rng);
                    let srs = s.srs(n);
                    let v = srs.get_verifier_key();
                    let (k1, k2) = srs.get_commitment_keys();
                    let kt = nz(rng);
                    let tk = $g::TK::dl(&kt);
                    set_mode(Mode::RejectBelow(rng.gen_range(0..3)));
                    let (a, b) = (vecf(rng, n, edgy), vecf(rng, n, edgy));
                    let (va, vb) = (els::<$g::LM>(&a), els::<$g::RM>(&b));
                    let ka = pw(&(s.beta * s.beta), n);
                    let kb = pw(&(s.alpha * s.alpha), n);
                    let keys = Keys { a: ka.clone(), b: kb, t: kt };
                    let cm = $g::coms(&$g::honest_com(&keys, &a, &b));
                    let es = |e: BoxErr| format!("error although the statement is true: {}", e);
                    let p = $m::Arg::<Mock>::prove(&srs, (&va, &vb), (&k1, &k2, &tk)).map_err(es)?;
                    verdict($m::Arg::<Mock>::verify(&v, &tk, (&cm.0, &cm.1, &cm.2), &p), true, "honest proof")?;
                    for r in [nz(rng), -F::one(), F::one()].into_iter().take(if rounds > 4 { 1 } else { 3 }) {
                        // left keys scaled by the powers of 1/r
                        let ri = r.inverse().unwrap();
                        let sh: Vec<F> = ka.iter().zip(pw(&ri, n)).map(|(k, x)| *k * x).collect();
                        let keys = Keys { a: sh.clone(), ..keys.clone() };
                        let cm = $g::coms(&$g::honest_com(&keys, &a, &b));
                        let p = $m::Arg::<Mock>::prove_with_srs_shift(&srs, (&va, &vb), (&els::<G2>(&sh), &k2, &tk), &r).map_err(es)?;
                        verdict($m::Arg::<Mock>::verify_with_srs_shift(&v, &tk, (&cm.0, &cm.1, &cm.2), &p, &r), true, "honest shifted proof")?;
                    }
                    Ok(())
                });
            }
        }
        c.case(format!("honest {} with generated setup", stringify!($m)), |rng| {
            for n in [1usize, 4, 8] {
                let (srs, tk) = $m::Arg::<Blake2b>::setup(rng, n).map_err(|e| e.to_string())?;
                let (k1, k2) = srs.get_commitment_keys();
                let (a, b) = (vecf(rng, n, false), vecf(rng, n, false));
                let (va, vb) = (els::<$g::LM>(&a), els::<$g::RM>(&b));
                let es = |e: BoxErr| e.to_string();
                let c0 = $g::L::commit(&k1, &va).map_err(es)?;
                let c1 = $g::Rc::commit(&k2, &vb).map_err(es)?;
                let c2 = $g::T::commit(&[tk.clone()], &[El::dl(&dot(&a, &b))]).map_err(es)?;
                let p = $m::Arg::<Blake2b>::prove(&srs, (&va, &vb), (&k1, &k2, &tk)).map_err(es)?;
                verdict($m::Arg::<Blake2b>::verify(&srs.get_verifier_key(), &tk, (&c0, &c1, &c2), &p), true, "honest proof")?;
            }
            Ok(())
        });
    }};
}
pub fn c09(c: &mut Ctx) {
    all_tipa!(c09_one, c);
}

// ------------------------------------------------------------------ C10
macro_rules! c10_one {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        let maxr = if c.thorough { 6 } else { 4 };
        for rounds in [10usize].into_iter().chain(0..=maxr) {
            for edgy in [false, true] {
                for rej in [0u64, 2] {
                    if (rej > 0 || rounds > 6) && edgy || rej == 0 && rounds > 6 {
                        continue;
                    }
                    c.case(format!("constructed {} rounds={} edgy={} unusable={}", stringify!($m), rounds, edgy, rej), |rng| {
                        set_mode(Mode::RejectBelow(rej));
                        let s = sec(rng);
                        for shift in [F::one(), nz(rng)] {
                            let sh = if shift == F::one() { None } else { Some(shift) };
                            let (kt, p, cm) = $m::forge::<Mock>(rng, &s, rounds, shift, edgy);
                            tri($m::verify::<Mock>(&s, kt, &cm, &p, sh), true, "constructed proof")?;
                            tri($m::verify::<Mock>(&s, kt, &cm, &p, Some(shift)), true, "constructed proof")?;
                            for j in 0..3 {
                                let mut c2 = cm;
                                c2[j] += nz(rng);
                                tri($m::verify::<Mock>(&s, kt, &c2, &p, sh), false, &format!("commitment {} changed", j))?;
                            }
                            let t = |p2: &TDl, what: &str| -> Res { tri($m::verify::<Mock>(&s, kt, &cm, p2, sh), $m::holds::<Mock>(&s, kt, &cm, p2, shift), what) };
                            // openings, alone and compensating each other
                            let d = nz(rng);
                            for (x, y) in [(d, F::zero()), (F::zero(), d), (d, d), (d, -d)] {
                                let mut p2 = p.clone();
                                p2.a.proof += x;
                                p2.b.proof += y;
                                t(&p2, "opening proofs changed")?;
                            }
                            for (x, y) in [(d, F::zero()), (F::zero(), d), (d, d)] {
                                let mut p2 = p.clone();
                                p2.a.ck += x;
                                p2.b.ck += y;
                                t(&p2, "final keys changed")?;
                                // final keys changed, everything else made to fit except the opening of one of them
                                let ch = $g::chals::<Mock>(&p2.g);
                                let (z, va, vb) = $m::targets::<Mock>(&ch, p2.a.ck, p2.b.ck, shift);
                                let c2 = solve_at($m::K, p2.a.ck, p2.b.ck, kt, &p2.g, &ch, p2.g.base.1);
                                let (oa, ob) = (open_at(s.beta, p2.a.ck, z, va), open_at(s.alpha, p2.b.ck, z, vb));
                                let go = |p: &TDl, want: bool, what: &str| tri($m::verify::<Mock>(&s, kt, &c2, p, sh), want, what);
                                let q = TDl { a: oa.clone(), b: ob.clone(), ..p2.clone() };
                                go(&q, true, "constructed proof with other final keys")?;
                                let mut q1 = q.clone();
                                q1.a.proof += F::one();
                                go(&q1, false, "left opening wrong")?;
                                let mut q1 = q.clone();
                                q1.b.proof += F::one();
                                go(&q1, false, "right opening wrong")?;
                            }
                            // wrong product form on one side only (unshifted / shifted)
                            {
                                let ch = $g::chals::<Mock>(&p.g);
                                let (z, va, _) = $m::targets::<Mock>(&ch, p.a.ck, p.b.ck, shift);
                                for w in [prod_form(&rev(&ch), z * z * shift.inverse().unwrap()), prod_form(&rev_inv(&ch), z * z * shift), prod_form(&rev_inv(&ch), z * z), prod_form(&rev_inv(&ch), z)] {
                                    if w != va {
                                        let mut p2 = p.clone();
                                        p2.a = open_at(s.beta, p.a.ck, z, w);
                                        t(&p2, "left key opens to another polynomial")?;
                                    }
                                }
                                for w in [prod_form(&rev_inv(&ch), z * z), prod_form(&rev(&ch), z * z * shift), prod_form(&rev(&ch), z)] {
                                    let mut p2 = p.clone();
                                    p2.b = open_at(s.alpha, p.b.ck, z, w);
                                    t(&p2, "right key opens to another polynomial")?;
                                }
                                // a challenge point that is not bound to both keys
                                let zz = F::rand(rng);
                                let mut p2 = p.clone();
                                p2.a = open_at(s.beta, p.a.ck, zz, prod_form(&rev_inv(&ch), zz * zz * shift.inverse().unwrap()));
                                p2.b = open_at(s.alpha, p.b.ck, zz, prod_form(&rev(&ch), zz * zz));
                                t(&p2, "openings at another point")?;
                            }
                            for (x, y) in [(d, F::zero()), (F::zero(), d)] {
                                let mut p2 = p.clone();
                                p2.g.base.0 += x;
                                p2.g.base.1 += y;
                                t(&p2, "final messages changed")?;
                            }
                            for r in 0..rounds {
                                if rounds > 6 && r != 0 && r != rounds - 1 {
                                    continue;
                                }
                                for j in 0..3 {
                                    let mut p2 = p.clone();
                                    p2.g.steps[r].0[j] += d;
                                    t(&p2, "round element changed")?;
                                    let mut p2 = p.clone();
                                    p2.g.steps[r].1[j] += d;
                                    t(&p2, "round element changed")?;
                                }
                            }
                            // other shift
                            let o = nz(rng);
                            tri($m::verify::<Mock>(&s, kt, &cm, &p, Some(o)), $m::holds::<Mock>(&s, kt, &cm, &p, o), "another shift")?;
                            let s2 = sec(rng);
                            tri($m::verify::<Mock>(&s2, kt, &cm, &p, sh), $m::holds::<Mock>(&s2, kt, &cm, &p, shift), "another verifier key")?;
                            let s2 = Sec { alpha: s.alpha, beta: nz(rng) };
                            tri($m::verify::<Mock>(&s2, kt, &cm, &p, sh), $m::holds::<Mock>(&s2, kt, &cm, &p, shift), "another verifier key")?;
                            let s2 = Sec { alpha: nz(rng), beta: s.beta };
                            tri($m::verify::<Mock>(&s2, kt, &cm, &p, sh), $m::holds::<Mock>(&s2, kt, &cm, &p, shift), "another verifier key")?;
                            let kt2 = kt + F::one();
                            let w = solve_at($m::K, p.a.ck, p.b.ck, kt2, &p.g, &$g::chals::<Mock>(&p.g), p.g.base.1) == cm;
                            tri($m::verify::<Mock>(&s, kt2, &cm, &p, sh), w, "another product key")?;
                        }
                        Ok(())
                    });
                }
            }
        }
        for rounds in 0..=3usize {
            c.case(format!("opening transcript {} rounds={}", stringify!($m), rounds), |rng| {
                let rej = rng.gen_range(0..3u64);
                set_mode(Mode::RejectBelow(rej));
                let s = sec(rng);
                let n = 1 << rounds;
                let srs = s.srs(n);
                let (k1, k2) = srs.get_commitment_keys();
                let (a, b) = (vecf(rng, n, false), vecf(rng, n, false));
                let tk = $g::TK::dl(&nz(rng));
                let (p, lp) = record(|| $m::Arg::<Mock>::prove(&srs, (&els(&a), &els(&b)), (&k1, &k2, &tk)).map_err(|e| e.to_string()));
                let p = p?;
                let parts: $m::Parts = remake(&p);
                let ch = $g::chals_steps::<Mock>(&parts.0 .0);
                let mut h = ser(&ch.last().cloned().unwrap_or(F::zero()));
                h.extend(ser(&parts.1 .0));
                h.extend(ser(&parts.1 .1));
                let want = attempts_until_field(h);
                let tail = |l: &Vec<Vec<u8>>| l[l.len().saturating_sub(want.len())..].to_vec();
                let cm = $g::coms(&[F::one(); 3]);
                let (_, lv) = record(|| $m::Arg::<Mock>::verify(&s.v(), &tk, (&cm.0, &cm.1, &cm.2), &p).map_err(|e| e.to_string()));
                check_log(&tail(&lp), &want, "prover, opening challenge (last challenge, both final keys)")?;
                check_log(&tail(&lv), &want, "verifier, opening challenge (last challenge, both final keys)")?;
                must(lp == lv, "prover and verifier hash different inputs")
            });
        }
    }};
}
pub fn c10(c: &mut Ctx) {
    all_tipa!(c10_one, c);
    c.case("opening checks", |rng| {
        for n in 0..5usize {
            for _ in 0..3 {
                let s = sec(rng);
                let v = s.v();
                let xs: Vec<F> = (0..n).map(|_| nz(rng)).collect();
                let (r, z, ck) = (nz(rng), F::rand(rng), F::rand(rng));
                let w = prod_form(&xs, z * z * r);
                for (ck, val) in [(ck, w), (w, w)] {
                    let o = open_at(s.beta, ck, z, val);
                    for (d, e) in [(F::zero(), F::zero()), (F::one(), F::zero()), (F::zero(), F::one())] {
                        let want = d.is_zero() && e.is_zero();
                        let g = ark_ip_proofs::tipa::verify_commitment_key_g2_kzg_opening(&v, &g2(ck + d), &g2(o.proof + e), &xs, &r, &z);
                        verdict(g.map_err(|e| e.to_string()), want, "opening of a left key")?;
                        let o = open_at(s.alpha, ck, z, val);
                        let g = ark_ip_proofs::tipa::verify_commitment_key_g1_kzg_opening(&v, &g1(ck + d), &g1(o.proof + e), &xs, &r, &z);
                        verdict(g.map_err(|e| e.to_string()), want, "opening of a right key")?;
                    }
                }
                // the prover side opens the honest key
                let srs = s.srs(1 << n);
                let o = ark_ip_proofs::tipa::prove_commitment_key_kzg_opening(&srs.h_beta_powers, &xs, &r, &z).map_err(|e| e.to_string())?;
                let key = prod_form(&xs, s.beta * s.beta * r);
                must(o == g2(open_at(s.beta, key, z, w).proof), "opening of an honest left key")?;
                let o = ark_ip_proofs::tipa::prove_commitment_key_kzg_opening(&srs.g_alpha_powers, &xs, &r, &z).map_err(|e| e.to_string())?;
                let key = prod_form(&xs, s.alpha * s.alpha * r);
                must(o == g1(open_at(s.alpha, key, z, w).proof), "opening of an honest right key")?;
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C11
macro_rules! c11_s {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in [9usize, 7].into_iter().chain(0..=(if c.thorough { 6 } else { 5 })) {
            for edgy in [false, true] {
                if rounds > 6 && edgy {
                    continue;
                }
                c.case(format!("honest transparent {} n={} edgy={}", stringify!($m), 1 << rounds, edgy), |rng| {
                    let n = 1usize << rounds;
                    for b in [F::rand(rng), F::zero(), F::one(), -F::one()].into_iter().take(if rounds > 6 { 1 } else { 4 }) {
                        set_mode(Mode::RejectBelow(rng.gen_range(0..2)));
                        let k = rand_keys(rng, n, edgy);
                        let a = vecf(rng, n, edgy);
                        let bs = pw(&b, n);
                        let cm = $m::honest_com(&k, &a, &bs);
                        let (ka, tk) = (els::<<$g::L as Dhc>::Key>(&k.a), $g::TK::dl(&k.t));
                        let p = $m::Arg::<Mock>::prove_with_structured_scalar_message((&els::<$m::LM>(&a), &bs), (&ka, &tk)).map_err(|e| format!("error although the statement is true: {}", e))?;
                        let r = $m::Arg::<Mock>::verify_with_structured_scalar_message((&ka, &tk), (&$g::LO::dl(&cm[0]), &$g::TO::dl(&cm[2])), &b, &p);
                        verdict(r.map_err(|e| e.to_string()), true, "honest proof")?;
                    }
                    Ok(())
                });
            }
        }
        c.case(format!("generated keys {}", stringify!($m)), |rng| {
            let n = 8;
            let (ka, tk) = $m::Arg::<Blake2b>::setup(rng, n).map_err(|e| e.to_string())?;
            must(ka.len() == n, "number of keys")?;
            let (a, b) = (vecf(rng, n, false), F::rand(rng));
            let bs = ssp(n, &b);
            let es = |e: BoxErr| e.to_string();
            let va = els::<$m::LM>(&a);
            let c0 = $g::L::commit(&ka, &va).map_err(es)?;
            let c2 = $g::T::commit(&[tk.clone()], &[El::dl(&dot(&a, &bs))]).map_err(es)?;
            let p = $m::Arg::<Blake2b>::prove_with_structured_scalar_message((&va, &bs), (&ka, &tk)).map_err(es)?;
            verdict($m::Arg::<Blake2b>::verify_with_structured_scalar_message((&ka, &tk), (&c0, &c2), &b, &p), true, "honest proof")
        });
    }};
}
macro_rules! c11_t {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in [8usize, 6].into_iter().chain(0..=(if c.thorough { 5 } else { 4 })) {
            for edgy in [false, true] {
                if rounds > 5 && edgy {
                    continue;
                }
                c.case(format!("honest trusted {} n={} edgy={}", stringify!($m), 1 << rounds, edgy), |rng| {
                    let n = 1usize << rounds;
                    for b in [F::rand(rng), F::zero(), F::one()].into_iter().take(if rounds > 5 { 1 } else { 3 }) {
                        set_mode(Mode::RejectBelow(rng.gen_range(0..2)));
                        let s = sec(rng);
                        let srs = s.srs(n);
                        let (k1, _) = srs.get_commitment_keys();
                        let kt = nz(rng);
                        let k = Keys { a: pw(&(s.beta * s.beta), n), b: vec![F::zero(); n], t: kt };
                        let a = vecf(rng, n, edgy);
                        let bs = pw(&b, n);
                        let cm = $m::honest_com(&k, &a, &bs);
                        let tk = $g::TK::dl(&kt);
                        let p = $m::Arg::<Mock>::prove_with_structured_scalar_message(&srs, (&els::<$m::LM>(&a), &bs), (&k1, &tk)).map_err(|e| format!("error although the statement is true: {}", e))?;
                        let r = $m::Arg::<Mock>::verify_with_structured_scalar_message(&srs.get_verifier_key(), &tk, (&$g::LO::dl(&cm[0]), &$g::TO::dl(&cm[2])), &b, &p);
                        verdict(r.map_err(|e| e.to_string()), true, "honest proof")?;
                    }
                    Ok(())
                });
            }
        }
    }};
}
pub fn c11(c: &mut Ctx) {
    all_ssm!(c11_s, c);
    all_tssm!(c11_t, c);
    for n in (1..=34usize).chain([63, 64, 65, 128, 129, 257, 1000]) {
        c.case(format!("powers {}", n), |rng| {
            for s in [F::zero(), F::one(), F::rand(rng)] {
                must(ssp(n, &s) == pw(&s, n), "consecutive powers")?;
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C12
macro_rules! c12_s {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in [7usize].into_iter().chain(0..=(if c.thorough { 6 } else { 4 })) {
            for edgy in [false, true] {
                if rounds > 6 && edgy {
                    continue;
                }
                c.case(format!("constructed transparent {} rounds={} edgy={}", stringify!($m), rounds, edgy), |rng| {
                    set_mode(Mode::RejectBelow(rng.gen_range(0..2)));
                    for b in [F::rand(rng), F::zero(), F::one()].into_iter().take(if rounds > 6 { 1 } else { 3 }) {
                        let (k, p, cm) = $m::forge::<Mock>(rng, rounds, b, edgy);
                        let t = |k: &Keys, c: &[F; 2], b: F, p: &Dl, what: &str| tri($m::verify::<Mock>(k, c, b, p), $m::holds::<Mock>(k, p, c, b), what);
                        must($m::holds::<Mock>(&k, &p, &cm, b), "harness: construction")?;
                        t(&k, &cm, b, &p, "constructed proof")?;
                        let d = nz(rng);
                        t(&k, &[cm[0] + d, cm[1]], b, &p, "left commitment changed")?;
                        t(&k, &[cm[0], cm[1] + d], b, &p, "product commitment changed")?;
                        t(&k, &[cm[0] + d, cm[1] - d], b, &p, "commitments changed")?;
                        t(&k, &cm, b + F::one(), &p, "scalar changed")?;
                        t(&k, &cm, -b, &p, "scalar negated")?;
                        t(&k, &cm, b.inverse().unwrap_or(F::one()), &p, "scalar inverted")?;
                        for i in 0..k.a.len().min(6) {
                            let mut k2 = k.clone();
                            k2.a[i] += d;
                            t(&k2, &cm, b, &p, "key changed")?;
                        }
                        let ch = $g::chals::<Mock>(&p);
                        for (x, y) in [(d, F::zero()), (F::zero(), d), (d, d)] {
                            let mut p2 = p.clone();
                            p2.base.0 += x;
                            p2.base.1 += y;
                            t(&k, &cm, b, &p2, "final messages changed")?;
                            // the product commitment made to fit the proof's own right message only, or the scalar only
                            let fa = fold_key_a(&k.a, &ch);
                            let own = solve_at($m::K, fa, F::zero(), k.t, &p2, &ch, p2.base.1);
                            t(&k, &[own[0], own[2]], b, &p2, "right message not the product form")?;
                            let th = solve_at($m::K, fa, F::zero(), k.t, &p2, &ch, prod_form(&rev_inv(&ch), b));
                            t(&k, &[th[0], th[2]], b, &p2, "the proof's own right message inconsistent")?;
                        }
                        // product form with the wrong challenge order or the wrong exponents
                        for w in [prod_form(&ch, b), prod_form(&rev(&ch), b), prod_form(&rev_inv(&ch), b * b)] {
                            let mut p2 = p.clone();
                            p2.base.1 = w;
                            let fa = fold_key_a(&k.a, &ch);
                            let own = solve_at($m::K, fa, F::zero(), k.t, &p2, &ch, w);
                            t(&k, &[own[0], own[2]], b, &p2, "another right message")?;
                        }
                        for r in 0..rounds {
                            if rounds > 6 && r != 0 && r != rounds - 1 {
                                continue;
                            }
                            for j in 0..3 {
                                let mut p2 = p.clone();
                                p2.steps[r].0[j] += d;
                                t(&k, &cm, b, &p2, "round element changed")?;
                                let mut p2 = p.clone();
                                p2.steps[r].1[j] += d;
                                t(&k, &cm, b, &p2, "round element changed")?;
                                if j == 1 {
                                    // placeholder commitments that do not cancel, everything else fitting
                                    let ch2 = $g::chals::<Mock>(&p2);
                                    p2.base.1 = prod_form(&rev_inv(&ch2), b);
                                    let own = solve_at($m::K, fold_key_a(&k.a, &ch2), F::zero(), k.t, &p2, &ch2, p2.base.1);
                                    t(&k, &[own[0], own[2]], b, &p2, "placeholder commitments not neutral")?;
                                }
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
        for (rk, rp) in [(0usize, 1usize), (1, 0), (2, 1), (1, 2), (3, 1), (2, 3)] {
            c.case(format!("rounds {} keys=2^{} rounds={}", stringify!($m), rk, rp), |rng| {
                let b = F::rand(rng);
                let (full, p, cm) = $m::forge::<Mock>(rng, rp, b, false);
                let mut k = rand_keys(rng, 1 << rk, false);
                k.t = full.t;
                for i in 0..k.a.len().min(full.a.len()) {
                    k.a[i] = full.a[i];
                }
                tri($m::verify::<Mock>(&k, &cm, b, &p), false, "number of rounds does not match the keys")
            });
        }
    }};
}
macro_rules! c12_t {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in [10usize].into_iter().chain(0..=(if c.thorough { 6 } else { 4 })) {
            for edgy in [false, true] {
                if rounds > 6 && edgy {
                    continue;
                }
                c.case(format!("constructed trusted {} rounds={} edgy={}", stringify!($m), rounds, edgy), |rng| {
                    let rej = rng.gen_range(0..3);
                    set_mode(Mode::RejectBelow(rej));
                    let s = sec(rng);
                    for b in [F::rand(rng), F::zero(), F::one()].into_iter().take(if rounds > 6 { 1 } else { 3 }) {
                        let (kt, p, cm) = $m::forge::<Mock>(rng, &s, rounds, b, edgy);
                        let t = |c: &[F; 2], b: F, p: &SDl, what: &str| tri($m::verify::<Mock>(&s, kt, c, b, p), $m::holds::<Mock>(&s, kt, c, b, p), what);
                        must($m::holds::<Mock>(&s, kt, &cm, b, &p), "harness: construction")?;
                        t(&cm, b, &p, "constructed proof")?;
                        let d = nz(rng);
                        t(&[cm[0] + d, cm[1]], b, &p, "left commitment changed")?;
                        t(&[cm[0], cm[1] + d], b, &p, "product commitment changed")?;
                        t(&[cm[0] - d, cm[1] + d], b, &p, "commitments changed")?;
                        t(&cm, b + d, &p, "scalar changed")?;
                        t(&cm, -b, &p, "scalar negated")?;
                        let mut p2 = p.clone();
                        p2.a.proof += d;
                        t(&cm, b, &p2, "opening changed")?;
                        let mut p2 = p.clone();
                        p2.a.ck += d;
                        t(&cm, b, &p2, "final key changed")?;
                        let ch = $g::chals::<Mock>(&p.g);
                        let (z, va) = $m::target::<Mock>(&ch, p.a.ck);
                        for w in [prod_form(&rev(&ch), z * z), prod_form(&rev_inv(&ch), z), prod_form(&ch, z * z)] {
                            if w != va {
                                let mut p2 = p.clone();
                                p2.a = open_at(s.beta, p.a.ck, z, w);
                                t(&cm, b, &p2, "key opens to another polynomial")?;
                            }
                        }
                        let zz = F::rand(rng);
                        let mut p2 = p.clone();
                        p2.a = open_at(s.beta, p.a.ck, zz, prod_form(&rev_inv(&ch), zz * zz));
                        t(&cm, b, &p2, "opening at another point")?;
                        for (x, y) in [(d, F::zero()), (F::zero(), d)] {
                            let mut p2 = p.clone();
                            p2.g.base.0 += x;
                            p2.g.base.1 += y;
                            t(&cm, b, &p2, "final messages changed")?;
                        }
                        for w in [prod_form(&ch, b), prod_form(&rev(&ch), b), prod_form(&rev_inv(&ch), b * b), p.g.base.1] {
                            let o = solve_at($m::K, p.a.ck, F::zero(), kt, &p.g, &ch, w);
                            t(&[o[0], o[2]], b, &p, "product with another right message")?;
                        }
                        for r in 0..rounds {
                            if rounds > 6 && r != 0 && r != rounds - 1 {
                                continue;
                            }
                            for j in 0..3 {
                                let mut p2 = p.clone();
                                p2.g.steps[r].0[j] += d;
                                t(&cm, b, &p2, "round element changed")?;
                                let mut p2 = p.clone();
                                p2.g.steps[r].1[j] += d;
                                t(&cm, b, &p2, "round element changed")?;
                            }
                        }
                        for s2 in [sec(rng), Sec { alpha: s.alpha, beta: nz(rng) }] {
                            tri($m::verify::<Mock>(&s2, kt, &cm, b, &p), $m::holds::<Mock>(&s2, kt, &cm, b, &p), "another verifier key")?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }};
}
pub fn c12(c: &mut Ctx) {
    all_ssm!(c12_s, c);
    all_tssm!(c12_t, c);
}

// ------------------------------------------------------------------ parts
macro_rules! c07_t {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in 0..=3usize {
            c.case(format!("transcript {} rounds={}", stringify!($m), rounds), |rng| {
                let rej = rng.gen_range(0..3u64);
                set_mode(Mode::RejectBelow(rej));
                let s = sec(rng);
                let n = 1 << rounds;
                let srs = s.srs(n);
                let (k1, _) = srs.get_commitment_keys();
                let (a, b) = (vecf(rng, n, false), F::rand(rng));
                let tk = $g::TK::dl(&nz(rng));
                let (p, lp) = record(|| $m::Arg::<Mock>::prove_with_structured_scalar_message(&srs, (&els(&a), &pw(&b, n)), (&k1, &tk)).map_err(|e| e.to_string()));
                let p = p?;
                let parts: $m::Parts = remake(&p);
                let ch = $g::chals_steps::<Mock>(&parts.0 .0);
                let mut want = vec![];
                let mut prev = F::zero();
                for (s, c) in parts.0 .0.iter().rev().zip(&ch) {
                    let mut h = ser(&prev);
                    h.extend($g::step_bytes(s));
                    want.extend(attempts(rej, h));
                    prev = *c;
                }
                let mut h = ser(&prev);
                h.extend(ser(&parts.1));
                want.extend(attempts_until_field(h));
                let (_, lv) = record(|| $m::Arg::<Mock>::verify_with_structured_scalar_message(&s.v(), &tk, (&$g::LO::dl(&F::one()), &$g::TO::dl(&F::one())), &b, &p).map_err(|e| e.to_string()));
                check_log(&lp, &want, "prover")?;
                check_log(&lv, &want, "verifier")
            });
        }
    }};
}
pub fn c07(c: &mut Ctx) {
    all_tssm!(c07_t, c);
}
macro_rules! c24_t {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in 0..=3usize {
            c.case(format!("copies {} rounds={}", stringify!($m), rounds), |rng| {
                let s = sec(rng);
                let (kt, p, cm) = $m::forge::<Mock>(rng, &s, rounds, F::one(), false);
                let pr = $m::build::<Mock>(&p);
                let bytes = ser(&$m::parts(&p));
                must(ser(&pr) == bytes, "serialized proof does not contain its parts")?;
                let cl = pr.clone();
                must(ser(&cl) == bytes, "clone differs from the original")?;
                let mut cmp = vec![];
                pr.serialize_compressed(&mut cmp).map_err(|e| e.to_string())?;
                let b1 = $m::Proof::<Mock>::deserialize_compressed(&cmp[..]).map_err(|e| format!("cannot read a proof back: {:?}", e))?;
                let b2 = $m::Proof::<Mock>::deserialize_uncompressed(&bytes[..]).map_err(|e| format!("cannot read a proof back: {:?}", e))?;
                must(ser(&b1) == bytes && ser(&b2) == bytes, "a proof read back differs")?;
                let (ok, mut bad) = ($g::coms(&cm), cm);
                bad[2] += F::one();
                let bad = $g::coms(&bad);
                let tk = $g::TK::dl(&kt);
                for q in [&pr, &cl, &b1, &b2] {
                    verdict($m::Arg::<Mock>::verify(&s.v(), &tk, (&ok.0, &ok.1, &ok.2), q).map_err(|e| e.to_string()), true, "copy of an accepted proof")?;
                    verdict($m::Arg::<Mock>::verify(&s.v(), &tk, (&bad.0, &bad.1, &bad.2), q).map_err(|e| e.to_string()), false, "copy of a rejected proof")?;
                }
                Ok(())
            });
        }
        for (rounds, edgy) in [(4usize, true), (9, false), (33, true)] {
            c.case(format!("copies of arbitrary {} rounds={}", stringify!($m), rounds), |rng| {
                let v = vecf(rng, 4, edgy);
                let g = rand_dl(rng, rounds, edgy, $m::K);
                let p = TDl { g, a: Opening { ck: v[0], proof: v[1] }, b: Opening { ck: v[2], proof: v[3] } };
                crate::p_gipa::faithful(&$m::build::<Mock>(&p), &ser(&$m::parts(&p)))
            });
        }
    }};
}
macro_rules! c24_s {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in 0..=3usize {
            c.case(format!("copies {} rounds={}", stringify!($m), rounds), |rng| {
                let s = sec(rng);
                let b = F::rand(rng);
                let (kt, p, cm) = $m::forge::<Mock>(rng, &s, rounds, b, false);
                let pr = $m::build::<Mock>(&p);
                let bytes = ser(&$m::parts(&p));
                must(ser(&pr) == bytes, "serialized proof does not contain its parts")?;
                let cl = pr.clone();
                must(ser(&cl) == bytes, "clone differs from the original")?;
                let mut cmp = vec![];
                pr.serialize_compressed(&mut cmp).map_err(|e| e.to_string())?;
                let b1 = $m::Proof::<Mock>::deserialize_compressed(&cmp[..]).map_err(|e| format!("cannot read a proof back: {:?}", e))?;
                let b2 = $m::Proof::<Mock>::deserialize_uncompressed(&bytes[..]).map_err(|e| format!("cannot read a proof back: {:?}", e))?;
                must(ser(&b1) == bytes && ser(&b2) == bytes, "a proof read back differs")?;
                let tk = $g::TK::dl(&kt);
                for q in [&pr, &cl, &b1, &b2] {
                    let v = |x: F| $m::Arg::<Mock>::verify_with_structured_scalar_message(&s.v(), &tk, (&$g::LO::dl(&cm[0]), &$g::TO::dl(&(cm[1] + x))), &b, q).map_err(|e| e.to_string());
                    verdict(v(F::zero()), true, "copy of an accepted proof")?;
                    verdict(v(F::one()), false, "copy of a rejected proof")?;
                }
                Ok(())
            });
        }
        for (rounds, edgy) in [(4usize, true), (9, false), (33, true)] {
            c.case(format!("copies of arbitrary {} rounds={}", stringify!($m), rounds), |rng| {
                let v = vecf(rng, 4, edgy);
                let g = rand_dl(rng, rounds, edgy, $m::K);
                let p = SDl { g, a: Opening { ck: v[0], proof: v[1] } };
                crate::p_gipa::faithful(&$m::build::<Mock>(&p), &ser(&$m::parts(&p)))
            });
        }
    }};
}
pub fn c24(c: &mut Ctx) {
    all_tipa!(c24_t, c);
    all_tssm!(c24_s, c);
}
macro_rules! c26_t {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in [0usize, 1, 2, 3, 5, 17, 65] {
            c.case(format!("malformed {} rounds={}", stringify!($m), rounds), |rng| {
                let s = sec(rng);
                let v = vecf(rng, 8, false);
                let g = rand_dl(rng, rounds, rounds % 2 == 0, [Kind::Dot; 3]);
                let p = TDl { g, a: Opening { ck: v[0], proof: v[1] }, b: Opening { ck: v[2], proof: v[3] } };
                calm($m::verify::<Mock>(&s, v[4], &[v[5], v[6], v[7]], &p, None), "arbitrary proof")?;
                calm($m::verify::<Mock>(&s, v[4], &[v[5], v[6], v[7]], &p, Some(v[0])), "arbitrary proof")
            });
        }
        for n in [2usize, 4, 8] {
            c.case(format!("truncated {} n={}", stringify!($m), n), |rng| {
                let s = sec(rng);
                let srs = s.srs(n);
                let (k1, k2) = srs.get_commitment_keys();
                let (a, b) = (vecf(rng, n, false), vecf(rng, n, false));
                let kt = nz(rng);
                let tk = $g::TK::dl(&kt);
                let k = Keys { a: pw(&(s.beta * s.beta), n), b: pw(&(s.alpha * s.alpha), n), t: kt };
                let cm = $g::coms(&$g::honest_com(&k, &a, &b));
                let p = $m::Arg::<Mock>::prove(&srs, (&els(&a), &els(&b)), (&k1, &k2, &tk)).map_err(|e| e.to_string())?;
                let full: $m::Parts = remake(&p);
                for i in 0..full.0 .0.len() {
                    for dup in [false, true] {
                        let mut q = full.clone();
                        if dup {
                            let x = q.0 .0[i].clone();
                            q.0 .0.insert(i, x);
                        } else {
                            q.0 .0.remove(i);
                        }
                        let q: $m::Proof<Mock> = remake(&q);
                        calm(guard(|| $m::Arg::<Mock>::verify(&s.v(), &tk, (&cm.0, &cm.1, &cm.2), &q).map_err(|e| e.to_string())), "proof with a round removed or doubled")?;
                    }
                }
                Ok(())
            });
        }
    }};
}
macro_rules! c26_ts {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in [0usize, 1, 2, 3, 5, 17, 65] {
            c.case(format!("malformed {} rounds={}", stringify!($m), rounds), |rng| {
                let s = sec(rng);
                let v = vecf(rng, 8, false);
                let g = rand_dl(rng, rounds, rounds % 2 == 0, [Kind::Dot; 3]);
                let p = SDl { g, a: Opening { ck: v[0], proof: v[1] } };
                calm($m::verify::<Mock>(&s, v[4], &[v[5], v[6]], v[2], &p), "arbitrary proof")?;
                calm($m::verify::<Mock>(&s, v[4], &[v[5], v[6]], F::zero(), &p), "arbitrary proof")
            });
        }
    }};
}
macro_rules! c26_s {
    ($m:ident, $g:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rk in 0..=4usize {
            for rp in [0usize, 1, 2, 3, 4, 5, 6, 65] {
                if rk == rp {
                    continue;
                }
                c.case(format!("malformed {} keys=2^{} rounds={}", stringify!($m), rk, rp), |rng| {
                    let k = rand_keys(rng, 1 << rk, false);
                    let v = vecf(rng, 8, false);
                    for kinds in [[Kind::Dot; 3], $m::K] {
                        let p = rand_dl(rng, rp, rp % 2 == 0, kinds);
                        calm($m::verify::<Mock>(&k, &[v[5], v[6]], v[2], &p), "wrong number of rounds")?;
                    }
                    Ok(())
                });
            }
        }
    }};
}
pub fn c26(c: &mut Ctx) {
    all_tipa!(c26_t, c);
    all_tssm!(c26_ts, c);
    all_ssm!(c26_s, c);
}
pub fn c27(c: &mut Ctx) {
    macro_rules! note {
        ($id:expr, $text:expr, $run:expr) => {{
            let mut bad = false;
            let c: &mut Ctx = c;
            c.case(format!("late choice {}", $id), |rng| {
                let f: &mut dyn FnMut(&mut R) -> bool = &mut $run;
                bad = f(rng);
                Ok(())
            });
            if bad {
                c.known.push(format!("{}: {}", $id, $text));
            }
        }};
    }
    note!("tpair tipa-verify", "commitments chosen after the challenges are accepted", |rng: &mut R| {
        let s = sec(rng);
        let (kt, p, cm) = tpair::forge::<Mock>(rng, &s, 2, F::one(), false);
        matches!(tpair::verify::<Mock>(&s, kt, &cm, &p, None), Ok(Ok(true)))
    });
    note!("smexp gipa-ssm-verify", "commitments chosen after the challenges are accepted", |rng: &mut R| {
        let b = F::rand(rng);
        let (k, p, cm) = smexp::forge::<Mock>(rng, 2, b, false);
        matches!(smexp::verify::<Mock>(&k, &cm, b, &p), Ok(Ok(true)))
    });
    note!("tsmexp tipa-ssm-verify", "commitments chosen after the challenges are accepted", |rng: &mut R| {
        let s = sec(rng);
        let b = F::rand(rng);
        let (kt, p, cm) = tsmexp::forge::<Mock>(rng, &s, 2, b, false);
        matches!(tsmexp::verify::<Mock>(&s, kt, &cm, b, &p), Ok(Ok(true)))
    });
}
