//! C04 - C07, C24, C26 (part), C27: the generalized inner-product argument.
use crate::core::*;
use crate::gipa::*;
use blake2::Blake2b;

pub fn edge_deltas(rng: &mut R) -> Vec<F> {
    vec![F::rand(rng), F::one(), -F::one()]
}
/// verdict of a verifier that may crash; a crash is not an acceptance
pub fn tri(r: Result<Result<bool, String>, String>, want: bool, what: &str) -> Res {
    match (r, want) {
        (Ok(Ok(x)), w) if x == w => Ok(()),
        (Ok(Ok(true)), false) => Err(format!("{}: accepted although an equation fails", what)),
        (Ok(Ok(false)), true) => Err(format!("{}: rejected although every equation holds", what)),
        (Ok(Err(_)), false) | (Err(_), false) => Ok(()),
        (Ok(Err(e)), true) => Err(format!("{}: error ({}) although every equation holds", what, e)),
        (Err(e), true) => Err(format!("{}: crashed ({}) although every equation holds", what, e)),
        _ => unreachable!(),
    }
}
/// no crash allowed, no acceptance allowed
pub fn calm(r: Result<Result<bool, String>, String>, what: &str) -> Res {
    match r {
        Ok(Ok(true)) => Err(format!("{}: accepted", what)),
        Ok(_) => Ok(()),
        Err(p) => Err(format!("{}: crashed: {}", what, p)),
    }
}

macro_rules! all_gipa {
    ($mac:ident, $c:expr) => {
        $mac!(pair, $c);
        $mac!(mexp, $c);
        $mac!(scal, $c);
        $mac!(scid, $c);
        $mac!(mexp_s, $c);
        $mac!(scal_s, $c);
        $mac!(scped_s, $c);
    };
}

macro_rules! c04_one {
    ($m:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in [7usize, 9] {
            c.case(format!("honest {} n={}", $m::NAME, 1 << rounds), |rng| {
                let n = 1usize << rounds;
                let k = rand_keys(rng, n, false);
                let (a, b) = (vecf(rng, n, false), vecf(rng, n, false));
                let cm = $m::honest_com(&k, &a, &b);
                let p = $m::prove::<Mock>(&k, &a, &b, dot(&a, &b), &cm).map_err(|e| format!("prover refuses a true statement: {}", e))?;
                verdict($m::verify_real::<Mock>(&k, &cm, &p), true, "honest proof")
            });
        }
        let maxr = if c.thorough { 6 } else { 4 };
        for rounds in 0..=maxr {
            for (i, pool) in [8usize, 1, 3].iter().enumerate() {
                if rounds > 3 && i > 0 {
                    continue;
                }
                for edgy in [false, true] {
                    let id = format!("honest {} n={} threads={} edgy={}", $m::NAME, 1 << rounds, pool, edgy);
                    c.case(id, |rng| {
                        let n = 1usize << rounds;
                        let k = rand_keys(rng, n, edgy && i != 1);
                        let (a, b) = (vecf(rng, n, edgy), vecf(rng, n, edgy));
                        let cm = $m::honest_com(&k, &a, &b);
                        let rejects = rng.gen_range(0..3u64);
                        set_mode(Mode::RejectBelow(rejects));
                        in_pool(*pool, || {
                            if i == 0 {
                                let p = $m::prove::<Mock>(&k, &a, &b, dot(&a, &b), &cm).map_err(|e| format!("prover refuses a true statement: {}", e))?;
                                verdict($m::verify_real::<Mock>(&k, &cm, &p), true, "honest proof")
                            } else {
                                let p = $m::prove::<Blake2b>(&k, &a, &b, dot(&a, &b), &cm).map_err(|e| format!("prover refuses a true statement: {}", e))?;
                                verdict($m::verify_real::<Blake2b>(&k, &cm, &p), true, "honest proof")
                            }
                        })
                    });
                }
            }
        }
        c.case(format!("honest {} all-zero", $m::NAME), |_| {
            for n in [1usize, 2, 8] {
                let z = vec![F::zero(); n];
                let k = Keys { a: pw(&F::from(3u64), n), b: pw(&F::from(5u64), n), t: F::one() };
                let cm = $m::honest_com(&k, &z, &z);
                let p = $m::prove::<Blake2b>(&k, &z, &z, F::zero(), &cm)?;
                verdict($m::verify_real::<Blake2b>(&k, &cm, &p), true, "honest proof of zero vectors")?;
            }
            Ok(())
        });
        c.case(format!("honest {} generated keys", $m::NAME), |rng| {
            for n in [1usize, 4] {
                let (ka, kb, kt) = $m::Arg::<Blake2b>::setup(rng, n).map_err(|e| e.to_string())?;
                must(ka.len() == n && kb.len() == n, "setup length")?;
                let (a, b) = (vecf(rng, n, false), vecf(rng, n, false));
                let (va, vb) = (els::<$m::LM>(&a), els::<$m::RM>(&b));
                let t = El::dl(&dot(&a, &b));
                let es = |e: BoxErr| e.to_string();
                let c0 = $m::L::commit(&ka, &va).map_err(es)?;
                let c1 = $m::Rc::commit(&kb, &vb).map_err(es)?;
                let c2 = $m::T::commit(&[kt.clone()], &[t]).map_err(es)?;
                let p = $m::Arg::<Blake2b>::prove((&va, &vb, &El::dl(&dot(&a, &b))), (&ka, &kb, &kt), (&c0, &c1, &c2)).map_err(es)?;
                verdict($m::Arg::<Blake2b>::verify((&ka, &kb, &kt), (&c0, &c1, &c2), &p), true, "honest proof")?;
            }
            Ok(())
        });
    }};
}
pub fn c04(c: &mut Ctx) {
    all_gipa!(c04_one, c);
}

macro_rules! c05_one {
    ($m:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        let refuse = |r: Result<Result<$m::Proof<Blake2b>, String>, String>, what: String| -> Res {
            match r {
                Ok(Err(_)) => Ok(()),
                Ok(Ok(_)) => Err(format!("a proof was made although {}", what)),
                Err(p) => Err(format!("crashed ({}) although an error is due because {}", p, what)),
            }
        };
        for n in [1usize, 2, 4, 8, 16] {
            for edgy in [false, true] {
                c.case(format!("false statement {} n={} edgy={}", $m::NAME, n, edgy), |rng| {
                    let k = rand_keys(rng, n, false);
                    let (a, b) = (vecf(rng, n, edgy), vecf(rng, n, edgy));
                    let cm = $m::honest_com(&k, &a, &b);
                    let t = dot(&a, &b);
                    for d in edge_deltas(rng) {
                        // wrong product, commitment to the right or to the wrong product
                        refuse(guard(|| $m::prove::<Blake2b>(&k, &a, &b, t + d, &cm)), "the product is wrong".into())?;
                        let mut c2 = cm;
                        c2[2] = com($m::K[2], &[k.t], &[t + d]);
                        refuse(guard(|| $m::prove::<Blake2b>(&k, &a, &b, t + d, &c2)), "the product and its commitment are wrong".into())?;
                        refuse(guard(|| $m::prove::<Blake2b>(&k, &a, &b, t, &c2)), "the commitment of the product is wrong".into())?;
                        for j in 0..2 {
                            let mut c2 = cm;
                            c2[j] += d;
                            refuse(guard(|| $m::prove::<Blake2b>(&k, &a, &b, t, &c2)), format!("commitment {} is wrong", j))?;
                        }
                        let mut c2 = cm;
                        c2[0] += d;
                        c2[1] -= d;
                        c2[2] += d;
                        refuse(guard(|| $m::prove::<Blake2b>(&k, &a, &b, t, &c2)), "all commitments are wrong".into())?;
                    }
                    Ok(())
                });
            }
        }
        for n in [1usize, 4, 16, 128] {
            c.case(format!("special commitments {} n={}", $m::NAME, n), |rng| {
                let k = rand_keys(rng, n, false);
                let (a, b) = (vecf(rng, n, false), vecf(rng, n, false));
                let t = dot(&a, &b);
                let (ka, kb, kt) = (els(&k.a), els(&k.b), El::dl(&k.t));
                let (va, vb) = (els::<$m::LM>(&a), els::<$m::RM>(&b));
                let es = |e: BoxErr| e.to_string();
                let c0 = $m::L::commit(&ka, &va).map_err(es)?;
                let c1 = $m::Rc::commit(&kb, &vb).map_err(es)?;
                let c2 = $m::T::commit(&[kt], &[El::dl(&t)]).map_err(es)?;
                let kt = El::dl(&k.t);
                for j in 0..3 {
                    let (mut d0, mut d1, mut d2) = (c0.clone(), c1.clone(), c2.clone());
                    match j {
                        0 => d0 = Default::default(),
                        1 => d1 = Default::default(),
                        _ => d2 = Default::default(),
                    }
                    if (d0.clone(), d1.clone(), d2.clone()) == (c0.clone(), c1.clone(), c2.clone()) {
                        continue;
                    }
                    refuse(guard(|| $m::Arg::<Blake2b>::prove((&va, &vb, &El::dl(&t)), (&ka, &kb, &kt), (&d0, &d1, &d2)).map_err(es)), format!("commitment {} is the default one", j))?;
                }
                // a statement about neutral values with the commitments of other values
                let z = els::<$m::LM>(&vec![F::zero(); n]);
                refuse(guard(|| $m::Arg::<Blake2b>::prove((&z, &vb, &El::dl(&F::zero())), (&ka, &kb, &kt), (&c0, &c1, &c2)).map_err(es)), "the commitments belong to other vectors".into())?;
                let cm = $m::honest_com(&k, &a, &b);
                let (mut a2, mut b2) = (a.clone(), b.clone());
                a2.reverse();
                b2.reverse();
                if n > 1 {
                    refuse(guard(|| $m::prove::<Blake2b>(&k, &a2, &b2, t, &cm)), "the vectors are in another order than the committed ones".into())?;
                }
                refuse(guard(|| $m::prove::<Blake2b>(&k, &a, &b, F::zero(), &cm)), "the product is not neutral".into())
            });
        }
        for n in [0usize, 3, 5, 6, 7, 9, 10, 12, 24, 48, 65, 127, 160] {
            c.case(format!("length {} {}", $m::NAME, n), |rng| {
                let k = rand_keys(rng, n, false);
                let (a, b) = (vecf(rng, n, false), vecf(rng, n, false));
                let cm = $m::honest_com(&k, &a, &b);
                refuse(guard(|| $m::prove::<Blake2b>(&k, &a, &b, dot(&a, &b), &cm)), format!("the length {} is not a power of two", n))
            });
        }
        for (n, m) in [(1usize, 2usize), (2, 1), (4, 8), (8, 4), (4, 3), (3, 4), (1, 0), (0, 1), (32, 64), (64, 32), (64, 65)] {
            c.case(format!("lengths {} {} {}", $m::NAME, n, m), |rng| {
                let k = Keys { a: vecf(rng, n, false), b: vecf(rng, m, false), t: nz(rng) };
                let (a, b) = (vecf(rng, n, false), vecf(rng, m, false));
                let cm = $m::honest_com(&k, &a, &b);
                refuse(guard(|| $m::prove::<Blake2b>(&k, &a, &b, dot(&a, &b), &cm)), format!("the lengths {} and {} differ", n, m))
            });
        }
    }};
}
pub fn c05(c: &mut Ctx) {
    all_gipa!(c05_one, c);
}

macro_rules! c06_one {
    ($m:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in [6usize, 8] {
            c.case(format!("constructed {} rounds={}", $m::NAME, rounds), |rng| {
                let (k, p, ch, cm) = $m::forge::<Mock>(rng, rounds, false);
                tri($m::verify::<Mock>(&k, &cm, &p), true, "constructed proof")?;
                let j = rng.gen_range(0..3);
                let mut c2 = cm;
                c2[j] += nz(rng);
                tri($m::verify::<Mock>(&k, &c2, &p), false, &format!("commitment {} changed", j))?;
                let i = [k.a.len() - 1, k.a.len() / 2, rng.gen_range(0..k.a.len())][rng.gen_range(0..3usize)];
                let mut k2 = k.clone();
                k2.a[i] += nz(rng);
                tri($m::verify::<Mock>(&k2, &cm, &p), holds($m::K, &k2, &p, &ch, &cm), "left key changed")?;
                let mut k2 = k.clone();
                k2.b[i] += nz(rng);
                tri($m::verify::<Mock>(&k2, &cm, &p), holds($m::K, &k2, &p, &ch, &cm), "right key changed")?;
                for r in [0, rounds - 1] {
                    let mut p2 = p.clone();
                    p2.steps[r].0[j] += nz(rng);
                    let ch2 = $m::chals::<Mock>(&p2);
                    tri($m::verify::<Mock>(&k, &cm, &p2), holds($m::K, &k, &p2, &ch2, &cm), &format!("round {} element {} changed", r, j))?;
                }
                Ok(())
            });
        }
        let maxr = if c.thorough { 5 } else { 4 };
        for rounds in 0..=maxr {
            for edgy in [false, true] {
                c.case(format!("constructed {} rounds={} edgy={}", $m::NAME, rounds, edgy), |rng| {
                    let (k, p, ch, cm) = $m::forge::<Mock>(rng, rounds, edgy);
                    tri($m::verify::<Mock>(&k, &cm, &p), true, "constructed proof")?;
                    for j in 0..3 {
                        let mut c2 = cm;
                        c2[j] += nz(rng);
                        tri($m::verify::<Mock>(&k, &c2, &p), false, &format!("commitment {} changed", j))?;
                    }
                    // errors that would cancel each other in a combined check
                    let d = nz(rng);
                    for (i, j) in [(0, 1), (0, 2), (1, 2)] {
                        let mut c2 = cm;
                        c2[i] += d;
                        c2[j] -= d;
                        tri($m::verify::<Mock>(&k, &c2, &p), false, &format!("commitments {} and {} changed oppositely", i, j))?;
                    }
                    // final messages
                    for (da, db) in [(F::one(), F::zero()), (F::zero(), F::one()), (F::rand(rng), F::rand(rng))] {
                        let mut p2 = p.clone();
                        p2.base.0 += da;
                        p2.base.1 += db;
                        tri($m::verify::<Mock>(&k, &cm, &p2), holds($m::K, &k, &p2, &ch, &cm), "final messages changed")?;
                    }
                    // keys
                    let n = k.a.len();
                    for _ in 0..n.min(4) {
                        let i = rng.gen_range(0..n);
                        let mut k2 = k.clone();
                        k2.a[i] += nz(rng);
                        tri($m::verify::<Mock>(&k2, &cm, &p), holds($m::K, &k2, &p, &ch, &cm), "left key changed")?;
                        let mut k2 = k.clone();
                        k2.b[i] += nz(rng);
                        tri($m::verify::<Mock>(&k2, &cm, &p), holds($m::K, &k2, &p, &ch, &cm), "right key changed")?;
                        if n > 1 {
                            let j = (i + 1 + rng.gen_range(0..n - 1)) % n;
                            let mut k2 = k.clone();
                            k2.a.swap(i, j);
                            tri($m::verify::<Mock>(&k2, &cm, &p), holds($m::K, &k2, &p, &ch, &cm), "left keys swapped")?;
                            let mut k2 = k.clone();
                            k2.b.swap(i, j);
                            tri($m::verify::<Mock>(&k2, &cm, &p), holds($m::K, &k2, &p, &ch, &cm), "right keys swapped")?;
                        }
                    }
                    let mut k2 = k.clone();
                    k2.t += F::one();
                    tri($m::verify::<Mock>(&k2, &cm, &p), holds($m::K, &k2, &p, &ch, &cm), "product key changed")?;
                    // round elements
                    for r in 0..rounds {
                        for j in 0..3 {
                            for side in 0..2 {
                                let mut p2 = p.clone();
                                let s = if side == 0 { &mut p2.steps[r].0 } else { &mut p2.steps[r].1 };
                                s[j] += nz(rng);
                                let ch2 = $m::chals::<Mock>(&p2);
                                tri($m::verify::<Mock>(&k, &cm, &p2), holds($m::K, &k, &p2, &ch2, &cm), &format!("round {} element {} changed", r, j))?;
                            }
                        }
                        let mut p2 = p.clone();
                        let s = p2.steps[r].clone();
                        p2.steps[r] = (s.1, s.0);
                        let ch2 = $m::chals::<Mock>(&p2);
                        tri($m::verify::<Mock>(&k, &cm, &p2), holds($m::K, &k, &p2, &ch2, &cm), "round elements exchanged")?;
                    }
                    Ok(())
                });
            }
        }
        for (rk, rp) in [(0usize, 1usize), (1, 0), (1, 2), (2, 1), (2, 0), (2, 3), (3, 1), (3, 4)] {
            c.case(format!("rounds {} keys=2^{} rounds={}", $m::NAME, rk, rp), |rng| {
                // equations that hold for the first or for all keys must not suffice
                let p = rand_dl(rng, rp, false, $m::K);
                let ch = $m::chals::<Mock>(&p);
                let mut k = rand_keys(rng, 1 << rk, false);
                let full = rand_keys(rng, 1 << rp, false);
                for i in 0..k.a.len().min(full.a.len()) {
                    k.a[i] = full.a[i];
                    k.b[i] = full.b[i];
                }
                k.t = full.t;
                let cm = solve($m::K, &full, &p, &ch);
                tri($m::verify::<Mock>(&k, &cm, &p), false, "number of rounds does not match the keys")?;
                let sub = Keys { a: k.a[..1].to_vec(), b: k.b[..1].to_vec(), t: k.t };
                let cm = solve_at($m::K, sub.a[0], sub.b[0], k.t, &p, &ch, p.base.1);
                tri($m::verify::<Mock>(&k, &cm, &p), false, "number of rounds does not match the keys")?;
                let z: Vec<F> = vec![F::zero(); k.a.len()];
                let kz = Keys { a: z.clone(), b: z, t: k.t };
                let cm = solve_at($m::K, F::zero(), F::zero(), k.t, &p, &ch, p.base.1);
                tri($m::verify::<Mock>(&kz, &cm, &p), false, "number of rounds does not match (neutral keys)")
            });
        }
        for (na, nb) in [(2usize, 4usize), (4, 2), (3, 3), (6, 6), (4, 3), (8, 4), (4, 8), (5, 8), (0, 0)] {
            c.case(format!("key lengths {} {} {}", $m::NAME, na, nb), |rng| {
                for rounds in 0..=4 {
                    let p = rand_dl(rng, rounds, false, $m::K);
                    let ch = $m::chals::<Mock>(&p);
                    let full = rand_keys(rng, 1 << rounds, false);
                    let cut = |v: &Vec<F>, n: usize| (0..n).map(|i| v.get(i).cloned().unwrap_or(F::zero())).collect::<Vec<_>>();
                    let k = Keys { a: cut(&full.a, na), b: cut(&full.b, nb), t: full.t };
                    let mut padded = full.clone();
                    for i in 0..(1 << rounds) {
                        if i >= na {
                            padded.a[i] = F::zero();
                        }
                        if i >= nb {
                            padded.b[i] = F::zero();
                        }
                    }
                    let cm = solve($m::K, &padded, &p, &ch);
                    tri($m::verify::<Mock>(&k, &cm, &p), false, "key lengths are not equal powers of two")?;
                }
                Ok(())
            });
        }
        c.case(format!("retries {}", $m::NAME), |rng| {
            for rej in [1u64, 2, 5] {
                set_mode(Mode::RejectBelow(rej));
                let (k, p, _, cm) = $m::forge::<Mock>(rng, 2, false);
                tri($m::verify::<Mock>(&k, &cm, &p), true, "proof whose first digests are unusable")?;
                let mut c2 = cm;
                c2[2] += F::one();
                tri($m::verify::<Mock>(&k, &c2, &p), false, "changed commitment, first digests unusable")?;
            }
            Ok(())
        });
    }};
}
pub fn c06(c: &mut Ctx) {
    all_gipa!(c06_one, c);
    c.case("surplus product entry", |rng| {
        for rounds in 0..3usize {
            let (k, p, _, cm) = pair::forge::<Mock>(rng, rounds, false);
            let (ka, kb) = (els::<G2>(&k.a), els::<G1>(&k.b));
            let c0 = pair::coms(&cm);
            let surplus = IdentityOutput(vec![gt(cm[2]), gt(nz(rng))]);
            let pr = pair::build::<Mock>(&p);
            let r = guard(|| pair::Arg::<Mock>::verify((&ka, &kb, &Ph), (&c0.0, &c0.1, &surplus), &pr).map_err(|e| e.to_string()));
            tri(r, false, "a product commitment with a surplus entry")?;
        }
        Ok(())
    });
}

/// the digests of one run must be exactly one accepted attempt per round, in order
pub fn check_log(log: &[Vec<u8>], want: &[Vec<u8>], who: &str) -> Res {
    if log.len() != want.len() {
        return Err(format!("{} hashed {} inputs where {} are due", who, log.len(), want.len()));
    }
    for (i, (l, w)) in log.iter().zip(want).enumerate() {
        if l != w {
            return Err(format!("{}: hash input {} is not counter, previous challenge and all round elements", who, i));
        }
    }
    Ok(())
}
pub fn attempts(rej: u64, parts: Vec<u8>) -> Vec<Vec<u8>> {
    (0..=rej)
        .map(|n| {
            let mut v = n.to_be_bytes().to_vec();
            v.extend_from_slice(&parts);
            v
        })
        .collect()
}
/// attempts at a challenge read as a field element, under the digest mode in force
pub fn attempts_until_field(parts: Vec<u8>) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for n in 0u64.. {
        let mut v = n.to_be_bytes().to_vec();
        v.extend_from_slice(&parts);
        let ok = F::from_random_bytes(&Mock::digest(&v)).is_some();
        out.push(v);
        if ok {
            break;
        }
    }
    out
}
macro_rules! c07_one {
    ($m:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in 0..=(if c.thorough { 5 } else { 4 }) {
            for rej in [0u64, 1, 3, 300] {
                if rej == 300 && rounds != 1 {
                    continue;
                }
                c.case(format!("transcript {} rounds={} unusable={}", $m::NAME, rounds, rej), |rng| {
                    let n = 1usize << rounds;
                    let k = rand_keys(rng, n, false);
                    let (a, b) = (vecf(rng, n, false), vecf(rng, n, false));
                    let cm = $m::honest_com(&k, &a, &b);
                    set_mode(Mode::RejectBelow(rej));
                    let (p, lp) = record(|| $m::prove::<Mock>(&k, &a, &b, dot(&a, &b), &cm));
                    let p = p?;
                    let (v, lv) = record(|| $m::verify_real::<Mock>(&k, &cm, &p));
                    let mut want = vec![];
                    let parts: $m::Parts = remake(&p);
                    must(parts.0.len() == rounds, "number of rounds")?;
                    let ch = $m::chals_steps::<Mock>(&parts.0);
                    let mut prev = F::zero();
                    for (s, c) in parts.0.iter().rev().zip(&ch) {
                        let mut h = ser(&prev);
                        h.extend($m::step_bytes(s));
                        want.extend(attempts(rej, h));
                        prev = *c;
                    }
                    check_log(&lp, &want, "prover")?;
                    check_log(&lv, &want, "verifier")?;
                    verdict(v, true, "honest proof")?;
                    // the challenges used are the ones of the log: the folded equations of the reference hold
                    let (k, p, _, cm) = $m::forge::<Mock>(rng, rounds, false);
                    tri($m::verify::<Mock>(&k, &cm, &p), true, "constructed proof")
                });
            }
        }
        c.case(format!("challenges {}", $m::NAME), |rng| {
            for rounds in [0usize, 1, 2, 3, 9, 33] {
                let p = rand_dl(rng, rounds, false, $m::K);
                let cm = $m::coms(&[F::one(), F::one(), F::one()]);
                let pr = $m::build::<Mock>(&p);
                let (_, t) = $m::Arg::<Mock>::verify_recursive_challenge_transcript((&cm.0, &cm.1, &cm.2), &pr).map_err(|e| e.to_string())?;
                must(t == rev(&$m::chals::<Mock>(&p)), "challenges of the transcript helper")?;
                must(t.iter().all(|x| !x.is_zero()), "zero challenge")?;
            }
            Ok(())
        });
    }};
}
pub fn c07(c: &mut Ctx) {
    all_gipa!(c07_one, c);
    crate::p_tipa::c07(c);
}

/// clone, compressed and uncompressed round trip of a proof whose parts encode to `bytes`
pub fn faithful<P: Clone + CanonicalSerialize + CanonicalDeserialize>(pr: &P, bytes: &[u8]) -> Res {
    must(ser(pr) == bytes, "serialized proof does not contain its parts")?;
    must(ser(&pr.clone()) == bytes, "clone differs from the original")?;
    let mut cmp = vec![];
    pr.serialize_compressed(&mut cmp).map_err(|e| e.to_string())?;
    must(cmp.len() == pr.compressed_size() && bytes.len() == pr.uncompressed_size(), "announced size")?;
    let b1 = P::deserialize_compressed(&cmp[..]).map_err(|e| format!("cannot read a proof back: {:?}", e))?;
    let b2 = P::deserialize_uncompressed_unchecked(bytes).map_err(|e| format!("cannot read a proof back: {:?}", e))?;
    must(ser(&b1) == bytes && ser(&b2) == bytes, "a proof read back differs")
}
macro_rules! c24_one {
    ($m:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rounds in 0..=4usize {
            c.case(format!("copies {} rounds={}", $m::NAME, rounds), |rng| {
                let (k, p, _, cm) = $m::forge::<Mock>(rng, rounds, false);
                let pr = $m::build::<Mock>(&p);
                let bytes = ser(&$m::parts(&p));
                must(ser(&pr) == bytes, "serialized proof does not contain its parts")?;
                let cl = pr.clone();
                must(ser(&cl) == bytes, "clone differs from the original")?;
                let mut cmp = vec![];
                pr.serialize_compressed(&mut cmp).map_err(|e| e.to_string())?;
                must(cmp.len() == pr.compressed_size() && bytes.len() == pr.uncompressed_size(), "announced size")?;
                let b1 = $m::Proof::<Mock>::deserialize_compressed(&cmp[..]).map_err(|e| format!("cannot read a proof back: {:?}", e))?;
                let b2 = $m::Proof::<Mock>::deserialize_uncompressed(&bytes[..]).map_err(|e| format!("cannot read a proof back: {:?}", e))?;
                must(ser(&b1) == bytes && ser(&b2) == bytes, "a proof read back differs")?;
                for q in [&pr, &cl, &b1, &b2] {
                    verdict($m::verify_real::<Mock>(&k, &cm, q), true, "copy of an accepted proof")?;
                    let mut c2 = cm;
                    c2[0] += F::one();
                    verdict($m::verify_real::<Mock>(&k, &c2, q), false, "copy of a rejected proof")?;
                }
                Ok(())
            });
        }
        for (rounds, edgy) in [(2usize, true), (5, true), (8, false), (9, true), (12, false), (17, true), (33, false), (70, false)] {
            c.case(format!("copies of arbitrary {} rounds={}", $m::NAME, rounds), |rng| {
                let p = rand_dl(rng, rounds, edgy, $m::K);
                faithful(&$m::build::<Mock>(&p), &ser(&$m::parts(&p)))
            });
        }
    }};
}
pub fn c24(c: &mut Ctx) {
    all_gipa!(c24_one, c);
    crate::p_tipa::c24(c);
}

macro_rules! c26_one {
    ($m:ident, $c:expr) => {{
        let c: &mut Ctx = $c;
        for rk in 0..=4usize {
            for rp in 0..=7usize {
                if rk == rp {
                    continue;
                }
                c.case(format!("malformed {} keys=2^{} rounds={}", $m::NAME, rk, rp), |rng| {
                    let p = rand_dl(rng, rp, rp % 2 == 0, $m::K);
                    let k = rand_keys(rng, 1 << rk, false);
                    let v = vecf(rng, 3, false);
                    calm($m::verify::<Mock>(&k, &[v[0], v[1], v[2]], &p), "wrong number of rounds")
                });
            }
        }
        for (na, nb) in [(2usize, 4usize), (4, 2), (4, 1), (1, 4)] {
            c.case(format!("unequal keys {} {} {}", $m::NAME, na, nb), |rng| {
                let k = Keys { a: vecf(rng, na, false), b: vecf(rng, nb, false), t: nz(rng) };
                for rounds in 0..4 {
                    let p = rand_dl(rng, rounds, false, $m::K);
                    calm($m::verify::<Mock>(&k, &[F::zero(); 3], &p), "keys of different length")?;
                }
                Ok(())
            });
        }
        c.case(format!("many rounds {}", $m::NAME), |rng| {
            let p = rand_dl(rng, 70, false, [Kind::Dot; 3]);
            let k = rand_keys(rng, 4, false);
            calm($m::verify::<Mock>(&k, &[F::one(); 3], &p), "70 rounds")
        });
    }};
}
pub fn c26(c: &mut Ctx) {
    all_gipa!(c26_one, c);
    crate::p_tipa::c26(c);
    crate::p_apps::c26(c);
}

/// C27. Every argument below answers with the same challenges whatever commitments are given; the listed
/// known finding is demonstrated by choosing the claimed values after the challenges.
pub fn c27(c: &mut Ctx) {
    macro_rules! demo {
        ($m:ident, $j:expr, $what:expr) => {{
            let mut bad = None;
            let c: &mut Ctx = c;
            c.case(format!("late choice {} {}", $m::NAME, $what), |rng| {
                let n = 4usize;
                let k = rand_keys(rng, n, false);
                let (a, b) = (vecf(rng, n, false), vecf(rng, n, false));
                let cm = $m::honest_com(&k, &a, &b);
                // random round elements for the chosen component, honest ones otherwise: take an honest proof
                // and change what the component claims after its challenges are known.
                let p = rand_dl(rng, 2, false, $m::K);
                let ch = $m::chals::<Mock>(&p);
                let late = solve($m::K, &k, &p, &ch);
                // the commitment `late[$j]` was chosen last, it is not a commitment of any witness consistent
                // with the others except by accident
                if let Ok(Ok(true)) = $m::verify::<Mock>(&k, &late, &p) {
                    if late != cm {
                        bad = Some(format!("{}: {} chosen after the challenges is accepted", $m::NAME, $what));
                    }
                }
                Ok(())
            });
            if let Some(b) = bad {
                c.known.push(b);
            }
        }};
    }
    demo!(pair, 2, "gipa-verify");
    demo!(mexp, 2, "gipa-verify");
    demo!(scal, 2, "gipa-verify");
    crate::p_tipa::c27(c);
    crate::p_apps::c27(c);
}
