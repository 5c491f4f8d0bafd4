//! C01 - C03: inner products and commitments.
use crate::core::*;

fn ip_case<IP>(rng: &mut R, n: usize, edgy: bool, pool: usize) -> Res
where
    IP: InnerProduct,
    IP::LeftMessage: El + Send + Sync,
    IP::RightMessage: El + Send + Sync,
    IP::Output: El + Send,
{
    let (a, b) = (vecf(rng, n, edgy), vecf(rng, n, edgy));
    let (l, r) = (els::<IP::LeftMessage>(&a), els::<IP::RightMessage>(&b));
    let got = in_pool(pool, || IP::inner_product(&l, &r).map_err(|e| e.to_string()))?;
    must(got == IP::Output::dl(&dot(&a, &b)), format!("inner product of length {} on {} threads is not the sum of products", n, pool))
}
fn ip_mismatch<IP>(rng: &mut R, n: usize, m: usize) -> Res
where
    IP: InnerProduct,
    IP::LeftMessage: El,
    IP::RightMessage: El,
{
    let (l, r) = (els::<IP::LeftMessage>(&vecf(rng, n, true)), els::<IP::RightMessage>(&vecf(rng, m, true)));
    match guard(|| IP::inner_product(&l, &r).is_err()) {
        Ok(true) => Ok(()),
        Ok(false) => Err(format!("lengths {} and {} were answered with a value", n, m)),
        Err(p) => Err(format!("lengths {} and {} crashed: {}", n, m, p)),
    }
}
pub fn c01(c: &mut Ctx) {
    let mut sizes: Vec<usize> = vec![1000, 300, 257, 256];
    sizes.extend(0..=18);
    sizes.extend([31, 32, 33, 50, 64, 65, 127]);
    if c.thorough {
        sizes.extend([19, 23, 29, 96, 128, 129, 200, 511, 512, 513]);
    }
    for &n in &sizes {
        for pool in [1usize, 2, 3, 4, 7, 8, 16] {
            if n > 33 && !(pool == 3 || pool == 8) && !c.thorough {
                continue;
            }
            for edgy in [false, true] {
                if n > 127 && edgy && !c.thorough {
                    continue;
                }
                c.case(format!("pairing n={} threads={} edgy={}", n, pool, edgy), |r| ip_case::<PairingInnerProduct<E>>(r, n, edgy, pool));
                if pool <= 3 {
                    c.case(format!("multiexp-g1 n={} threads={} edgy={}", n, pool, edgy), |r| ip_case::<MultiexponentiationInnerProduct<G1>>(r, n, edgy, pool));
                    c.case(format!("multiexp-g2 n={} threads={} edgy={}", n, pool, edgy), |r| ip_case::<MultiexponentiationInnerProduct<G2>>(r, n, edgy, pool));
                    c.case(format!("scalar n={} threads={} edgy={}", n, pool, edgy), |r| ip_case::<ScalarInnerProduct<F>>(r, n, edgy, pool));
                }
            }
        }
    }
    // bucket and batch sizes of the fast paths: beyond the usual block lengths, and not multiples of them
    for n in [1025usize, 2050, 4099] {
        c.case(format!("multiexp-g1 n={}", n), |r| ip_case::<MultiexponentiationInnerProduct<G1>>(r, n, false, 3));
        c.case(format!("multiexp-g1 n={} edgy", n), |r| ip_case::<MultiexponentiationInnerProduct<G1>>(r, n, true, 8));
        c.case(format!("scalar n={}", 17 * n), |r| ip_case::<ScalarInnerProduct<F>>(r, 17 * n, false, 3));
    }
    c.case("multiexp-g2 n=1030", |r| ip_case::<MultiexponentiationInnerProduct<G2>>(r, 1030, false, 3));
    c.case("multi-pairing helper", |rng| {
        for n in [0usize, 1, 2, 5, 9] {
            let (a, b) = (vecf(rng, n, true), vecf(rng, n, true));
            let got = ark_inner_products::cfg_multi_pairing::<E>(&els::<G1>(&a), &els::<G2>(&b));
            must(got == Some(gt(dot(&a, &b))), "cfg_multi_pairing")?;
        }
        Ok(())
    });
    for (n, m) in [(0, 1), (1, 0), (1, 2), (2, 1), (3, 4), (4, 3), (2, 8), (8, 2), (5, 16), (16, 15), (31, 32), (33, 32), (64, 1), (257, 256), (300, 301)] {
        c.case(format!("pairing lengths {} {}", n, m), |r| ip_mismatch::<PairingInnerProduct<E>>(r, n, m));
        c.case(format!("multiexp-g1 lengths {} {}", n, m), |r| ip_mismatch::<MultiexponentiationInnerProduct<G1>>(r, n, m));
        c.case(format!("multiexp-g2 lengths {} {}", n, m), |r| ip_mismatch::<MultiexponentiationInnerProduct<G2>>(r, n, m));
        c.case(format!("scalar lengths {} {}", n, m), |r| ip_mismatch::<ScalarInnerProduct<F>>(r, n, m));
    }
}

fn dot_commit<C: Dhc>(rng: &mut R, n: usize, edgy: bool) -> Res
where
    C::Key: El,
    C::Message: El,
    C::Output: El,
{
    let (k, m) = (vecf(rng, n, edgy), vecf(rng, n, edgy));
    let (kk, mm) = (els::<C::Key>(&k), els::<C::Message>(&m));
    let got = C::commit(&kk, &mm).map_err(|e| e.to_string())?;
    let d = dot(&k, &m);
    must(got == C::Output::dl(&d), format!("commitment of length {} is not the sum of products", n))?;
    verdict(C::verify(&kk, &mm, &C::Output::dl(&d)), true, "opening")?;
    verdict(C::verify(&kk, &mm, &C::Output::dl(&(d + nz(rng)))), false, "opening of another commitment")?;
    for i in 0..n.min(6) {
        let i = if n <= 6 { i } else { rng.gen_range(0..n) };
        let (mut k2, mut m2) = (k.clone(), m.clone());
        m2[i] += nz(rng);
        verdict(C::verify(&kk, &els(&m2), &got), dot(&k, &m2) == d, "opening with another message")?;
        k2[i] += nz(rng);
        verdict(C::verify(&els(&k2), &mm, &got), dot(&k2, &m) == d, "opening with another key")?;
    }
    if d != F::zero() {
        verdict(C::verify(&kk, &mm, &C::Output::default()), false, "opening of the default commitment")?;
    }
    Ok(())
}
fn dot_lengths<C: Dhc>(rng: &mut R, n: usize, m: usize) -> Res
where
    C::Key: El,
    C::Message: El,
    C::Output: El,
{
    let (k, mm) = (els::<C::Key>(&vecf(rng, n, true)), els::<C::Message>(&vecf(rng, m, true)));
    match guard(|| (C::commit(&k, &mm).is_err(), C::verify(&k, &mm, &C::Output::default()).is_err())) {
        Ok((true, true)) => Ok(()),
        Ok(x) => Err(format!("key of length {} and message of length {}: error from commit, verify: {:?}", n, m, x)),
        Err(p) => Err(format!("key of length {} and message of length {} crashed: {}", n, m, p)),
    }
}
fn setup_len<C: Dhc>(rng: &mut R, n: usize, random: bool) -> Res {
    let k = C::setup(rng, n).map_err(|e| e.to_string())?;
    must(k.len() == n, format!("asked for {} keys, got {}", n, k.len()))?;
    if random {
        for i in 0..n {
            for j in 0..i {
                must(k[i] != k[j], format!("keys {} and {} of {} are equal", j, i, n))?;
            }
            must(k[i] != C::Key::default(), "a key is neutral")?;
        }
    }
    Ok(())
}
fn ident_commit<T: El + Default + Eq + Send + Sync + std::ops::Add<T, Output = T> + std::ops::MulAssign<F>>(rng: &mut R, n: usize) -> Res {
    type C<T> = IdentityCommitment<T, F>;
    let m = vecf(rng, n, true);
    let mm = els::<T>(&m);
    let k = C::<T>::setup(rng, n).map_err(|e| e.to_string())?;
    must(k.len() == n, "number of placeholder keys")?;
    let got = C::<T>::commit(&k, &mm).map_err(|e| e.to_string())?;
    must(got.0 == mm, "identity commitment is not the message")?;
    verdict(C::<T>::verify(&k, &mm, &got), true, "identity opening")?;
    let mut o = got.clone();
    o.0.push(T::default());
    verdict(C::<T>::verify(&k, &mm, &o), false, "identity opening with a surplus entry")?;
    if n > 0 {
        let i = rng.gen_range(0..n);
        let mut m2 = m.clone();
        m2[i] += nz(rng);
        verdict(C::<T>::verify(&k, &els(&m2), &got), false, "identity opening of another message")?;
        let mut o = got.clone();
        o.0.pop();
        verdict(C::<T>::verify(&k, &mm, &o), false, "identity opening with a missing entry")?;
    }
    Ok(())
}
pub fn c02(c: &mut Ctx) {
    let mut sizes = vec![300usize, 0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 33, 65];
    if c.thorough {
        sizes.extend([6, 10, 11, 12, 31, 32, 64, 100, 129, 256]);
    }
    for &n in &sizes {
        for e in [false, true] {
            c.case(format!("pedersen-g1 n={} edgy={}", n, e), |r| dot_commit::<PedersenCommitment<G1>>(r, n, e));
            c.case(format!("pedersen-g2 n={} edgy={}", n, e), |r| dot_commit::<PedersenCommitment<G2>>(r, n, e));
            c.case(format!("afgho-g1 n={} edgy={}", n, e), |r| dot_commit::<AFGHOCommitmentG1<E>>(r, n, e));
            c.case(format!("afgho-g2 n={} edgy={}", n, e), |r| dot_commit::<AFGHOCommitmentG2<E>>(r, n, e));
        }
        c.case(format!("identity-f n={}", n), |r| ident_commit::<F>(r, n));
        c.case(format!("identity-g1 n={}", n), |r| ident_commit::<G1>(r, n));
        c.case(format!("identity-gt n={}", n), |r| ident_commit::<GT>(r, n));
    }
    c.case("pedersen-g1 n=1030", |r| dot_commit::<PedersenCommitment<G1>>(r, 1030, false));
    c.case("pedersen-g2 n=1030", |r| dot_commit::<PedersenCommitment<G2>>(r, 1030, false));
    c.case("afgho-g1 n=1030", |r| dot_commit::<AFGHOCommitmentG1<E>>(r, 1030, false));
    for (n, m) in [(0, 1), (1, 0), (1, 2), (2, 1), (4, 3), (3, 4), (8, 16), (16, 8), (9, 1), (1, 32), (257, 256), (256, 257)] {
        c.case(format!("pedersen-g1 lengths {} {}", n, m), |r| dot_lengths::<PedersenCommitment<G1>>(r, n, m));
        c.case(format!("pedersen-g2 lengths {} {}", n, m), |r| dot_lengths::<PedersenCommitment<G2>>(r, n, m));
        c.case(format!("afgho-g1 lengths {} {}", n, m), |r| dot_lengths::<AFGHOCommitmentG1<E>>(r, n, m));
        c.case(format!("afgho-g2 lengths {} {}", n, m), |r| dot_lengths::<AFGHOCommitmentG2<E>>(r, n, m));
    }
    for n in [0usize, 1, 2, 3, 8, 15, 16, 17, 64, 65, 100, 257] {
        c.case(format!("setup pedersen-g1 {}", n), |r| setup_len::<PedersenCommitment<G1>>(r, n, true));
        c.case(format!("setup pedersen-g2 {}", n), |r| setup_len::<PedersenCommitment<G2>>(r, n, true));
        c.case(format!("setup afgho-g1 {}", n), |r| setup_len::<AFGHOCommitmentG1<E>>(r, n, true));
        c.case(format!("setup afgho-g2 {}", n), |r| setup_len::<AFGHOCommitmentG2<E>>(r, n, true));
        c.case(format!("setup identity {}", n), |r| setup_len::<IdentityCommitment<F, F>>(r, n, false));
        c.case(format!("generators {}", n), |r| {
            let v: Vec<G1> = ark_dh_commitments::random_generators(r, n);
            must(v.len() == n && !v.iter().any(|g| *g == G1::default()), format!("asked for {} generators, got {}", n, v.len()))?;
            must((0..n).all(|i| (0..i).all(|j| v[i] != v[j])), "two generators are equal")
        });
    }
}

fn addv<T: Clone + std::ops::Add<T, Output = T>>(a: &[T], b: &[T]) -> Vec<T> {
    a.iter().cloned().zip(b.iter().cloned()).map(|(x, y)| x + y).collect()
}
fn mulv<T: Clone + std::ops::MulAssign<F>>(a: &[T], s: &F) -> Vec<T> {
    a.iter()
        .map(|x| {
            let mut x = x.clone();
            x *= *s;
            x
        })
        .collect()
}
fn homo<C: Dhc<Scalar = F>>(rng: &mut R, n: usize, edgy: bool, keyed: bool) -> Res
where
    C::Key: El,
    C::Message: El,
{
    let es = |e: crate::core::BoxErr| e.to_string();
    let cm = |k: &[C::Key], m: &[C::Message]| C::commit(k, m).map_err(|e| es(e));
    let (k, k2) = (els::<C::Key>(&vecf(rng, n, edgy)), els::<C::Key>(&vecf(rng, n, edgy)));
    let (m, m2) = (els::<C::Message>(&vecf(rng, n, edgy)), els::<C::Message>(&vecf(rng, n, edgy)));
    must(cm(&k, &addv(&m, &m2))? == cm(&k, &m)? + cm(&k, &m2)?, "sum of messages")?;
    for s in [F::zero(), F::one(), -F::one(), F::rand(rng)] {
        let mut o = cm(&k, &m)?;
        o *= s;
        must(cm(&k, &mulv(&m, &s))? == o, "scaled message")?;
        if keyed {
            must(cm(&mulv(&k, &s), &m)? == o, "scaled key")?;
        }
    }
    if keyed {
        must(cm(&addv(&k, &k2), &m)? == cm(&k, &m)? + cm(&k2, &m)?, "sum of keys")?;
        let (n3, e3) = (rng.gen_range(0..5), edgy);
        let (k3, m3) = (els::<C::Key>(&vecf(rng, n3, e3)), els::<C::Message>(&vecf(rng, n3, e3)));
        let kk: Vec<_> = k.iter().cloned().chain(k3.iter().cloned()).collect();
        let mm: Vec<_> = m.iter().cloned().chain(m3.iter().cloned()).collect();
        must(cm(&kk, &mm)? == cm(&k, &m)? + cm(&k3, &m3)?, "concatenation")?;
    }
    let o = cm(&k, &m)?;
    must(keyed || o.clone() + C::Output::default() == o && C::Output::default() + o.clone() == o, "default output is not neutral")
}
fn out_sum<T: El + Default + Eq + std::fmt::Debug + std::ops::Add<T, Output = T> + std::ops::MulAssign<F>>(rng: &mut R, n: usize, m: usize) -> Res {
    let (a, b) = (vecf(rng, n, true), vecf(rng, m, true));
    let s = IdentityOutput(els::<T>(&a)) + IdentityOutput(els::<T>(&b));
    let w: Vec<F> = (0..n.max(m))
        .map(|i| a.get(i).cloned().unwrap_or(F::zero()) + b.get(i).cloned().unwrap_or(F::zero()))
        .collect();
    must(s.0 == els::<T>(&w), format!("sum of outputs of lengths {} and {} loses or changes entries", n, m))?;
    let f = F::rand(rng);
    let mut o = IdentityOutput(els::<T>(&a));
    o *= f;
    must(o.0 == els::<T>(&a.iter().map(|x| *x * f).collect::<Vec<_>>()), "scaled output")
}
pub fn c03(c: &mut Ctx) {
    let mut sizes = vec![130usize, 0, 1, 2, 3, 4, 5, 8, 11, 16, 33];
    if c.thorough {
        sizes.extend([6, 7, 9, 17, 31, 64]);
    }
    for &n in &sizes {
        for e in [false, true] {
            c.case(format!("pedersen-g1 n={} edgy={}", n, e), |r| homo::<PedersenCommitment<G1>>(r, n, e, true));
            c.case(format!("pedersen-g2 n={} edgy={}", n, e), |r| homo::<PedersenCommitment<G2>>(r, n, e, true));
            c.case(format!("afgho-g1 n={} edgy={}", n, e), |r| homo::<AFGHOCommitmentG1<E>>(r, n, e, true));
            c.case(format!("afgho-g2 n={} edgy={}", n, e), |r| homo::<AFGHOCommitmentG2<E>>(r, n, e, true));
            c.case(format!("identity-f n={} edgy={}", n, e), |r| homo::<IdentityCommitment<F, F>>(r, n, e, false));
            c.case(format!("identity-g1 n={} edgy={}", n, e), |r| homo::<IdentityCommitment<G1, F>>(r, n, e, false));
            c.case(format!("identity-gt n={} edgy={}", n, e), |r| homo::<IdentityCommitment<GT, F>>(r, n, e, false));
            c.case(format!("placeholder n={} edgy={}", n, e), |r| homo::<crate::gipa::SSMPlaceholderCommitment<F>>(r, n, e, false));
        }
    }
    for n in 0..=9usize {
        for m in 0..=9usize {
            c.case(format!("output sum f {} {}", n, m), |r| out_sum::<F>(r, n, m));
            c.case(format!("output sum g1 {} {}", n, m), |r| out_sum::<G1>(r, n, m));
            if n + m < 8 {
                c.case(format!("output sum gt {} {}", n, m), |r| out_sum::<GT>(r, n, m));
            }
        }
    }
}
