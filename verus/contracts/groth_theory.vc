@ghost root
// ---------------------------------------------------------------------------------------------
// Theory of Groth16 aggregation
// ---------------------------------------------------------------------------------------------
pub open spec fn hmul(a: Seq<Fr>, b: Seq<Fr>) -> Seq<Fr> { Seq::new(a.len(), |i: int| a[i] * b[i]) }
/// 1 + r + ... + r^(n-1)
pub open spec fn geom(r: Fr, n: nat) -> Fr decreases n { if n == 0 { f0() } else { geom(r, (n - 1) as nat) + fpow(r, (n - 1) as nat) } }
/// combination challenge: first usable digest of retry counter and all three commitments
pub open spec fn rhin(n: usize, a: Fr, b: Fr, c: Fr) -> Seq<u8> { be8(n) + ser_GT(a) + ser_GT(b) + ser_GT(c) }
pub open spec fn rcand(n: usize, a: Fr, b: Fr, c: Fr) -> Option<Fr> { frb(hash(rhin(n, a, b, c))) }
pub open spec fn is_rchal(n: usize, a: Fr, b: Fr, c: Fr) -> bool { rcand(n, a, b, c).is_some() && forall|m: usize| m < n ==> #[trigger] rcand(m, a, b, c).is_none() }
pub open spec fn rchal(a: Fr, b: Fr, c: Fr) -> Fr { rcand(choose|n: usize| is_rchal(n, a, b, c), a, b, c)->Some_0 }
/// assumed: some retry counter below 2^64-1 gives a usable digest
pub axiom fn ax_rusable(a: Fr, b: Fr, c: Fr) ensures exists|n: usize| n < usize::MAX && #[trigger] is_rchal(n, a, b, c);
pub proof fn rchal_is(n: usize, a: Fr, b: Fr, c: Fr) requires is_rchal(n, a, b, c) ensures rcand(n, a, b, c) == Some(rchal(a, b, c)) {
    let m = choose|n: usize| is_rchal(n, a, b, c);
    if m < n { assert(rcand(m, a, b, c).is_none()); }
    if n < m { assert(rcand(n, a, b, c).is_none()); }
}
/// a Groth16 verification key and the equation of one proof, in exponents
pub struct GVk { pub alpha: Fr, pub beta: Fr, pub gamma: Fr, pub delta: Fr, pub abc: Seq<Fr> }
pub open spec fn ic_term(abc: Seq<Fr>, x: Seq<Fr>) -> spec_fn(int) -> Fr { |j: int| abc[j + 1] * x[j] }
pub open spec fn ic(abc: Seq<Fr>, x: Seq<Fr>) -> Fr { abc[0] + sumr(ic_term(abc, x), 0, abc.len() - 1) }
pub open spec fn groth_ok(vk: GVk, a: Fr, b: Fr, c: Fr, x: Seq<Fr>) -> bool { a * b == (vk.alpha * vk.beta + ic(vk.abc, x) * vk.gamma) + c * vk.delta }
/// the inputs at position j of the first n proofs
pub open spec fn col(xs: Seq<Seq<Fr>>, n: nat, j: int) -> Seq<Fr> { Seq::new(n, |i: int| xs[i][j]) }
pub open spec fn gic_term(abc: Seq<Fr>, xs: Seq<Seq<Fr>>, r: Fr, n: nat) -> spec_fn(int) -> Fr { |j: int| abc[j + 1] * dot(col(xs, n, j), powers(r, n)) }
/// combined input commitment of the first n proofs
pub open spec fn gic(abc: Seq<Fr>, xs: Seq<Seq<Fr>>, r: Fr, n: nat) -> Fr { abc[0] * geom(r, n) + sumr(gic_term(abc, xs, r, n), 0, abc.len() - 1) }
/// the randomly combined equation over the first n proofs
pub open spec fn agg_ppe(vk: GVk, xs: Seq<Seq<Fr>>, r: Fr, n: nat, ab: Fr, c: Fr) -> bool {
    ab == ((vk.alpha * geom(r, n)) * vk.beta + gic(vk.abc, xs, r, n) * vk.gamma) + c * vk.delta
}
pub proof fn geom_closed(r: Fr, n: nat) ensures geom(r, n) * (r - f1()) == fpow(r, n) - f1() decreases n {
    let d = r - f1();
    if n == 0 { mul_zero(d); sub_zero(f1(), f1()); }
    else {
        let m = (n - 1) as nat;
        geom_closed(r, m);
        let (g, p) = (geom(r, m), fpow(r, m));
        dist_r(g, p, d);
        ax_dist(p, r, -f1()); neg_mul(p, f1()); ax_mul_one(p);
        let (q, u) = (p * r, -f1());
        // (p - 1) + (q - p) == q - 1
        assert((p + u) + (q + (-p)) == (q + u) + (p + (-p))) by { let v = -p; broadcast use addac; }
        ax_neg(p); ax_add_zero(q + u);
    }
}
pub proof fn geom_div(r: Fr, n: nat) requires r != f1() ensures r - f1() != f0(), (fpow(r, n) - f1()) * finv(r - f1()) == geom(r, n) {
    sub_zero(r, f1());
    geom_closed(r, n);
    let d = r - f1();
    ax_inv(d); ax_mul_assoc(geom(r, n), d, finv(d)); ax_mul_one(geom(r, n));
}
pub proof fn fpow_inv(r: Fr, i: nat) requires r != f0() ensures fpow(r, i) * fpow(finv(r), i) == f1(), fpow(r, i) != f0(), finv(fpow(r, i)) == fpow(finv(r), i) {
    ax_inv(r); fpow_mul(r, finv(r), i); fpow_one(i); fpow_nz(r, i);
    ax_inv(fpow(r, i));
    ax_mul_comm(fpow(r, i), fpow(finv(r), i)); ax_mul_comm(fpow(r, i), finv(fpow(r, i)));
    mul_cancel(finv(fpow(r, i)), fpow(finv(r), i), fpow(r, i));
}
pub proof fn dot_snoc(a: Seq<Fr>, b: Seq<Fr>, x: Fr, y: Fr) requires a.len() == b.len() ensures dot(a.push(x), b.push(y)) == dot(a, b) + x * y {
    dot_concat(a, seq![x], b, seq![y]); dot1(x, y);
    assert(a + seq![x] =~= a.push(x)); assert(b + seq![y] =~= b.push(y));
}
pub proof fn powers_snoc(r: Fr, n: nat) ensures powers(r, n + 1) == powers(r, n).push(fpow(r, n)) { assert(powers(r, n + 1) =~= powers(r, n).push(fpow(r, n))); }
/// one more proof in the combined input commitment
#[verifier::spinoff_prover]
pub proof fn gic_step(abc: Seq<Fr>, xs: Seq<Seq<Fr>>, r: Fr, n: nat)
    requires abc.len() > 0
    ensures gic(abc, xs, r, n + 1) == gic(abc, xs, r, n) + ic(abc, xs[n as int]) * fpow(r, n)
{
    let p = fpow(r, n);
    let m = abc.len() - 1;
    let f = gic_term(abc, xs, r, n); let g = gic_term(abc, xs, r, n + 1);
    let h = ic_term(abc, xs[n as int]);
    assert forall|j: int| 0 <= j < m implies #[trigger] g(j) == (|j: int| f(j) + (|k: int| h(k) * p)(j))(j) by {
        assert(col(xs, n + 1, j) =~= col(xs, n, j).push(xs[n as int][j]));
        powers_snoc(r, n);
        let (b, d, x) = (abc[j + 1], dot(col(xs, n, j), powers(r, n)), xs[n as int][j]);
        dot_snoc(col(xs, n, j), powers(r, n), x, p);
        ax_dist(b, d, x * p); ax_mul_assoc(b, x, p);
    }
    sumr_cong(g, |j: int| f(j) + (|k: int| h(k) * p)(j), 0, m);
    sumr_add(f, |k: int| h(k) * p, 0, m);
    sumr_scale(h, p, 0, m);
    let (s, t, q, w) = (sumr(f, 0, m), sumr(h, 0, m), geom(r, n), abc[0]);
    ax_dist(w, q, p);
    dist_r(w, t, p);
    let (e, o, z) = (w * q, w * p, t * p);
    assert((e + o) + (s + z) == (e + s) + (o + z)) by { broadcast use addac; }
}
/// C13: valid proofs satisfy the combined equation
#[verifier::spinoff_prover]
pub proof fn agg_honest(vk: GVk, a: Seq<Fr>, b: Seq<Fr>, c: Seq<Fr>, xs: Seq<Seq<Fr>>, r: Fr, n: nat)
    requires n <= a.len(), n <= b.len(), n <= c.len(), n <= xs.len(), vk.abc.len() > 0, forall|i: int| 0 <= i < n ==> #[trigger] groth_ok(vk, a[i], b[i], c[i], xs[i])
    ensures agg_ppe(vk, xs, r, n, dot(hmul(a.take(n as int), powers(r, n)), b.take(n as int)), dot(c.take(n as int), powers(r, n))) //#C13
    decreases n
{
    let ga = vk.gamma; let de = vk.delta;
    if n == 0 {
        let abc = vk.abc;
        assert(gic(abc, xs, r, 0) == f0()) by {
            mul_zero(abc[0]);
            assert forall|j: int| 0 <= j < abc.len() - 1 implies #[trigger] gic_term(abc, xs, r, 0)(j) == f0() by { mul_zero(abc[j + 1]); }
            sumr_zero(gic_term(abc, xs, r, 0), 0, abc.len() - 1); add_z(f0());
        }
        mul_zero(vk.alpha); mul_zero(vk.beta); mul_zero(ga); mul_zero(de); add_z(f0());
    } else {
        let m = (n - 1) as nat; let mi = m as int; let ni = n as int;
        agg_honest(vk, a, b, c, xs, r, m);
        let p = fpow(r, m);
        powers_snoc(r, m);
        assert(hmul(a.take(ni), powers(r, n)) =~= hmul(a.take(mi), powers(r, m)).push(a[mi] * p));
        assert(b.take(ni) =~= b.take(mi).push(b[mi])); assert(c.take(ni) =~= c.take(mi).push(c[mi]));
        dot_snoc(hmul(a.take(mi), powers(r, m)), b.take(mi), a[mi] * p, b[mi]);
        dot_snoc(c.take(mi), powers(r, m), c[mi], p);
        gic_step(vk.abc, xs, r, m);
        assert(groth_ok(vk, a[mi], b[mi], c[mi], xs[mi]));
        let i1 = ic(vk.abc, xs[mi]);
        assert((a[mi] * p) * b[mi] == (a[mi] * b[mi]) * p) by { let (x, y) = (a[mi], b[mi]); broadcast use mulac; }
        agg_alg(vk.alpha, vk.beta, ga, de, geom(r, m), p, gic(vk.abc, xs, r, m), i1, dot(c.take(mi), powers(r, m)), c[mi]);
    }
}
/// (S + (al be + i ga + c de) p), S the equation so far, is the equation one further
pub proof fn agg_alg(al: Fr, be: Fr, ga: Fr, de: Fr, g: Fr, p: Fr, q: Fr, i: Fr, d: Fr, c: Fr)
    ensures (((al * g) * be + q * ga) + d * de) + ((al * be + i * ga) + c * de) * p == ((al * (g + p)) * be + (q + i * p) * ga) + (d + c * p) * de
{
    let (x, y, z) = (al * be, i * ga, c * de);
    dist_r(x + y, z, p); dist_r(x, y, p);
    ax_dist(al, g, p); dist_r(al * g, al * p, be); dist_r(q, i * p, ga); dist_r(d, c * p, de);
    assert((al * be) * p == (al * p) * be) by { broadcast use mulac; }
    assert((i * ga) * p == (i * p) * ga) by { broadcast use mulac; }
    assert((c * de) * p == (c * p) * de) by { broadcast use mulac; }
    let (s, t, u, v, w, o) = ((al * g) * be, q * ga, d * de, x * p, y * p, z * p);
    let l = ((s + t) + u) + ((v + w) + o);
    add6(s, t, u, v, w, o);
}
pub proof fn add6(s: Fr, t: Fr, u: Fr, v: Fr, w: Fr, o: Fr) ensures ((s + t) + u) + ((v + w) + o) == ((s + v) + (t + w)) + (u + o) {
    add4(s + t, u, v + w, o); add4(s, t, v, w);
}
pub proof fn add4(a: Fr, b: Fr, c: Fr, d: Fr) ensures (a + b) + (c + d) == (a + c) + (b + d) { broadcast use addac; }
/// shifting messages by powers of r and keys by the inverse powers keeps the commitment
#[verifier::spinoff_prover]
pub proof fn shift_com(a: Seq<Fr>, k: Seq<Fr>, r: Fr, n: nat)
    requires a.len() == n, k.len() == n, r != f0()
    ensures dot(a, k) == dot(hmul(a, powers(r, n)), hmul(k, invs(powers(r, n))))
{
    let ar = hmul(a, powers(r, n)); let kr = hmul(k, invs(powers(r, n)));
    assert forall|i: int| 0 <= i < n implies #[trigger] prods(a, k)(i) == prods(ar, kr)(i) by {
        let p = fpow(r, i as nat); fpow_nz(r, i as nat); ax_inv(p);
        r_sw(a[i], p, k[i], finv(p)); ax_mul_one(a[i] * k[i]);
    }
    sumr_cong(prods(a, k), prods(ar, kr), 0, n as int);
}
pub proof fn shift_ekey(x: Fr, r: Fr, n: nat) requires r != f0() ensures hmul(ekey(x, f1(), n), invs(powers(r, n))) == ekey(x, finv(r), n) {
    assert forall|i: int| 0 <= i < n implies hmul(ekey(x, f1(), n), invs(powers(r, n)))[i] == ekey(x, finv(r), n)[i] by {
        fpow_one(i as nat); ax_mul_one(fpow(x, (2 * i) as nat)); fpow_inv(r, i as nat);
    }
    assert(hmul(ekey(x, f1(), n), invs(powers(r, n))) =~= ekey(x, finv(r), n));
}
@end
