@ghost root
// ---------------------------------------------------------------------------------------------
// Theory of the trusted-setup argument: product-form polynomials and their openings
// ---------------------------------------------------------------------------------------------
/// y^(2^i)
pub open spec fn ysq(y: Fr, i: nat) -> Fr decreases i { if i == 0 { y } else { ysq(y, (i - 1) as nat) * ysq(y, (i - 1) as nat) } }
/// product over j < n of 1 + t[j] * y^(2^j)
pub open spec fn pprod(t: Seq<Fr>, y: Fr, n: nat) -> Fr decreases n {
    if n == 0 { f1() } else { pprod(t, y, (n - 1) as nat) * (f1() + t[n - 1] * ysq(y, (n - 1) as nat)) }
}
/// challenges with the powers of the shift multiplied in
pub open spec fn tw(t: Seq<Fr>, r: Fr) -> Seq<Fr> { Seq::new(t.len(), |i: int| t[i] * ysq(r, i as nat)) }
/// coefficients of even powers only
pub open spec fn ilz(c: Seq<Fr>) -> Seq<Fr> { Seq::new((2 * c.len() - 1) as nat, |i: int| if i % 2 == 0 { c[i / 2] } else { f0() }) }
/// value of the key polynomial at z
pub open spec fn keyval(t: Seq<Fr>, z: Fr, r: Fr) -> Fr { pprod(t, (z * z) * r, t.len()) }

pub proof fn fpow_add(a: Fr, m: nat, n: nat) ensures fpow(a, m + n) == fpow(a, m) * fpow(a, n) decreases n {
    if n > 0 { fpow_add(a, m, (n - 1) as nat); assert((m + n - 1) as nat == m + (n - 1) as nat); ax_mul_assoc(fpow(a, m), fpow(a, (n - 1) as nat), a); }
    else { ax_mul_one(fpow(a, m)); }
}
pub proof fn r_sw(a: Fr, b: Fr, c: Fr, d: Fr) ensures (a * b) * (c * d) == (a * c) * (b * d) {
    broadcast use mulac;
    assert((a * b) * (c * d) == a * (b * (c * d)));
    assert(b * (c * d) == c * (b * d));
    assert((a * c) * (b * d) == a * (c * (b * d)));
}
pub proof fn fpow_mul(a: Fr, b: Fr, n: nat) ensures fpow(a * b, n) == fpow(a, n) * fpow(b, n) decreases n {
    if n == 0 { ax_mul_one(f1()); } else { fpow_mul(a, b, (n - 1) as nat); r_sw(fpow(a, (n - 1) as nat), fpow(b, (n - 1) as nat), a, b); }
}
pub proof fn fpow_one(n: nat) ensures fpow(f1(), n) == f1() decreases n { if n > 0 { fpow_one((n - 1) as nat); ax_mul_one(f1()); } }
pub proof fn fpow_nz(a: Fr, n: nat) requires a != f0() ensures fpow(a, n) != f0() decreases n {
    ax_one_ne_zero();
    if n > 0 { fpow_nz(a, (n - 1) as nat); mul_nz(fpow(a, (n - 1) as nat), a); }
}
pub proof fn fpow_dbl(x: Fr, n: nat) ensures fpow(x * x, n) == fpow(x, 2 * n) { fpow_mul(x, x, n); fpow_add(x, n, n); assert(n + n == 2 * n); }
pub proof fn ysq_pow(y: Fr, i: nat) ensures ysq(y, i) == fpow(y, pow2(i)) decreases i {
    vstd::arithmetic::power2::lemma2_to64();
    if i == 0 { reveal_with_fuel(fpow, 2); ax_mul_comm(f1(), y); ax_mul_one(y); }
    else { ysq_pow(y, (i - 1) as nat); half_pow2(i); fpow_add(y, pow2((i - 1) as nat), pow2((i - 1) as nat)); }
}
pub proof fn ysq_mul(a: Fr, b: Fr, i: nat) ensures ysq(a * b, i) == ysq(a, i) * ysq(b, i) { ysq_pow(a * b, i); ysq_pow(a, i); ysq_pow(b, i); fpow_mul(a, b, pow2(i)); }
pub proof fn ysq_nz(a: Fr, i: nat) requires a != f0() ensures ysq(a, i) != f0() { ysq_pow(a, i); fpow_nz(a, pow2(i)); }
pub proof fn powers_split(y: Fr, m: nat, n: nat) ensures powers(y, m + n) == powers(y, m) + pscale(powers(y, n), fpow(y, m)) {
    assert forall|i: int| 0 <= i < m + n implies powers(y, m + n)[i] == (powers(y, m) + pscale(powers(y, n), fpow(y, m)))[i] by {
        if i >= m { fpow_add(y, m, (i - m) as nat); ax_mul_comm(fpow(y, m), fpow(y, (i - m) as nat)); }
    }
    assert(powers(y, m + n) =~= powers(y, m) + pscale(powers(y, n), fpow(y, m)));
}
pub proof fn r_pp(d: Fr, x: Fr, p: Fr) ensures d + (d * x) * p == d * (f1() + x * p) { ax_dist(d, f1(), x * p); ax_mul_one(d); ax_mul_assoc(d, x, p); }
pub proof fn r_tyr(t: Fr, r: Fr, y: Fr) ensures (t * r) * y == t * (y * r) { ax_mul_assoc(t, r, y); ax_mul_comm(r, y); }
/// the coefficient vector evaluates to the product form
#[verifier::spinoff_prover]
pub proof fn expo_prod(t: Seq<Fr>, r: Fr, y: Fr, n: nat)
    requires n <= t.len()
    ensures dot(expo(tw(t, r), n), powers(y, pow2(n))) == pprod(t, y * r, n)
    decreases n
{
    vstd::arithmetic::power2::lemma2_to64();
    let w = tw(t, r);
    if n == 0 {
        assert(powers(y, 1) =~= seq![f1()]);
        dot1(f1(), f1()); ax_mul_one(f1());
    } else {
        let m = (n - 1) as nat;
        expo_prod(t, r, y, m);
        half_pow2(n); expo_len(w, m);
        let e = expo(w, m); let p = powers(y, pow2(m)); let q = fpow(y, pow2(m));
        powers_split(y, pow2(m), pow2(m));
        assert(powers(y, pow2(n)) == p + pscale(p, q));
        dot_concat(e, pscale(e, w[m as int]), p, pscale(p, q));
        dot_scale_r(pscale(e, w[m as int]), p, q);
        dot_scale_l(e, p, w[m as int]);
        r_pp(dot(e, p), w[m as int], q);
        ysq_pow(y, m); ysq_mul(y, r, m);
        r_tyr(t[m as int], ysq(r, m), ysq(y, m));
    }
}
pub proof fn ilz_peval(c: Seq<Fr>, x: Fr)
    requires c.len() > 0
    ensures peval(ilz(c), x) == dot(c, powers(x * x, c.len()))
    decreases c.len()
{
    let n = c.len() as int;
    ilz_sum(c, x, n);
    let z = ilz(c);
    assert forall|i: int| 0 <= i < 2 * n - 1 implies #[trigger] prods(z, powers(x, z.len()))(i) == (|i: int| if i % 2 == 0 { get(c, i / 2) * fpow(x, i as nat) } else { f0() })(i) by {
        if i % 2 != 0 { mul_zero(fpow(x, i as nat)); }
    }
    sumr_cong(prods(z, powers(x, z.len())), |i: int| if i % 2 == 0 { get(c, i / 2) * fpow(x, i as nat) } else { f0() }, 0, 2 * n - 1);
}
pub proof fn ilz_sum(c: Seq<Fr>, x: Fr, n: int)
    requires 0 < n <= c.len()
    ensures sumr(|i: int| if i % 2 == 0 { get(c, i / 2) * fpow(x, i as nat) } else { f0() }, 0, 2 * n - 1) == dotp(c, powers(x * x, c.len()), n)
    decreases n
{
    let f = |i: int| if i % 2 == 0 { get(c, i / 2) * fpow(x, i as nat) } else { f0() };
    let g = prods(c, powers(x * x, c.len()));
    fpow_dbl(x, (n - 1) as nat);
    assert(g(n - 1) == f(2 * n - 2));
    assert(sumr(f, 0, 2 * n - 1) == sumr(f, 0, 2 * n - 2) + f(2 * n - 2));
    assert(sumr(g, 0, n) == sumr(g, 0, n - 1) + g(n - 1));
    if n > 1 {
        ilz_sum(c, x, n - 1);
        assert(sumr(f, 0, 2 * n - 2) == sumr(f, 0, 2 * n - 3) + f(2 * n - 3));
        ax_add_zero(sumr(f, 0, 2 * n - 3));
    } else { assert(sumr(f, 0, 0) == f0()); assert(sumr(g, 0, 0) == f0()); }
}
/// trailing zeros do not change the value of a polynomial
pub proof fn strip_peval(s: Seq<Fr>, c: Seq<Fr>, x: Fr)
    requires stripped(s, c)
    ensures peval(s, x) == peval(c, x)
{
    let n = s.len() as int; let m = c.len() as int;
    let f = prods(s, powers(x, s.len())); let g = prods(c, powers(x, c.len()));
    sumr_split(f, 0, m, n);
    sumr_cong(f, g, 0, m);
    assert forall|i: int| m <= i < n implies #[trigger] f(i) == f0() by { mul_zero(fpow(x, i as nat)); }
    sumr_zero(f, m, n);
    ax_add_zero(sumr(f, 0, m));
}
/// the same with zeros added up to length n
pub open spec fn padto(c: Seq<Fr>, n: nat) -> Seq<Fr> { Seq::new(n, |i: int| if i < c.len() { c[i] } else { f0() }) }
pub proof fn pad_peval(c: Seq<Fr>, n: nat, x: Fr)
    requires c.len() <= n
    ensures peval(padto(c, n), x) == peval(c, x)
{
    let s = padto(c, n); let m = c.len() as int;
    let f = prods(s, powers(x, s.len())); let g = prods(c, powers(x, c.len()));
    sumr_split(f, 0, m, n as int);
    sumr_cong(f, g, 0, m);
    assert forall|i: int| m <= i < n implies #[trigger] f(i) == f0() by { mul_zero(fpow(x, i as nat)); }
    sumr_zero(f, m, n as int);
    ax_add_zero(sumr(f, 0, m));
}
pub proof fn expo_nz(t: Seq<Fr>, n: nat)
    requires nz(t), n <= t.len()
    ensures nz(expo(t, n))
    decreases n
{
    ax_one_ne_zero();
    if n > 0 {
        expo_nz(t, (n - 1) as nat);
        let e = expo(t, (n - 1) as nat);
        let x = t[n - 1];
        assert forall|i: int| 0 <= i < expo(t, n).len() implies #[trigger] expo(t, n)[i] != f0() by {
            if i >= e.len() { mul_nz(e[i - e.len()], x); }
        }
    }
}
pub proof fn tw_nz(t: Seq<Fr>, r: Fr) requires nz(t), r != f0() ensures nz(tw(t, r)) {
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] tw(t, r)[i] != f0() by { ysq_nz(r, i as nat); mul_nz(t[i], ysq(r, i as nat)); }
}
pub proof fn tw_one(t: Seq<Fr>) ensures tw(t, f1()) == t {
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] tw(t, f1())[i] == t[i] by { ysq_pow(f1(), i as nat); fpow_one(pow2(i as nat)); ax_mul_one(t[i]); }
    assert(tw(t, f1()) =~= t);
}
/// key polynomial, all facts: coefficient vector, its value everywhere, its length after stripping
pub proof fn key_poly(t: Seq<Fr>, r: Fr, c: Seq<Fr>, x: Fr)
    requires stripped(ilz(expo(tw(t, r), t.len())), c)
    ensures peval(c, x) == keyval(t, x, r),
        ilz(expo(tw(t, r), t.len())).len() == 2 * pow2(t.len()) - 1,
        (nz(t) && r != f0()) ==> c.len() == 2 * pow2(t.len()) - 1,
        1 <= c.len() <= 2 * pow2(t.len()) - 1,
{
    let e = expo(tw(t, r), t.len());
    expo_len(tw(t, r), t.len());
    vstd::arithmetic::power2::lemma_pow2_pos(t.len());
    ilz_peval(e, x);
    expo_prod(t, r, x * x, t.len());
    strip_peval(ilz(e), c, x);
    ax_one_ne_zero(); assert(ilz(e)[0] == f1());
    if nz(t) && r != f0() {
        tw_nz(t, r); expo_nz(tw(t, r), t.len());
        let l = 2 * e.len() - 2;
        assert(ilz(e)[l] == e[e.len() - 1]);
        if c.len() < ilz(e).len() { assert(ilz(e)[l] == f0()); }
    }
}
// ---- openings -------------------------------------------------------------------------------
/// h-side key opens (pairing equation), g-side key opens
pub open spec fn kzg_a(g: Fr, h: Fr, g_beta: Fr, ck: Fr, op: Fr, v: Fr, c: Fr) -> bool { g * (ck - h * v) == (g_beta - g * c) * op }
pub open spec fn kzg_b(g: Fr, h: Fr, h_alpha: Fr, ck: Fr, op: Fr, v: Fr, c: Fr) -> bool { (ck - g * v) * h == op * (h_alpha - h * c) }
pub open spec fn khin(n: usize, t: Seq<Fr>, a: Fr, b: Fr) -> Seq<u8> { be8(n) + ser_Fr(if t.len() > 0 { t[0] } else { f0() }) + ser_G2(a) + ser_G1(b) }
pub open spec fn kcand(n: usize, t: Seq<Fr>, a: Fr, b: Fr) -> Option<Fr> { frb(hash(khin(n, t, a, b))) }
pub open spec fn is_kchal(n: usize, t: Seq<Fr>, a: Fr, b: Fr) -> bool { kcand(n, t, a, b).is_some() && forall|m: usize| m < n ==> #[trigger] kcand(m, t, a, b).is_none() }
pub open spec fn kchal(t: Seq<Fr>, a: Fr, b: Fr) -> Fr { kcand(choose|n: usize| is_kchal(n, t, a, b), t, a, b)->Some_0 }
/// assumed: some retry counter below 2^64-1 gives a usable digest
pub axiom fn ax_kusable(t: Seq<Fr>, a: Fr, b: Fr) ensures exists|n: usize| n < usize::MAX && #[trigger] is_kchal(n, t, a, b);
pub proof fn kchal_is(n: usize, t: Seq<Fr>, a: Fr, b: Fr) requires is_kchal(n, t, a, b) ensures kcand(n, t, a, b) == Some(kchal(t, a, b)) {
    let m = choose|n: usize| is_kchal(n, t, a, b);
    if m < n { assert(kcand(m, t, a, b).is_none()); }
    if n < m { assert(kcand(n, t, a, b).is_none()); }
}
/// what the trusted-setup verifier has to accept
pub open spec fn tipa_accepts<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(
    g: Fr, h: Fr, g_beta: Fr, h_alpha: Fr, kt: Fr, c0: Com3, st: Seq<Step>, ma: Fr, mb: Fr, fa: Fr, fb: Fr, oa: Fr, ob: Fr, r: Fr) -> bool
{
    let t = rev(vchals::<L, R, I>(c0, st));
    let c = kchal(t, fa, fb);
    &&& kzg_a(g, h, g_beta, fa, oa, keyval(invs(t), c, finv(r)), c)
    &&& kzg_b(g, h, h_alpha, fb, ob, keyval(t, c, f1()), c)
    &&& base_ok::<L, R, I>(fa, fb, seq![kt], vrun::<L, R, I>(c0, st, st.len()).com, ma, mb)
}
/// even powers of x with the powers of s multiplied in
pub open spec fn ekey(x: Fr, s: Fr, n: nat) -> Seq<Fr> { Seq::new(n, |i: int| fpow(x, (2 * i) as nat) * fpow(s, i as nat)) }
/// key folding of a structured key is the value of the product form at the secret
#[verifier::spinoff_prover]
pub proof fn fold_ekey(t: Seq<Fr>, x: Fr, s: Fr)
    ensures dot(ekey(x, s, pow2(t.len())), expo(t, t.len())) == keyval(t, x, s)
{
    let n = pow2(t.len());
    let y = (x * x) * s;
    assert forall|i: int| 0 <= i < n implies ekey(x, s, n)[i] == powers(y, n)[i] by {
        fpow_mul(x * x, s, i as nat); fpow_dbl(x, i as nat);
    }
    assert(ekey(x, s, n) =~= powers(y, n));
    expo_len(t, t.len());
    dot_comm(powers(y, n), expo(t, t.len()));
    tw_one(t);
    expo_prod(t, f1(), y, t.len());
    ax_mul_one(y);
}
pub proof fn r_kzg(v: Fr, w: Fr, b: Fr, c: Fr, o: Fr) requires o * (b - c) == v - w
    ensures kzg_a(f1(), f1(), b, v, o, w, c), kzg_b(f1(), f1(), b, v, o, w, c)
{
    mul_o(w); mul_o(c); mul_o(v - w); ax_mul_comm(o, b - c);
}
/// C09: openings of honest final keys at an honest setup satisfy the verifier
#[verifier::spinoff_prover]
pub proof fn tipa_honest<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Fr, s: PS, n: nat, alpha: Fr, beta: Fr, r: Fr, oa: Fr, ob: Fr)
    requires ps_ok(s, n), foldable::<L, R>(), s.ka == ekey(beta, finv(r), pow2(n)), s.kb == ekey(alpha, f1(), pow2(n)),
       ({ let p = prun::<L, R, I>(seq![kt], s, n).ps; let t = rev(pchals::<L, R, I>(seq![kt], s, n)); let c = kchal(t, p.ka[0], p.kb[0]);
          oa * (beta - c) == keyval(invs(t), beta, finv(r)) - keyval(invs(t), c, finv(r)) && ob * (alpha - c) == keyval(t, alpha, f1()) - keyval(t, c, f1()) })
    ensures ({ let p = prun::<L, R, I>(seq![kt], s, n).ps;
       tipa_accepts::<L, R, I>(f1(), f1(), beta, alpha, kt, gcoms::<L, R, I>(seq![kt], s), psteps::<L, R, I>(seq![kt], s, n), p.ma[0], p.mb[0], p.ka[0], p.kb[0], oa, ob, r) }) //#C09
{
    let k = seq![kt];
    honest_accepts::<L, R, I>(k, s, n);
    let c0 = gcoms::<L, R, I>(k, s);
    let st = psteps::<L, R, I>(k, s, n);
    let p = prun::<L, R, I>(k, s, n).ps;
    let t = rev(pchals::<L, R, I>(k, s, n));
    assert(t == rev(vchals::<L, R, I>(c0, st)));
    let c = kchal(t, p.ka[0], p.kb[0]);
    fold_ekey(invs(t), beta, finv(r));
    fold_ekey(t, alpha, f1());
    r_kzg(p.ka[0], keyval(invs(t), c, finv(r)), beta, c, oa);
    r_kzg(p.kb[0], keyval(t, c, f1()), alpha, c, ob);
}
pub proof fn inv_seq_nz(t: Seq<Fr>) requires nz(t) ensures nz(invs(t)) {
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] invs(t)[i] != f0() by { inv_nz(t[i]); }
}
pub proof fn honest_accepts_nz<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, n: nat)
    ensures nz(rev(pchals::<L, R, I>(kt, s, n))), rev(pchals::<L, R, I>(kt, s, n)).len() == n
{
    let t = pchals::<L, R, I>(kt, s, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] rev(t)[i] != f0() by {
        let p = prun::<L, R, I>(kt, s, (n - 1 - i) as nat);
        chal_nz::<L, R, I>(p.c, pcross::<L, R, I>(kt, p.ps));
        assert(t[n - 1 - i] == chal::<L, R, I>(p.c, pcross::<L, R, I>(kt, p.ps)));
    }
}
pub proof fn sub_f0(u: Fr) ensures u - f0() == u { add_z(f0()); neg_unique(f0(), f0()); add_z(u); assert(u - f0() == u + (-f0())); }
pub proof fn quot(a: Poly, e: Poly, b: Poly, z: Fr, ev: Fr, x: Fr)
    requires pnorm(a.coeffs@), stripped(seq![ev], e.coeffs@), b.coeffs@ == seq![-z, f1()], peval(a.coeffs@, z) == ev, a.coeffs@.len() > 0
    ensures poly_div(poly_sub(a, e), b).coeffs@.len() <= a.coeffs@.len(), peval(poly_div(poly_sub(a, e), b).coeffs@, x) * (x - z) == peval(a.coeffs@, x) - ev
{
    ax_poly_sub(a, e);
    let d = poly_sub(a, e);
    ax_poly_div_linear(d, b, z);
    let q = poly_div(d, b);
    const_eval(ev, e.coeffs@, x); const_eval(ev, e.coeffs@, z);
    assert(peval(d.coeffs@, x) == peval(a.coeffs@, x) - ev);
    sub_zero(ev, ev);
    assert(peval(d.coeffs@, z) == ev - ev);
    assert(peval(q.coeffs@, x) * (x - z) == peval(d.coeffs@, x) - peval(d.coeffs@, z));
    let u = peval(d.coeffs@, x);
    sub_f0(u);
}
pub proof fn const_eval(ev: Fr, c: Seq<Fr>, x: Fr) requires stripped(seq![ev], c) ensures peval(c, x) == ev {
    strip_peval(seq![ev], c, x);
    assert(powers(x, 1) =~= seq![f1()]);
    dot1(ev, f1()); ax_mul_one(ev);
}
@end
