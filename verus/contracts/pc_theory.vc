@ghost root
// ---------------------------------------------------------------------------------------------
// Theory of the polynomial commitments
// ---------------------------------------------------------------------------------------------
pub open spec fn pcoeffs(p: Seq<Poly>) -> Seq<Seq<Fr>> { Seq::new(p.len(), |i: int| p[i].coeffs@) }
pub open spec fn pnorms(p: Seq<Poly>) -> bool { forall|i: int| 0 <= i < p.len() ==> pnorm((#[trigger] p[i]).coeffs@) }
/// all polynomials have at most n coefficients, and there are at most m of them
pub open spec fn pfits(p: Seq<Poly>, m: nat, n: nat) -> bool { p.len() <= m && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).coeffs@.len() <= n }
pub open spec fn fits1(n: nat, c: Seq<Fr>) -> bool { n >= 1 && c.len() <= n }
/// coefficients of the i-th polynomial, the zero polynomial past the end
pub open spec fn rowc(ps: Seq<Seq<Fr>>, i: int) -> Seq<Fr> { if 0 <= i < ps.len() { ps[i] } else { Seq::empty() } }
/// the m x n coefficient matrix, filled up with zeros
pub open spec fn rows(ps: Seq<Seq<Fr>>, m: nat, n: nat) -> Seq<Seq<Fr>> { Seq::new(m, |i: int| padto(rowc(ps, i), n)) }
pub open spec fn rows_fit(ps: Seq<Seq<Fr>>, m: nat, n: nat) -> bool { ps.len() <= m && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).len() <= n }
/// commitments to the rows
pub open spec fn dots(k: Seq<Fr>, c: Seq<Seq<Fr>>, m: nat) -> Seq<Fr> { Seq::new(m, |i: int| dot(k, c[i])) }
pub open spec fn lin_term(c: Seq<Seq<Fr>>, x: Fr, j: int) -> spec_fn(int) -> Fr { |i: int| fpow(x, i as nat) * c[i][j] }
/// the combination of the rows with the powers of x
pub open spec fn lin(c: Seq<Seq<Fr>>, x: Fr, m: nat, n: nat) -> Seq<Fr> { Seq::new(n, |j: int| sumr(lin_term(c, x, j), 0, m as int)) }
pub open spec fn pevals(ps: Seq<Seq<Fr>>, y: Fr) -> Seq<Fr> { Seq::new(ps.len(), |i: int| peval(ps[i], y)) }
/// value of the polynomial in two variables with y-polynomials ps
pub open spec fn beval(ps: Seq<Seq<Fr>>, x: Fr, y: Fr) -> Fr { dot(pevals(ps, y), powers(x, ps.len())) }

/// committing to the rows and combining equals combining and committing
pub proof fn lin_swap(k: Seq<Fr>, c: Seq<Seq<Fr>>, x: Fr, m: nat, n: nat)
    requires k.len() == n, m <= c.len(), forall|i: int| 0 <= i < m ==> (#[trigger] c[i]).len() == n
    ensures dot(dots(k, c, m), powers(x, m)) == dot(k, lin(c, x, m, n))
    decreases m
{
    if m == 0 {
        assert forall|j: int| 0 <= j < n implies #[trigger] prods(k, lin(c, x, 0, n))(j) == f0() by { mul_zero(k[j]); }
        sumr_zero(prods(k, lin(c, x, 0, n)), 0, n as int);
    } else {
        let h = (m - 1) as nat; let hi = h as int;
        lin_swap(k, c, x, h, n);
        powers_snoc(x, h);
        assert(dots(k, c, m) =~= dots(k, c, h).push(dot(k, c[hi])));
        dot_snoc(dots(k, c, h), powers(x, h), dot(k, c[hi]), fpow(x, h));
        assert forall|j: int| 0 <= j < n implies lin(c, x, m, n)[j] == padd(lin(c, x, h, n), pscale(c[hi], fpow(x, h)))[j] by {
            assert(sumr(lin_term(c, x, j), 0, m as int) == sumr(lin_term(c, x, j), 0, hi) + lin_term(c, x, j)(hi));
            ax_mul_comm(fpow(x, h), c[hi][j]);
        }
        assert(lin(c, x, m, n) =~= padd(lin(c, x, h, n), pscale(c[hi], fpow(x, h))));
        dot_add_r(k, lin(c, x, h, n), pscale(c[hi], fpow(x, h)));
        dot_scale_r(k, c[hi], fpow(x, h));
    }
}
/// rows past the end do not change the value
pub proof fn beval_pad(ps: Seq<Seq<Fr>>, x: Fr, y: Fr, m: nat, n: nat)
    requires rows_fit(ps, m, n)
    ensures dot(dots(powers(y, n), rows(ps, m, n), m), powers(x, m)) == beval(ps, x, y)
{
    let d = dots(powers(y, n), rows(ps, m, n), m);
    let l = ps.len() as int;
    let f = prods(d, powers(x, m)); let g = prods(pevals(ps, y), powers(x, ps.len()));
    assert forall|i: int| 0 <= i < m implies #[trigger] f(i) == (if i < l { g(i) } else { f0() }) by {
        let c = rowc(ps, i);
        dot_comm(powers(y, n), padto(c, n)); pad_peval(c, n, y);
        assert(d[i] == peval(c, y));
        if i >= l { assert(peval(c, y) == f0()); mul_zero(fpow(x, i as nat)); }
    }
    sumr_split(f, 0, l, m as int);
    sumr_cong(f, g, 0, l);
    sumr_zero(f, l, m as int);
    ax_add_zero(sumr(f, 0, l));
}
/// the combined row is a polynomial with the value at (x, y)
pub proof fn lin_eval(ps: Seq<Seq<Fr>>, x: Fr, y: Fr, m: nat, n: nat)
    requires rows_fit(ps, m, n)
    ensures peval(lin(rows(ps, m, n), x, m, n), y) == beval(ps, x, y)
{
    let c = rows(ps, m, n);
    lin_swap(powers(y, n), c, x, m, n);
    beval_pad(ps, x, y, m, n);
    dot_comm(powers(y, n), lin(c, x, m, n));
}
// ---- single-polynomial openings ------------------------------------------------------------------
pub open spec fn kzg_eq(g: Fr, h: Fr, h_alpha: Fr, com: Fr, z: Fr, v: Fr, o: Fr) -> bool { (com - g * v) * h == o * (h_alpha - h * z) }
/// C15: the opening computed by the prover satisfies the verifier's equation
pub proof fn kzg_honest(c: Seq<Fr>, alpha: Fr, z: Fr, o: Fr)
    requires o * (alpha - z) == peval(c, alpha) - peval(c, z)
    ensures kzg_eq(f1(), f1(), alpha, peval(c, alpha), z, peval(c, z), o) //#C15
{
    mul_o(peval(c, z)); mul_o(z); mul_o(peval(c, alpha) - peval(c, z));
}
/// C15: away from the secret point an opening fixes the value
pub proof fn kzg_one_value(alpha: Fr, com: Fr, z: Fr, v: Fr, w: Fr, o: Fr)
    requires kzg_eq(f1(), f1(), alpha, com, z, v, o), kzg_eq(f1(), f1(), alpha, com, z, w, o)
    ensures v == w //#C15
{
    mul_o(v); mul_o(w); mul_o(com - v); mul_o(com - w);
    let c = com;
    ax_add_comm(c, -v); ax_add_comm(c, -w);
    assert(-v == -w) by { add_cancel(-v, -w, c); }
    neg_neg(v); neg_neg(w);
}
pub proof fn div_linear(a: Poly, b: Poly, z: Fr, x: Fr)
    requires pnorm(a.coeffs@), b.coeffs@ == seq![-z, f1()]
    ensures poly_div(a, b).coeffs@.len() <= a.coeffs@.len(), peval(poly_div(a, b).coeffs@, x) * (x - z) == peval(a.coeffs@, x) - peval(a.coeffs@, z)
{ ax_poly_div_linear(a, b, z); }
pub proof fn lin2(s: Seq<Fr>, c: Seq<Fr>, u: Fr) requires stripped(s, c), s.len() == 2, s[0] == u, s[1] == f1() ensures c == seq![u, f1()] {
    ax_one_ne_zero(); if c.len() < 2 { assert(s[1] == f0()); } assert(c =~= seq![u, f1()]);
}
// ---- polynomials in one variable as polynomials in two ---------------------------------------------
/// the i-th block of n coefficients, filled up with zeros
pub open spec fn block(c: Seq<Fr>, i: int, n: nat) -> Seq<Fr> { Seq::new(n, |j: int| if i * n + j < c.len() { c[i * n + j] } else { f0() }) }
pub open spec fn blocks_of(c: Seq<Fr>, ps: Seq<Seq<Fr>>, m: nat, n: nat) -> bool { ps.len() == m && forall|i: int| 0 <= i < m ==> stripped(block(c, i, n), #[trigger] ps[i]) }
pub proof fn fpow_pow(y: Fr, n: nat, i: nat) ensures fpow(fpow(y, n), i) == fpow(y, n * i) decreases i {
    if i > 0 { fpow_pow(y, n, (i - 1) as nat); fpow_add(y, n * ((i - 1) as nat), n); assert(n * ((i - 1) as nat) + n == n * i) by(nonlinear_arith) requires i > 0; }
    else { assert(n * i == 0) by(nonlinear_arith) requires i == 0; }
}
pub proof fn stripped_unique(s: Seq<Fr>, a: Seq<Fr>, b: Seq<Fr>) requires stripped(s, a), stripped(s, b) ensures a == b {
    if a.len() < b.len() { assert(s[b.len() - 1] == f0()); } else if b.len() < a.len() { assert(s[a.len() - 1] == f0()); }
    assert(a =~= b);
}
pub proof fn blocks_unique(c: Seq<Fr>, ps: Seq<Seq<Fr>>, qs: Seq<Seq<Fr>>, m: nat, n: nat) requires blocks_of(c, ps, m, n), blocks_of(c, qs, m, n) ensures ps == qs {
    assert forall|i: int| 0 <= i < m implies ps[i] == qs[i] by { stripped_unique(block(c, i, n), ps[i], qs[i]); }
    assert(ps =~= qs);
}
/// the blocks, combined with powers of y^n, have the value of the polynomial
pub proof fn blocks_eval(c: Seq<Fr>, ps: Seq<Seq<Fr>>, m: nat, n: nat, y: Fr)
    requires blocks_of(c, ps, m, n), c.len() <= m * n
    ensures beval(ps, fpow(y, n), y) == peval(c, y) //#C16,C18,C25
{
    let x = fpow(y, n);
    let s = padto(c, m * n);
    blocks_sum(c, ps, m, n, y, m);
    assert(pevals(ps, y).take(m as int) =~= pevals(ps, y));
    pad_peval(c, m * n, y);
}
pub proof fn blocks_sum(c: Seq<Fr>, ps: Seq<Seq<Fr>>, m: nat, n: nat, y: Fr, k: nat)
    requires blocks_of(c, ps, m, n), k <= m
    ensures sumr(prods(pevals(ps, y), powers(fpow(y, n), m)), 0, k as int) == sumr(prods(padto(c, m * n), powers(y, m * n)), 0, (k * n) as int)
    decreases k
{
    let f = prods(pevals(ps, y), powers(fpow(y, n), m)); let g = prods(padto(c, m * n), powers(y, m * n));
    if k == 0 { assert(k * n == 0) by(nonlinear_arith) requires k == 0; }
    else {
        let h = (k - 1) as nat; let o = (h * n) as int;
        blocks_sum(c, ps, m, n, y, h);
        assert(o + n == k * n && k * n <= m * n) by(nonlinear_arith) requires k == h + 1, o == h * n, k <= m;
        sumr_split(g, 0, o, (k * n) as int);
        let b = block(c, h as int, n);
        strip_peval(b, ps[h as int], y);
        fpow_pow(y, n, h);
        assert(n * h == o) by(nonlinear_arith) requires o == h * n;
        let p = fpow(y, o as nat);
        let e = prods(b, powers(y, n));
        let (u, v) = (|j: int| e(j) * p, |j: int| g(j + o));
        assert forall|j: int| 0 <= j < n implies #[trigger] u(j) == v(j) by {
            fpow_add(y, j as nat, o as nat);
            ax_mul_assoc(b[j], fpow(y, j as nat), p);
        }
        sumr_cong(u, v, 0, n as int);
        sumr_scale(e, p, 0, n as int);
        sumr_shift(g, o, 0, n as int);
        assert(f(h as int) == peval(ps[h as int], y) * fpow(fpow(y, n), h));
    }
}
pub open spec fn len_ok(c: Seq<Fr>, d: (usize, usize)) -> bool { c.len() <= (d.0 + 1) * (d.1 + 1) }
// ---- shapes of the univariate schemes ----------------------------------------------------------------
/// smallest power of two whose square is at least n
pub open spec fn is_root2(n: int, s: int) -> bool { is_pow2(s) && s * s >= n && forall|m: int| #[trigger] is_pow2(m) && m * m >= n ==> m >= s }
pub open spec fn root2(n: int) -> int { choose|s: int| is_root2(n, s) }
/// row and column bounds for a degree: root/k and root*k, k the skew for large roots
pub open spec fn skew(s: int, big: int, k: int) -> int { if s >= big { k } else if s / 2 >= 1 { s / 2 } else { 1 } }
pub open spec fn bdeg(d: int, big: int, k: int) -> (int, int) { let s = root2(d + 1); (s / skew(s, big, k) - 1, s * skew(s, big, k) - 1) }
pub proof fn root2_is(n: int, c: int, s: int)
    requires n > 0, c > 0, c * c >= n, (c - 1) * (c - 1) < n, is_pow2(s), s >= c, forall|m: int| #[trigger] is_pow2(m) && m >= c ==> m >= s
    ensures is_root2(n, s), root2(n) == s
{
    assert(s * s >= c * c) by(nonlinear_arith) requires s >= c, c > 0;
    assert forall|m: int| #[trigger] is_pow2(m) && m * m >= n implies m >= s by {
        let k = choose|k: nat| m == #[trigger] pow2(k); vstd::arithmetic::power2::lemma_pow2_pos(k);
        if m <= c - 1 { assert(m * m <= (c - 1) * (c - 1)) by(nonlinear_arith) requires 0 < m <= c - 1; }
    }
    let r = root2(n);
    assert(is_root2(n, s));
    assert(is_root2(n, r));
    assert(r >= s && s >= r);
}
/// the ceiling of the square root of d + 1, rounded up to a power of two
pub proof fn csqrt_small(d: int, c: int) requires 0 <= d < pow2(50), is_csqrt(d + 1, c) ensures 0 < c <= pow2(25) {
    vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest();
    if c > 0x2000000 { assert((c - 1) * (c - 1) >= 0x2000000 * 0x2000000) by(nonlinear_arith) requires c > 0x2000000; }
}
pub proof fn root_at(d: int, c: int, s: int)
    requires 0 <= d < pow2(50), is_csqrt(d + 1, c), is_pow2(s), s >= c, forall|m: int| #[trigger] is_pow2(m) && m >= c ==> m >= s
    ensures is_root2(d + 1, s), root2(d + 1) == s, 0 < s <= pow2(25)
{
    csqrt_small(d, c);
    vstd::arithmetic::power2::lemma2_to64();
    assert(is_pow2(pow2(25) as int));
    root2_is(d + 1, c, s);
}
pub proof fn pow2_mul(a: int, b: int) requires is_pow2(a), is_pow2(b) ensures is_pow2(a * b) {
    let i = choose|k: nat| a == #[trigger] pow2(k); let j = choose|k: nat| b == #[trigger] pow2(k);
    vstd::arithmetic::power2::lemma_pow2_adds(i, j);
    assert(a * b == pow2(i + j));
}
pub proof fn pow2_quot(a: int, b: int) requires is_pow2(a), is_pow2(b), b <= a ensures is_pow2(a / b), (a / b) * b == a, a / b >= 1 {
    let i = choose|k: nat| a == #[trigger] pow2(k); let j = choose|k: nat| b == #[trigger] pow2(k);
    if j > i { vstd::arithmetic::power2::lemma_pow2_strictly_increases(i, j); }
    let d = (i - j) as nat;
    vstd::arithmetic::power2::lemma_pow2_adds(d, j); vstd::arithmetic::power2::lemma_pow2_pos(j); vstd::arithmetic::power2::lemma_pow2_pos(d);
    let q = pow2(d) as int;
    assert(q * b == a);
    assert(a / b == q) by(nonlinear_arith) requires q * b == a, b > 0;
}
pub proof fn pow2_half(a: int) requires is_pow2(a), a > 1 ensures is_pow2(a / 2), a / 2 >= 1 {
    vstd::arithmetic::power2::lemma2_to64(); assert(is_pow2(2)) by { assert(pow2(1) == 2); } pow2_quot(a, 2);
}
/// C25: both bounds are powers of two and leave room for every coefficient
pub proof fn bdeg_ok(d: int, big: int, k: int, s0: int)
    requires d >= 0, is_pow2(k), k <= big, is_root2(d + 1, s0)
    ensures ({ let (x, y) = bdeg(d, big, k); is_pow2(x + 1) && is_pow2(y + 1) && x >= 0 && y >= 0 && (x + 1) * (y + 1) >= d + 1 }) //#C25
{
    let s = root2(d + 1);
    assert(is_root2(d + 1, s));
    let w = skew(s, big, k);
    let e = choose|e: nat| s == #[trigger] pow2(e); vstd::arithmetic::power2::lemma_pow2_pos(e);
    let e2 = choose|e: nat| k == #[trigger] pow2(e); vstd::arithmetic::power2::lemma_pow2_pos(e2);
    if s < big { if s > 1 { pow2_half(s); } else { vstd::arithmetic::power2::lemma2_to64(); assert(is_pow2(1)) by { assert(pow2(0) == 1); } } }
    pow2_quot(s, w); pow2_mul(s, w);
    assert((s / w) * (s * w) == s * s) by(nonlinear_arith) requires (s / w) * w == s;
    assert(s * w >= 1) by(nonlinear_arith) requires s >= 1, w >= 1;
}
@end
