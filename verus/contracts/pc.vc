@ghost pc
/// a single-polynomial setup: n powers of alpha
pub open spec fn ksrs(p: Seq<G1Affine>, alpha: Fr) -> bool { dls(p) == powers(alpha, p.len()) }
/// a bivariate setup for rows of n coefficients and m rows
pub open spec fn bsrs(s: &(SRS, Vec<G1Affine>), alpha: Fr, beta: Fr, m: nat, n: nat) -> bool {
    &&& m >= 1 && n >= 1
    &&& s.0.wf_l(beta, m) && s.0.g_beta.dl() == beta && s.0.h_alpha.dl() == alpha
    &&& dls(s.0.g_alpha_powers@) == seq![f1()]
    &&& s.1@.len() == n && ksrs(s.1@, alpha)
}
/// number of rows a bivariate setup provides for
pub open spec fn srs_rows(s: &(SRS, Vec<G1Affine>)) -> int { ceil_div(s.0.h_beta_powers@.len() as int, 2) }
pub open spec fn srs_key(s: &(SRS, Vec<G1Affine>)) -> Seq<Fr> { Seq::new(srs_rows(s) as nat, |i: int| s.0.h_beta_powers@[2 * i].dl()) }
pub open spec fn srs_cols(s: &(SRS, Vec<G1Affine>)) -> int { s.1@.len() as int }
/// what the prover returns for the rows of a polynomial
pub open spec fn row_coms(s: &(SRS, Vec<G1Affine>), ps: Seq<Seq<Fr>>) -> Seq<Fr> { dots(dls(s.1@), rows(ps, srs_rows(s) as nat, s.1@.len()), srs_rows(s) as nat) }
pub open spec fn bi_fits(s: &(SRS, Vec<G1Affine>), p: Seq<Poly>) -> bool { s.1@.len() >= 1 && pfits(p, srs_rows(s) as nat, s.1@.len()) }
pub open spec fn open_fits(s: &(SRS, Vec<G1Affine>), p: Seq<Poly>) -> bool { bi_fits(s, p) && s.0.h_beta_powers@.len() == 2 * srs_rows(s) - 1 }
pub open spec fn uni_fits(s: &(SRS, Vec<G1Affine>), c: Seq<Fr>) -> bool { c.len() <= srs_rows(s) * srs_cols(s) && s.0.h_beta_powers@.len() == 2 * srs_rows(s) - 1 }
impl OpeningProof {
    /// everything the verifier of an opening has to check
    pub open spec fn accepted(&self, g: Fr, h: Fr, g_beta: Fr, h_alpha: Fr, com: Fr, x: Fr, y: Fr, v: Fr) -> bool {
        &&& self.ip_proof.accepted(g, h, g_beta, f0(), seq![com], seq![self.y_eval_comm.dl()], x)
        &&& kzg_eq(g, h, h_alpha, self.y_eval_comm.dl(), y, v, self.kzg_proof.dl())
    }
}
/// the rows of a polynomial in one variable fit, and have its value
pub proof fn uni_rows(c: Seq<Fr>, p: Seq<Poly>, m: nat, n: nat, y: Fr)
    requires blocks_of(c, pcoeffs(p), m, n), c.len() <= m * n
    ensures pnorms(p), pfits(p, m, n), rows_fit(pcoeffs(p), m, n), beval(pcoeffs(p), fpow(y, n), y) == peval(c, y)
{
    let ps = pcoeffs(p);
    assert forall|i: int| 0 <= i < p.len() implies pnorm((#[trigger] p[i]).coeffs@) && p[i].coeffs@.len() <= n by { assert(stripped(block(c, i, n), ps[i])); }
    assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]).len() <= n by { assert(stripped(block(c, i, n), ps[i])); }
    blocks_eval(c, ps, m, n, y);
}
pub proof fn fit_rows(p: Seq<Poly>, m: nat, n: nat) requires pfits(p, m, n) ensures rows_fit(pcoeffs(p), m, n) {
    assert forall|i: int| 0 <= i < pcoeffs(p).len() implies (#[trigger] pcoeffs(p)[i]).len() <= n by { assert(p[i].coeffs@.len() <= n); }
}
pub proof fn bsrs_facts(s: &(SRS, Vec<G1Affine>), alpha: Fr, beta: Fr, m: nat, n: nat) requires bsrs(s, alpha, beta, m, n)
    ensures srs_rows(s) == m, srs_cols(s) == n, srs_key(s) == ekey(beta, f1(), m), s.0.h_beta_powers@.len() == 2 * m - 1, s.0.g_alpha_powers@.len() == 1, s.0.h_beta_powers@[0].dl() == f1(), s.0.g_alpha_powers@[0].dl() == f1()
{
    assert(dls(s.0.h_beta_powers@).len() == 2 * m - 1);
    assert(dls(s.0.g_alpha_powers@).len() == 1); assert(dls(s.0.g_alpha_powers@)[0] == f1());
    assert(dls(s.0.h_beta_powers@)[0] == powers(beta, (2 * m - 1) as nat)[0]);
    assert forall|i: int| 0 <= i < m implies srs_key(s)[i] == ekey(beta, f1(), m)[i] by { assert(dls(s.0.h_beta_powers@)[2 * i] == powers(beta, (2 * m - 1) as nat)[2 * i]); fpow_one(i as nat); ax_mul_one(fpow(beta, (2 * i) as nat)); }
    assert(srs_key(s) =~= ekey(beta, f1(), m));
}
/// powers times the generator
pub proof fn pscale_one(p: Seq<Fr>) ensures pscale(p, f1()) == p {
    assert forall|k: int| 0 <= k < p.len() implies pscale(p, f1())[k] == p[k] by { ax_mul_one(p[k]); }
    assert(pscale(p, f1()) =~= p);
}
@end

@fn pc::KZG::setup
@props C15
@requires
degree < usize::MAX
@ensures C15
res.is_ok() && res->Ok_0.0@.len() == degree + 1
@ensures C15
exists|i: nat, j: nat| i != j && ksrs(res->Ok_0.0@, draw(advn(old(rng).state(), i), 0)) && #[trigger] res->Ok_0.1.wf(draw(advn(old(rng).state(), i), 0), draw(advn(old(rng).state(), j), 0))
@at fn_start
let ghost s0 = rng.state();
@at fn_end
proof {
  broadcast use {ax_of_dl_G1, ax_of_dl_G2};
  pscale_one(powers(alpha, (degree + 1) as nat));
  mul_o(alpha); mul_o(beta);
  assert(dls(r__->Ok_0.0@).len() == degree + 1);
  assert forall|i: nat, j: nat| alpha == #[trigger] draw(advn(s0, i), 0) && beta == #[trigger] draw(advn(s0, j), 0) implies
     ksrs(r__->Ok_0.0@, draw(advn(s0, i), 0)) && r__->Ok_0.1.wf(draw(advn(s0, i), 0), draw(advn(s0, j), 0)) by { }
  assert(advn(s0, 0) == s0);
  assert(advn(s0, 1) == adv(s0));
  assert((alpha == draw(advn(s0, 0), 0) && beta == draw(advn(s0, 1), 0)) || (alpha == draw(advn(s0, 1), 0) && beta == draw(advn(s0, 0), 0)));
}
@end

@fn pc::KZG::commit
@props C15,C25
@valid fits1(powers@.len(), polynomial.coeffs@)
@requires
pnorm(polynomial.coeffs@)
@ensures C15,C25
polynomial.coeffs@.len() <= powers@.len()
@ensures C15
res.is_ok() && res->Ok_0.dl() == dot(dls(powers@), padto(polynomial.coeffs@, powers@.len()))
@ensures C15
forall|alpha: Fr| #[trigger] ksrs(powers@, alpha) ==> res->Ok_0.dl() == peval(polynomial.coeffs@, alpha)
@at fn_start
let ghost ps = powers@;
let ghost c0 = polynomial.coeffs@;
proof { ax_vec_fr_len(polynomial.coeffs); }
@at let coeffs
proof { assert forall|s: Seq<Fr>| s == Seq::new(ps.len(), |i: int| if i < c0.len() { c0[i] } else { f0() }) implies #[trigger] dot(dls(ps), s) == dot(dls(ps), padto(c0, ps.len())) by { assert(s =~= padto(c0, ps.len())); } }
@at fn_end
proof {
  assert(coeffs@ =~= padto(c0, ps.len()));
  assert forall|alpha: Fr| #[trigger] ksrs(ps, alpha) implies r__->Ok_0.dl() == peval(c0, alpha) by {
    pad_peval(c0, ps.len(), alpha); dot_comm(crate::powers(alpha, ps.len()), padto(c0, ps.len()));
  }
}
@end

@fn pc::KZG::open
@props C15,C25
@valid fits1(powers@.len(), polynomial.coeffs@)
@requires
pnorm(polynomial.coeffs@)
@ensures C15,C25
polynomial.coeffs@.len() <= powers@.len()
@ensures C15
res.is_ok()
@ensures C15
forall|alpha: Fr| #[trigger] ksrs(powers@, alpha) ==> res->Ok_0.dl() * (alpha - *point) == peval(polynomial.coeffs@, alpha) - peval(polynomial.coeffs@, *point)
@at fn_start
let ghost ps = powers@;
let ghost pp = *polynomial;
let ghost zz = *point;
proof {
  ax_vec_fr_len(polynomial.coeffs);
  assert forall|s: Seq<Fr>, b: Poly| #[trigger] stripped(s, b.coeffs@) && s.len() == 2 && s[0] == -zz && s[1] == f1() implies b.coeffs@ == seq![-zz, f1()] by { lin2(s, b.coeffs@, -zz); }
  assert forall|b: Poly| b.coeffs@ == seq![-zz, f1()] implies (#[trigger] poly_div(pp, b)).coeffs@.len() <= pp.coeffs@.len() && poly_div_ok(b) by { div_linear(pp, b, zz, zz); }
  assert forall|b: Poly, x: Fr| b.coeffs@ == seq![-zz, f1()] implies #[trigger] peval(poly_div(pp, b).coeffs@, x) * (x - zz) == peval(pp.coeffs@, x) - peval(pp.coeffs@, zz) by { div_linear(pp, b, zz, x); }
}
@at fn_end
proof {
  let q = quotient_polynomial.coeffs@;
  assert(quotient_coeffs@ =~= padto(q, ps.len()));
  assert forall|alpha: Fr| #[trigger] ksrs(ps, alpha) implies r__->Ok_0.dl() * (alpha - zz) == peval(pp.coeffs@, alpha) - peval(pp.coeffs@, zz) by {
    pad_peval(q, ps.len(), alpha); dot_comm(crate::powers(alpha, ps.len()), padto(q, ps.len()));
    assert(peval(q, alpha) * (alpha - zz) == peval(pp.coeffs@, alpha) - peval(pp.coeffs@, zz));
  }
}
@end

@fn pc::KZG::verify
@props C15,C17
@ensures C15,C17
res.is_ok() && res->Ok_0 == kzg_eq(v_srs.g.dl(), v_srs.h.dl(), v_srs.h_alpha.dl(), com.dl(), *point, *eval, proof.dl())
@at fn_start
proof { broadcast use {ax_of_dl_G1, ax_of_dl_G2, ax_of_dl_GT}; }
@end

@fn pc::BivariatePolynomial::evaluate
@props C16
@ensures C16
res == beval(pcoeffs(self.y_polynomials@), point.0, point.1)
@at fn_start
let ghost ps = pcoeffs(self.y_polynomials@);
@inv for
invariant i_for <= n_for, n_for == ps.len(), cur == fpow(*x, i_for as nat), point_x_powers@ == powers(*x, i_for as nat),
decreases n_for - i_for
@at before_loop for
proof { assert(point_x_powers@ =~= powers(*x, 0)); }
@at body_end for
proof { assert(point_x_powers@ =~= powers(*x, i_for as nat)); }
@type acc_ret Fr
@inv ret
invariant i_ret <= n_ret, n_ret == ps.len(), $S0@ == powers(*x, ps.len()), $S1@ == self.y_polynomials@, ps == pcoeffs(self.y_polynomials@), acc_ret == sumr(prods(pevals(ps, *y), powers(*x, ps.len())), 0, i_ret as int),
decreases n_ret - i_ret
@at elem ret
proof { ax_mul_comm(fpow(*x, ix_ret as nat), peval(ps[ix_ret as int], *y)); }
@end

@fn pc::BivariatePolynomialCommitment::setup
@props C16,C25
@requires
2 * x_degree < usize::MAX, y_degree < usize::MAX
@ensures C16,C25
res.is_ok() && exists|i: nat, j: nat| i != j && #[trigger] bsrs(&res->Ok_0, draw(advn(old(rng).state(), i), 0), draw(advn(old(rng).state(), j), 0), (x_degree + 1) as nat, (y_degree + 1) as nat)
@at fn_start
let ghost s0 = rng.state();
@at fn_end
proof {
  broadcast use {ax_of_dl_G1, ax_of_dl_G2};
  pscale_one(powers(alpha, (y_degree + 1) as nat)); pscale_one(powers(beta, (2 * x_degree + 1) as nat));
  mul_o(alpha); mul_o(beta);
  let s = &r__->Ok_0;
  assert(dls(s.1@).len() == y_degree + 1);
  assert(dls(s.0.g_alpha_powers@) =~= seq![f1()]);
  assert forall|i: nat, j: nat| alpha == #[trigger] draw(advn(s0, i), 0) && beta == #[trigger] draw(advn(s0, j), 0) implies
     bsrs(s, draw(advn(s0, i), 0), draw(advn(s0, j), 0), (x_degree + 1) as nat, (y_degree + 1) as nat) by { }
  assert(advn(s0, 0) == s0);
  assert(advn(s0, 1) == adv(s0));
  assert((alpha == draw(advn(s0, 0), 0) && beta == draw(advn(s0, 1), 0)) || (alpha == draw(advn(s0, 1), 0) && beta == draw(advn(s0, 0), 0)));
}
@end

@fn pc::BivariatePolynomialCommitment::commit
@props C16,C25
@valid bi_fits(srs, bivariate_polynomial.y_polynomials@)
@requires
pnorms(bivariate_polynomial.y_polynomials@)
@ensures C25
pfits(bivariate_polynomial.y_polynomials@, srs_rows(srs) as nat, srs.1@.len())
@ensures C16
res.is_ok() && dls(res->Ok_0.1@) == row_coms(srs, pcoeffs(bivariate_polynomial.y_polynomials@)) && res->Ok_0.0.dl() == dot(srs_key(srs), dls(res->Ok_0.1@))
@at fn_start
let ghost p = bivariate_polynomial.y_polynomials@;
let ghost m = srs_rows(srs) as nat;
let ghost n = srs.1@.len();
let ghost rc = row_coms(srs, pcoeffs(p));
@at let ck
proof { assert(dls(ck@) =~= srs_key(srs)); }
@type out_y_polynomial_coms Vec<G1>
@inv y_polynomial_coms
invariant i_y_polynomial_coms <= n_y_polynomial_coms, n_y_polynomial_coms == m, $S0@ == p, $S1@.len() == 1, $S1@[0].coeffs@.len() == 0, p.len() <= m, pnorms(p), kzg_srs@ == srs.1@, n == srs.1@.len(), m == srs_rows(srs),
   rc == row_coms(srs, pcoeffs(p)),
   out_y_polynomial_coms@.len() == i_y_polynomial_coms,
   forall|k: int| 0 <= k < i_y_polynomial_coms && k < p.len() ==> (#[trigger] p[k]).coeffs@.len() <= n,
   forall|k: int| 0 <= k < i_y_polynomial_coms ==> (#[trigger] out_y_polynomial_coms@[k]).dl() == rc[k],
decreases n_y_polynomial_coms - i_y_polynomial_coms
@at body_start y_polynomial_coms
proof { assert(rc[ix_y_polynomial_coms as int] == dot(dls(srs.1@), padto(rowc(pcoeffs(p), ix_y_polynomial_coms as int), n))); 
   if ix_y_polynomial_coms < p.len() { assert(pnorm(p[ix_y_polynomial_coms as int].coeffs@)); assert(rowc(pcoeffs(p), ix_y_polynomial_coms as int) == p[ix_y_polynomial_coms as int].coeffs@); }
   else { assert forall|e: Seq<Fr>| #[trigger] padto(e, n) == padto(rowc(pcoeffs(p), ix_y_polynomial_coms as int), n) || e.len() != 0 by { if e.len() == 0 { assert(e =~= Seq::<Fr>::empty()); } } } }
@at let y_polynomial_coms
proof { broadcast use scal_vw; assert(dls(y_polynomial_coms@) =~= rc); dot_comm(dls(ck@), rc); assert(com_of(CKind::Dot, dls(ck@), rc) == seq![dot(dls(ck@), rc)]); }
@at fn_end
proof { broadcast use scal_vw; assert(r__->Ok_0.0.vw() == seq![r__->Ok_0.0.dl()]); assert(dls(r__->Ok_0.1@) == rc); assert(r__->Ok_0.0.vw()[0] == dot(dls(ck@), rc)); }
@end

@fn pc::BivariatePolynomialCommitment::open
@props C16,C25
@valid open_fits(srs, bivariate_polynomial.y_polynomials@)
@attr #[verifier::rlimit(60)]
@requires
pnorms(bivariate_polynomial.y_polynomials@), is_pow2(srs_rows(srs)), srs_rows(srs) <= pow2(60), y_polynomial_comms@.len() == srs_rows(srs)
@ensures C25
bivariate_polynomial.y_polynomials@.len() <= srs_rows(srs)
@ensures C16
res.is_ok()
@ensures C16
forall|alpha: Fr, beta: Fr, m: nat, n: nat| #[trigger] bsrs(srs, alpha, beta, m, n) && rows_fit(pcoeffs(bivariate_polynomial.y_polynomials@), m, n) && dls(y_polynomial_comms@) == row_coms(srs, pcoeffs(bivariate_polynomial.y_polynomials@)) ==>
   res->Ok_0.accepted(f1(), f1(), beta, alpha, dot(srs_key(srs), dls(y_polynomial_comms@)), point.0, point.1, beval(pcoeffs(bivariate_polynomial.y_polynomials@), point.0, point.1))
@at fn_start
let ghost p = bivariate_polynomial.y_polynomials@;
let ghost ps = pcoeffs(p);
let ghost m = srs_rows(srs) as nat;
let ghost n = srs.1@.len();
let ghost rw = rows(ps, m, n);
@at let ck_1
proof { assert(dls(ck_1@) =~= srs_key(srs)); }
@inv for
invariant i_for <= n_for, n_for == m, cur == fpow(*x, i_for as nat), powers_of_x@ == powers(*x, i_for as nat),
decreases n_for - i_for
@at before_loop for
proof { assert(powers_of_x@ =~= powers(*x, 0)); }
@at body_end for
proof { assert(powers_of_x@ =~= powers(*x, i_for as nat)); }
@type out_coeffs Vec<Vec<Fr>>
@inv coeffs
invariant i_coeffs <= n_coeffs, n_coeffs == m, $S0@ == p, $S1@.len() == 1, $S1@[0].coeffs@.len() == 0, p.len() <= m, kzg_srs@ == srs.1@, n == srs.1@.len(), ps == pcoeffs(p), rw == rows(ps, m, n),
   out_coeffs@.len() == i_coeffs,
   forall|k: int| 0 <= k < i_coeffs ==> (#[trigger] out_coeffs@[k])@ == rw[k],
decreases n_coeffs - i_coeffs
@at elem coeffs
proof { assert(x_coeffs@ =~= rw[ix_coeffs as int]); }
@inv y_eval_coeffs
invariant i_y_eval_coeffs <= n_y_eval_coeffs, n_y_eval_coeffs == n, $L0 == 0, ck_1@.len() == m, coeffs@.len() == m, powers_of_x@ == powers(*x, m), rw == rows(ps, m, n),
   forall|k: int| 0 <= k < m ==> (#[trigger] coeffs@[k])@ == rw[k],
   out_y_eval_coeffs@.len() == i_y_eval_coeffs,
   forall|k: int| 0 <= k < i_y_eval_coeffs ==> #[trigger] out_y_eval_coeffs@[k] == lin(rw, *x, m, n)[k],
decreases n_y_eval_coeffs - i_y_eval_coeffs
@type acc_chain Fr
@inv chain
invariant i_chain <= n_chain, n_chain == m, $L0 == 0, coeffs@.len() == m, powers_of_x@ == powers(*x, m), rw == rows(ps, m, n), j < n,
   forall|k: int| 0 <= k < m ==> (#[trigger] coeffs@[k])@ == rw[k],
   acc_chain == sumr(lin_term(rw, *x, j as int), 0, i_chain as int),
decreases n_chain - i_chain
@at body_start chain
proof { assert(coeffs@[ix_chain as int]@ == rw[ix_chain as int]); }
@at let y_eval_coeffs
let ghost li = lin(rw, *x, m, n);
proof {
  assert(y_eval_coeffs@ =~= li);
  lin_swap(dls(srs.1@), rw, *x, m, n);
  assert forall|alpha: Fr, beta: Fr, m: nat, n: nat| #[trigger] bsrs(srs, alpha, beta, m, n) implies srs_key(srs) == ekey(beta, f1(), m) && m == srs_rows(srs) && srs.0.wf_l(beta, m) by { bsrs_facts(srs, alpha, beta, m, n); }
  assert(powers_of_x@ == powers(*x, powers_of_x@.len()));
  assert(!(AFGHOCommitmentG1::ckind() is Ident));
}
@at fn_end
proof {
  let cm = dls(y_polynomial_comms@);
  let o = r__->Ok_0;
  assert forall|alpha: Fr, beta: Fr, m2: nat, n2: nat| #[trigger] bsrs(srs, alpha, beta, m2, n2) && rows_fit(ps, m2, n2) && cm == row_coms(srs, ps) implies
     o.accepted(f1(), f1(), beta, alpha, dot(srs_key(srs), cm), *x, *y, beval(ps, *x, *y)) by {
    bsrs_facts(srs, alpha, beta, m2, n2);
    assert(ekey(beta, f1(), m) == srs_key(srs));
    assert(dot(cm, powers(*x, m)) == y_eval_comm.dl());
    assert(com_of(CKind::Dot, srs_key(srs), cm) == seq![dot(srs_key(srs), cm)]);
    assert(o.ip_proof.accepted(f1(), f1(), beta, f0(), seq![dot(srs_key(srs), cm)], seq![o.y_eval_comm.dl()], *x));
    let q = Seq::<Fr>::empty();
    lin_eval(ps, *x, *y, m, n);
    dot_comm(dls(srs.1@), li);
    assert(y_eval_comm.dl() == peval(li, alpha));
    assert(o.kzg_proof.dl() * (alpha - *y) == peval(li, alpha) - peval(li, *y)) by {
      assert forall|c: Seq<Fr>, z: Fr| #[trigger] stripped(li, c) implies #[trigger] peval(c, z) == peval(li, z) by { strip_peval(li, c, z); }
    }
    kzg_honest(li, alpha, *y, o.kzg_proof.dl());
  }
}
@end

@fn pc::BivariatePolynomialCommitment::verify
@props C16,C17
@ensures C17
res.is_ok() && res->Ok_0 ==> proof.accepted(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), v_srs.h_alpha.dl(), com.dl(), point.0, point.1, *eval)
@ensures C16,C17
proof.accepted(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), v_srs.h_alpha.dl(), com.dl(), point.0, point.1, *eval) ==> res.is_ok() && res->Ok_0
@at fn_start
proof {
  broadcast use {scal_vw, ax_of_dl_G1, ax_of_dl_GT};
  assert forall|s: Seq<G1>| s.len() == 1 implies #[trigger] dls(s) == seq![s[0].dl()] by { dls1(s); }
}
@end

@fn pc::UnivariatePolynomialCommitment::bivariate_degrees
@props C25
@requires
univariate_degree < pow2(50)
@ensures C25
res.0 as int == bdeg(univariate_degree as int, 32, 16).0 && res.1 as int == bdeg(univariate_degree as int, 32, 16).1
@ensures C25
is_pow2(res.0 + 1) && is_pow2(res.1 + 1) && (res.0 + 1) * (res.1 + 1) >= univariate_degree + 1 && res.0 + 1 <= pow2(26) && res.1 + 1 <= pow2(51)
@at fn_start
proof { vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest();
  assert forall|c: int| #[trigger] is_csqrt(univariate_degree + 1, c) implies 0 < c <= pow2(25) by { csqrt_small(univariate_degree as int, c); } }
@at let sqrt
proof { let c = choose|c: int| #[trigger] is_csqrt(univariate_degree + 1, c) && sqrt >= c && forall|m: int| #[trigger] is_pow2(m) && m >= c ==> m >= sqrt;
  root_at(univariate_degree as int, c, sqrt as int);
  assert(is_pow2(16)) by { assert(pow2(4) == 16); } bdeg_ok(univariate_degree as int, 32, 16, sqrt as int);
  let s = sqrt as int; assert(s * 16 <= pow2(29)); if s < 32 { assert(s * (s / 2) <= 512 && s * (s / 2) >= 0) by(nonlinear_arith) requires 0 <= s < 32; if s >= 2 { assert(s * (s / 2) >= 1) by(nonlinear_arith) requires s >= 2; } } }
@end

@fn pc::UnivariatePolynomialCommitment::parse_bivariate_degrees_from_srs
@props C25
@requires
srs.0.h_beta_powers@.len() >= 1, srs.1@.len() >= 1
@ensures C25
forall|alpha: Fr, beta: Fr, m: nat, n: nat| #[trigger] bsrs(srs, alpha, beta, m, n) ==> res.0 == m - 1 && res.1 == n - 1
@ensures C25
res.0 == (srs.0.h_beta_powers@.len() - 1) / 2 && res.1 == srs.1@.len() - 1
@at fn_end
proof { assert forall|alpha: Fr, beta: Fr, m: nat, n: nat| #[trigger] bsrs(srs, alpha, beta, m, n) implies r__.0 == m - 1 && r__.1 == n - 1 by { bsrs_facts(srs, alpha, beta, m, n); } }
@end

@fn pc::UnivariatePolynomialCommitment::bivariate_form
@props C16,C25
@valid len_ok(polynomial.coeffs@, bivariate_degrees)
@requires
(bivariate_degrees.0 + 1) * (bivariate_degrees.1 + 1) <= usize::MAX, bivariate_degrees.0 < usize::MAX, bivariate_degrees.1 < usize::MAX
@ensures C25
polynomial.coeffs@.len() <= (bivariate_degrees.0 + 1) * (bivariate_degrees.1 + 1)
@ensures C16,C25
blocks_of(polynomial.coeffs@, pcoeffs(res.y_polynomials@), (bivariate_degrees.0 + 1) as nat, (bivariate_degrees.1 + 1) as nat)
@at fn_start
let ghost c0 = polynomial.coeffs@;
let ghost m = (bivariate_degrees.0 + 1) as nat;
let ghost n = (bivariate_degrees.1 + 1) as nat;
@type y_polynomials Vec<Poly>
@type y_polynomial_coeffs Vec<Fr>
@inv for
invariant i_for <= n_for, n_for == m, $L0 == 0, n == y_degree + 1, pos_coeff_iter == i_for * n, n_coeff_iter == m * n,
   y_polynomials@.len() == i_for,
   forall|k: int| 0 <= k < i_for ==> stripped(block(c0, k, n), #[trigger] pcoeffs(y_polynomials@)[k]),
decreases n_for - i_for
@at before_loop for
proof { assert(0 * n == 0) by(nonlinear_arith); }
@inv for_2
invariant i_for_2 <= n_for_2, n_for_2 == n, $L0 == 0, pos_coeff_iter == ix_for * n + i_for_2, n_coeff_iter == m * n,
   y_polynomial_coeffs@.len() == i_for_2,
   forall|k: int| 0 <= k < i_for_2 ==> #[trigger] y_polynomial_coeffs@[k] == block(c0, ix_for as int, n)[k],
decreases n_for_2 - i_for_2
@at body_start for_2
proof { assert(ix_for * n + ix_for_2 < m * n) by(nonlinear_arith) requires ix_for < m, ix_for_2 < n; }
@at body_start for
let ghost yp0 = y_polynomials@;
@at body_end for
proof {
  assert(y_polynomial_coeffs@ =~= block(c0, ix_for as int, n));
  assert(ix_for * n + n == (ix_for + 1) * n) by(nonlinear_arith);
  assert forall|k: int| 0 <= k < i_for implies stripped(block(c0, k, n), #[trigger] pcoeffs(y_polynomials@)[k]) by {
    if k < ix_for { assert(pcoeffs(yp0)[k] == pcoeffs(y_polynomials@)[k]); }
  }
}
@end

@fn pc::UnivariatePolynomialCommitment::setup
@props C16,C25
@requires
degree < pow2(50)
@ensures C16,C25
res.is_ok() && exists|i: nat, j: nat| i != j && #[trigger] bsrs(&res->Ok_0, draw(advn(old(rng).state(), i), 0), draw(advn(old(rng).state(), j), 0), (bdeg(degree as int, 32, 16).0 + 1) as nat, (bdeg(degree as int, 32, 16).1 + 1) as nat)
@at fn_start
proof { vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest(); }
@end

@fn pc::UnivariatePolynomialCommitment::commit
@props C16,C25
@valid uni_fits(srs, polynomial.coeffs@)
@requires
srs.0.h_beta_powers@.len() == 2 * srs_rows(srs) - 1, srs.1@.len() >= 1, srs_rows(srs) * srs_cols(srs) <= usize::MAX
@ensures C25
polynomial.coeffs@.len() <= srs_rows(srs) * srs_cols(srs)
@ensures C16,C25
res.is_ok() && exists|p: Seq<Poly>| #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(p), srs_rows(srs) as nat, srs_cols(srs) as nat) && dls(res->Ok_0.1@) == row_coms(srs, pcoeffs(p))
@ensures C16
res->Ok_0.0.dl() == dot(srs_key(srs), dls(res->Ok_0.1@))
@at fn_start
let ghost (m, n) = (srs_rows(srs) as nat, srs_cols(srs) as nat);
proof { assert(m <= usize::MAX && n <= usize::MAX) by(nonlinear_arith) requires m >= 1, n >= 1, m * n <= usize::MAX; assert forall|p: Seq<Poly>| #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(p), m, n) && polynomial.coeffs@.len() <= m * n implies pnorms(p) && pfits(p, m, n) by { uni_rows(polynomial.coeffs@, p, m, n, f0()); } }
@end

@fn pc::UnivariatePolynomialCommitment::open
@props C16,C25
@valid uni_fits(srs, polynomial.coeffs@)
@attr #[verifier::rlimit(60)]
@requires
srs.0.h_beta_powers@.len() == 2 * srs_rows(srs) - 1, srs.1@.len() >= 1, srs_rows(srs) * srs_cols(srs) <= usize::MAX, is_pow2(srs_rows(srs)), srs_rows(srs) <= pow2(60), y_polynomial_comms@.len() == srs_rows(srs), srs.1@.len() < u64::MAX
@ensures C25
polynomial.coeffs@.len() <= srs_rows(srs) * srs_cols(srs)
@ensures C16
res.is_ok()
@ensures C16
forall|alpha: Fr, beta: Fr, m: nat, n: nat, p: Seq<Poly>| #[trigger] bsrs(srs, alpha, beta, m, n) && #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(p), m, n) && dls(y_polynomial_comms@) == row_coms(srs, pcoeffs(p)) ==>
   res->Ok_0.accepted(f1(), f1(), beta, alpha, dot(srs_key(srs), dls(y_polynomial_comms@)), fpow(*point, n), *point, peval(polynomial.coeffs@, *point))
@at fn_start
let ghost (m0, n0) = (srs_rows(srs) as nat, srs_cols(srs) as nat);
proof { assert(m0 <= usize::MAX && n0 <= usize::MAX) by(nonlinear_arith) requires m0 >= 1, n0 >= 1, m0 * n0 <= usize::MAX;
  assert forall|alpha: Fr, beta: Fr, m: nat, n: nat| #[trigger] bsrs(srs, alpha, beta, m, n) implies m == m0 && n == n0 by { bsrs_facts(srs, alpha, beta, m, n); }
  assert forall|p: Seq<Poly>, q: Seq<Poly>| #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(p), m0, n0) && #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(q), m0, n0) implies pcoeffs(p) == pcoeffs(q) by { blocks_unique(polynomial.coeffs@, pcoeffs(p), pcoeffs(q), m0, n0); } assert forall|p: Seq<Poly>| #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(p), m0, n0) && polynomial.coeffs@.len() <= m0 * n0 implies pnorms(p) && pfits(p, m0, n0) && rows_fit(pcoeffs(p), m0, n0) && beval(pcoeffs(p), fpow(*point, n0), *point) == peval(polynomial.coeffs@, *point) by { uni_rows(polynomial.coeffs@, p, m0, n0, *point); } }
@end

@fn pc::UnivariatePolynomialCommitment::verify
@props C16,C17,C25
@requires
max_degree < pow2(50)
@ensures C17
res.is_ok() && res->Ok_0 ==> proof.accepted(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), v_srs.h_alpha.dl(), com.dl(), fpow(*point, (bdeg(max_degree as int, 32, 16).1 + 1) as nat), *point, *eval)
@ensures C16,C17
proof.accepted(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), v_srs.h_alpha.dl(), com.dl(), fpow(*point, (bdeg(max_degree as int, 32, 16).1 + 1) as nat), *point, *eval) ==> res.is_ok() && res->Ok_0
@at fn_start
proof { vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest(); }
@end
