@ghost tr
pub open spec fn ckm(ck: &(Vec<G1>, Vec<G2>)) -> nat { ck.1@.len() }
pub open spec fn ckn(ck: &(Vec<G1>, Vec<G2>)) -> nat { ck.0@.len() }
/// what the prover returns for the rows of a polynomial
pub open spec fn row_coms(ck: &(Vec<G1>, Vec<G2>), ps: Seq<Seq<Fr>>) -> Seq<Fr> { dots(dls(ck.0@), rows(ps, ckm(ck), ckn(ck)), ckm(ck)) }
pub open spec fn bi_fits(ck: &(Vec<G1>, Vec<G2>), p: Seq<Poly>) -> bool { pfits(p, ckm(ck), ckn(ck)) }
pub open spec fn uni_fits(ck: &(Vec<G1>, Vec<G2>), c: Seq<Fr>) -> bool { c.len() <= ckm(ck) * ckn(ck) }
pub open spec fn pow2_keys(ck: &(Vec<G1>, Vec<G2>)) -> bool { is_pow2(ckm(ck) as int) && is_pow2(ckn(ck) as int) }
impl OpeningProof {
    /// everything the verifier of an opening has to check
    pub open spec fn accepted(&self, k1: Seq<Fr>, k2: Seq<Fr>, com: Fr, x: Fr, y: Fr, v: Fr) -> bool {
        &&& self.second_tier_ip_proof.ssm_accepted(k2, f0(), seq![com], seq![self.y_eval_comm.dl()], x)
        &&& self.first_tier_ip_proof.ssm_accepted(k1, f0(), seq![self.y_eval_comm.dl()], seq![v], y)
    }
}
/// the rows of a polynomial in one variable fit, and have its value
pub proof fn uni_rows(c: Seq<Fr>, p: Seq<Poly>, m: nat, n: nat, y: Fr)
    requires blocks_of(c, pcoeffs(p), m, n), c.len() <= m * n
    ensures pnorms(p), pfits(p, m, n), rows_fit(pcoeffs(p), m, n), beval(pcoeffs(p), fpow(y, n), y) == peval(c, y)
{
    let ps = pcoeffs(p);
    assert forall|i: int| 0 <= i < p.len() implies pnorm((#[trigger] p[i]).coeffs@) && p[i].coeffs@.len() <= n by { assert(stripped(block(c, i, n), ps[i])); }
    assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]).len() <= n by { assert(stripped(block(c, i, n), ps[i])); }
    blocks_eval(c, ps, m, n, y);
}
pub proof fn fit_rows(p: Seq<Poly>, m: nat, n: nat) requires pfits(p, m, n) ensures rows_fit(pcoeffs(p), m, n) {
    assert forall|i: int| 0 <= i < pcoeffs(p).len() implies (#[trigger] pcoeffs(p)[i]).len() <= n by { assert(p[i].coeffs@.len() <= n); }
}
@end


@fn tr::BivariatePolynomial::evaluate
@props C18
@ensures C18
res == beval(pcoeffs(self.y_polynomials@), point.0, point.1)
@at fn_start
let ghost ps = pcoeffs(self.y_polynomials@);
@inv for
invariant i_for <= n_for, n_for == ps.len(), cur == fpow(*x, i_for as nat), point_x_powers@ == powers(*x, i_for as nat),
decreases n_for - i_for
@at before_loop for
proof { assert(point_x_powers@ =~= powers(*x, 0)); }
@at body_end for
proof { assert(point_x_powers@ =~= powers(*x, i_for as nat)); }
@type acc_ret Fr
@inv ret
invariant i_ret <= n_ret, n_ret == ps.len(), $S0@ == powers(*x, ps.len()), $S1@ == self.y_polynomials@, ps == pcoeffs(self.y_polynomials@), acc_ret == sumr(prods(pevals(ps, *y), powers(*x, ps.len())), 0, i_ret as int),
decreases n_ret - i_ret
@at elem ret
proof { ax_mul_comm(fpow(*x, ix_ret as nat), peval(ps[ix_ret as int], *y)); }
@end

@fn tr::BivariatePolynomialCommitment::setup
@props C18,C25
@requires
x_degree < usize::MAX, y_degree < usize::MAX
@ensures C18,C25
res.is_ok() && ckm(&res->Ok_0) == x_degree + 1 && ckn(&res->Ok_0) == y_degree + 1
@end

@fn tr::BivariatePolynomialCommitment::commit
@props C18,C25
@valid bi_fits(ck, bivariate_polynomial.y_polynomials@)
@requires
pnorms(bivariate_polynomial.y_polynomials@)
@ensures C25
pfits(bivariate_polynomial.y_polynomials@, ckm(ck), ckn(ck))
@ensures C18
res.is_ok() && dls(res->Ok_0.1@) == row_coms(ck, pcoeffs(bivariate_polynomial.y_polynomials@)) && res->Ok_0.0.dl() == dot(dls(ck.1@), dls(res->Ok_0.1@))
@at fn_start
let ghost p = bivariate_polynomial.y_polynomials@;
let ghost m = ckm(ck);
let ghost n = ckn(ck);
let ghost rc = row_coms(ck, pcoeffs(p));
@type out_y_polynomial_coms Vec<G1>
@inv y_polynomial_coms
invariant i_y_polynomial_coms <= n_y_polynomial_coms, n_y_polynomial_coms == m, $S0@ == p, $S1@.len() == 1, $S1@[0].coeffs@.len() == 0, p.len() <= m, pnorms(p), first_tier_ck@ == ck.0@, second_tier_ck@ == ck.1@, n == ckn(ck), m == ckm(ck),
   rc == row_coms(ck, pcoeffs(p)),
   out_y_polynomial_coms@.len() == i_y_polynomial_coms,
   forall|k: int| 0 <= k < i_y_polynomial_coms && k < p.len() ==> (#[trigger] p[k]).coeffs@.len() <= n,
   forall|k: int| 0 <= k < i_y_polynomial_coms ==> (#[trigger] out_y_polynomial_coms@[k]).dl() == rc[k],
decreases n_y_polynomial_coms - i_y_polynomial_coms
@at body_start y_polynomial_coms
proof { assert(rc[ix_y_polynomial_coms as int] == dot(dls(ck.0@), padto(rowc(pcoeffs(p), ix_y_polynomial_coms as int), n))); 
   if ix_y_polynomial_coms < p.len() { assert(pnorm(p[ix_y_polynomial_coms as int].coeffs@)); assert(rowc(pcoeffs(p), ix_y_polynomial_coms as int) == p[ix_y_polynomial_coms as int].coeffs@); }
   else { assert forall|e: Seq<Fr>| #[trigger] padto(e, n) == padto(rowc(pcoeffs(p), ix_y_polynomial_coms as int), n) || e.len() != 0 by { if e.len() == 0 { assert(e =~= Seq::<Fr>::empty()); } } }
   let c0 = if ix_y_polynomial_coms < p.len() { p[ix_y_polynomial_coms as int].coeffs@ } else { Seq::<Fr>::empty() };
   assert(rowc(pcoeffs(p), ix_y_polynomial_coms as int) =~= c0);
   assert forall|s: Seq<Fr>| s.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) == (if i < c0.len() { c0[i] } else { f0() })) implies #[trigger] dls(s) == padto(rowc(pcoeffs(p), ix_y_polynomial_coms as int), n) by { dls_fr(s); assert(s =~= padto(c0, n)); } }
@at elem y_polynomial_coms
proof { broadcast use scal_vw, dls_fr; let ix = ix_y_polynomial_coms as int;
   let pr = padto(rowc(pcoeffs(p), ix), n);
   assert(x_y_polynomial_coms.vw() == seq![x_y_polynomial_coms.dl()]);
   assert(dls(pr) == pr);
   dot_comm(dls(ck.0@), pr);
   assert(com_of(CKind::Dot, dls(ck.0@), pr) == seq![dot(dls(ck.0@), pr)]);
   assert(x_y_polynomial_coms.vw() == com_of(CKind::Dot, dls(ck.0@), pr));
   assert(x_y_polynomial_coms.vw()[0] == rc[ix]); }
@at let y_polynomial_coms
proof { broadcast use scal_vw; assert(dls(y_polynomial_coms@) =~= rc); dot_comm(dls(ck.1@), rc); assert(com_of(CKind::Dot, dls(ck.1@), rc) == seq![dot(dls(ck.1@), rc)]); }
@at fn_end
proof { broadcast use scal_vw; assert(r__->Ok_0.0.vw() == seq![r__->Ok_0.0.dl()]); assert(dls(r__->Ok_0.1@) == rc); assert(r__->Ok_0.0.vw()[0] == dot(dls(ck.1@), rc)); }
@end

@fn tr::BivariatePolynomialCommitment::open
@props C18,C25
@valid bi_fits(ck, bivariate_polynomial.y_polynomials@)
@attr #[verifier::rlimit(60)]
@requires
pnorms(bivariate_polynomial.y_polynomials@), pow2_keys(ck), y_polynomial_comms@.len() == ckm(ck)
@ensures C25
bivariate_polynomial.y_polynomials@.len() <= ckm(ck)
@ensures C18
res.is_ok()
@ensures C18
rows_fit(pcoeffs(bivariate_polynomial.y_polynomials@), ckm(ck), ckn(ck)) && dls(y_polynomial_comms@) == row_coms(ck, pcoeffs(bivariate_polynomial.y_polynomials@)) ==>
   res->Ok_0.accepted(dls(ck.0@), dls(ck.1@), dot(dls(ck.1@), dls(y_polynomial_comms@)), point.0, point.1, beval(pcoeffs(bivariate_polynomial.y_polynomials@), point.0, point.1))
@at fn_start
let ghost p = bivariate_polynomial.y_polynomials@;
let ghost ps = pcoeffs(p);
let ghost m = ckm(ck);
let ghost n = ckn(ck);
let ghost rw = rows(ps, m, n);
@type out_coeffs Vec<Vec<Fr>>
@inv coeffs
invariant i_coeffs <= n_coeffs, n_coeffs == m, $S0@ == p, $S1@.len() == 1, $S1@[0].coeffs@.len() == 0, p.len() <= m, first_tier_ck@ == ck.0@, second_tier_ck@ == ck.1@, n == ckn(ck), ps == pcoeffs(p), rw == rows(ps, m, n),
   out_coeffs@.len() == i_coeffs,
   forall|k: int| 0 <= k < i_coeffs ==> (#[trigger] out_coeffs@[k])@ == rw[k],
decreases n_coeffs - i_coeffs
@at elem coeffs
proof { assert(x_coeffs@ =~= rw[ix_coeffs as int]); }
@inv y_eval_coeffs
invariant i_y_eval_coeffs <= n_y_eval_coeffs, n_y_eval_coeffs == n, $L0 == 0, second_tier_ck@.len() == m, coeffs@.len() == m, powers_of_x@ == powers(*x, m), rw == rows(ps, m, n),
   forall|k: int| 0 <= k < m ==> (#[trigger] coeffs@[k])@ == rw[k],
   out_y_eval_coeffs@.len() == i_y_eval_coeffs,
   forall|k: int| 0 <= k < i_y_eval_coeffs ==> #[trigger] out_y_eval_coeffs@[k] == lin(rw, *x, m, n)[k],
decreases n_y_eval_coeffs - i_y_eval_coeffs
@type acc_chain Fr
@inv chain
invariant i_chain <= n_chain, n_chain == m, $L0 == 0, coeffs@.len() == m, powers_of_x@ == powers(*x, m), rw == rows(ps, m, n), j < n,
   forall|k: int| 0 <= k < m ==> (#[trigger] coeffs@[k])@ == rw[k],
   acc_chain == sumr(lin_term(rw, *x, j as int), 0, i_chain as int),
decreases n_chain - i_chain
@at body_start chain
proof { assert(coeffs@[ix_chain as int]@ == rw[ix_chain as int]); }
@at let powers_of_x
proof { assert(m >= 1 && n >= 1) by { let k = choose|k: nat| m == #[trigger] pow2(k); vstd::arithmetic::power2::lemma_pow2_pos(k); let k2 = choose|k: nat| n == #[trigger] pow2(k); vstd::arithmetic::power2::lemma_pow2_pos(k2); } }
@at let y_eval_coeffs
let ghost li = lin(rw, *x, m, n);
proof {
  broadcast use {scal_vw, dls_fr};
  assert(y_eval_coeffs@ =~= li);
  lin_swap(dls(ck.0@), rw, *x, m, n);
}
@at fn_end
proof {
  let cm = dls(y_polynomial_comms@);
  let o = r__->Ok_0;
  if rows_fit(ps, m, n) && cm == row_coms(ck, ps) {
    let k1 = dls(ck.0@); let k2 = dls(ck.1@);
    assert(y_eval_comm.vw() == com_of(CKind::Dot, k1, dls(y_eval_coeffs@)));
    assert(com_of(CKind::Dot, k1, li) == seq![dot(k1, li)]);
    assert(y_eval_comm.dl() == dot(k1, li)) by { assert(y_eval_comm.vw()[0] == y_eval_comm.dl()); }
    assert(dot(cm, powers(*x, m)) == y_eval_comm.dl());
    assert(com_of(CKind::Dot, k2, cm) == seq![dot(k2, cm)]);
    assert(powers_of_x@ == powers(*x, powers_of_x@.len()));
    assert(powers_of_y@ == powers(*y, powers_of_y@.len()));
    assert(!(AFGHOCommitmentG1::ckind() is Ident));
    assert(!(PedersenCommitment::<G1>::ckind() is Ident));
    assert(o.second_tier_ip_proof.ssm_accepted(k2, f0(), seq![dot(k2, cm)], seq![o.y_eval_comm.dl()], *x));
    lin_eval(ps, *x, *y, m, n);
    assert(dot(li, powers(*y, n)) == beval(ps, *x, *y));
    assert(dls(li) == li) by { dls_fr(li); }
    assert(o.first_tier_ip_proof.ssm_accepted(k1, f0(), seq![o.y_eval_comm.dl()], seq![beval(ps, *x, *y)], *y));
  }
}
@end

@fn tr::BivariatePolynomialCommitment::verify
@props C18,C19
@valid pow2_keys(ck)
@ensures C19
res.is_ok() && res->Ok_0 ==> proof.accepted(dls(ck.0@), dls(ck.1@), com.dl(), point.0, point.1, *eval)
@ensures C18,C19
proof.accepted(dls(ck.0@), dls(ck.1@), com.dl(), point.0, point.1, *eval) ==> res.is_ok() && res->Ok_0
@at fn_start
proof {
  broadcast use {scal_vw, dls_fr};
  assert forall|s: Seq<G1>| s.len() == 1 implies #[trigger] dls(s) == seq![s[0].dl()] by { dls1(s); }
  assert forall|s: Seq<Fr>| s.len() == 1 implies #[trigger] dls(s) == seq![s[0]] by { dls1(s); }
}
@end

@fn tr::UnivariatePolynomialCommitment::bivariate_degrees
@props C25
@requires
univariate_degree < pow2(50)
@ensures C25
res.0 as int == bdeg(univariate_degree as int, 8, 4).0 && res.1 as int == bdeg(univariate_degree as int, 8, 4).1
@ensures C25
is_pow2(res.0 + 1) && is_pow2(res.1 + 1) && (res.0 + 1) * (res.1 + 1) >= univariate_degree + 1 && res.0 + 1 <= pow2(26) && res.1 + 1 <= pow2(51)
@at fn_start
proof { vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest();
  assert forall|c: int| #[trigger] is_csqrt(univariate_degree + 1, c) implies 0 < c <= pow2(25) by { csqrt_small(univariate_degree as int, c); } }
@at let sqrt
proof { let c = choose|c: int| #[trigger] is_csqrt(univariate_degree + 1, c) && sqrt >= c && forall|m: int| #[trigger] is_pow2(m) && m >= c ==> m >= sqrt;
  root_at(univariate_degree as int, c, sqrt as int);
  assert(is_pow2(4)) by { assert(pow2(2) == 4); } bdeg_ok(univariate_degree as int, 8, 4, sqrt as int);
  let s = sqrt as int; assert(s * 4 <= pow2(29)); if s < 8 { assert(s * (s / 2) <= 32 && s * (s / 2) >= 0) by(nonlinear_arith) requires 0 <= s < 8; if s >= 2 { assert(s * (s / 2) >= 1) by(nonlinear_arith) requires s >= 2; } } }
@end

@fn tr::UnivariatePolynomialCommitment::parse_bivariate_degrees_from_ck
@props C25
@requires
ckm(ck) >= 1, ckn(ck) >= 1
@ensures C25
res.0 == ckm(ck) - 1 && res.1 == ckn(ck) - 1
@end

@fn tr::UnivariatePolynomialCommitment::bivariate_form
@props C18,C25
@valid len_ok(polynomial.coeffs@, bivariate_degrees)
@requires
(bivariate_degrees.0 + 1) * (bivariate_degrees.1 + 1) <= usize::MAX, bivariate_degrees.0 < usize::MAX, bivariate_degrees.1 < usize::MAX
@ensures C25
polynomial.coeffs@.len() <= (bivariate_degrees.0 + 1) * (bivariate_degrees.1 + 1)
@ensures C18,C25
blocks_of(polynomial.coeffs@, pcoeffs(res.y_polynomials@), (bivariate_degrees.0 + 1) as nat, (bivariate_degrees.1 + 1) as nat)
@at fn_start
let ghost c0 = polynomial.coeffs@;
let ghost m = (bivariate_degrees.0 + 1) as nat;
let ghost n = (bivariate_degrees.1 + 1) as nat;
@type y_polynomials Vec<Poly>
@type y_polynomial_coeffs Vec<Fr>
@inv for
invariant i_for <= n_for, n_for == m, $L0 == 0, n == y_degree + 1, pos_coeff_iter == i_for * n, n_coeff_iter == m * n,
   y_polynomials@.len() == i_for,
   forall|k: int| 0 <= k < i_for ==> stripped(block(c0, k, n), #[trigger] pcoeffs(y_polynomials@)[k]),
decreases n_for - i_for
@at before_loop for
proof { assert(0 * n == 0) by(nonlinear_arith); }
@inv for_2
invariant i_for_2 <= n_for_2, n_for_2 == n, $L0 == 0, pos_coeff_iter == ix_for * n + i_for_2, n_coeff_iter == m * n,
   y_polynomial_coeffs@.len() == i_for_2,
   forall|k: int| 0 <= k < i_for_2 ==> #[trigger] y_polynomial_coeffs@[k] == block(c0, ix_for as int, n)[k],
decreases n_for_2 - i_for_2
@at body_start for_2
proof { assert(ix_for * n + ix_for_2 < m * n) by(nonlinear_arith) requires ix_for < m, ix_for_2 < n; }
@at body_start for
let ghost yp0 = y_polynomials@;
@at body_end for
proof {
  assert(y_polynomial_coeffs@ =~= block(c0, ix_for as int, n));
  assert(ix_for * n + n == (ix_for + 1) * n) by(nonlinear_arith);
  assert forall|k: int| 0 <= k < i_for implies stripped(block(c0, k, n), #[trigger] pcoeffs(y_polynomials@)[k]) by {
    if k < ix_for { assert(pcoeffs(yp0)[k] == pcoeffs(y_polynomials@)[k]); }
  }
}
@end

@fn tr::UnivariatePolynomialCommitment::setup
@props C18,C25
@requires
degree < pow2(50)
@ensures C18,C25
res.is_ok() && ckm(&res->Ok_0) == bdeg(degree as int, 8, 4).0 + 1 && ckn(&res->Ok_0) == bdeg(degree as int, 8, 4).1 + 1 && pow2_keys(&res->Ok_0) && ckm(&res->Ok_0) * ckn(&res->Ok_0) >= degree + 1
@at fn_start
proof { vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest(); }
@end

@fn tr::UnivariatePolynomialCommitment::commit
@props C18,C25
@valid uni_fits(ck, polynomial.coeffs@)
@requires
ckm(ck) >= 1, ckn(ck) >= 1, ckm(ck) * ckn(ck) <= usize::MAX
@ensures C25
polynomial.coeffs@.len() <= ckm(ck) * ckn(ck)
@ensures C18,C25
res.is_ok() && exists|p: Seq<Poly>| #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(p), ckm(ck), ckn(ck)) && dls(res->Ok_0.1@) == row_coms(ck, pcoeffs(p))
@ensures C18
res->Ok_0.0.dl() == dot(dls(ck.1@), dls(res->Ok_0.1@))
@at fn_start
let ghost (m, n) = (ckm(ck), ckn(ck));
proof { assert(m <= usize::MAX && n <= usize::MAX) by(nonlinear_arith) requires m >= 1, n >= 1, m * n <= usize::MAX;
  assert forall|p: Seq<Poly>| #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(p), m, n) && polynomial.coeffs@.len() <= m * n implies pnorms(p) && pfits(p, m, n) by { uni_rows(polynomial.coeffs@, p, m, n, f0()); } }
@end

@fn tr::UnivariatePolynomialCommitment::open
@props C18,C25
@valid uni_fits(ck, polynomial.coeffs@)
@attr #[verifier::rlimit(60)]
@requires
ckm(ck) * ckn(ck) <= usize::MAX, pow2_keys(ck), y_polynomial_comms@.len() == ckm(ck), ckn(ck) < u64::MAX
@ensures C25
polynomial.coeffs@.len() <= ckm(ck) * ckn(ck)
@ensures C18
res.is_ok()
@ensures C18
forall|p: Seq<Poly>| #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(p), ckm(ck), ckn(ck)) && dls(y_polynomial_comms@) == row_coms(ck, pcoeffs(p)) ==>
   res->Ok_0.accepted(dls(ck.0@), dls(ck.1@), dot(dls(ck.1@), dls(y_polynomial_comms@)), fpow(*point, ckn(ck)), *point, peval(polynomial.coeffs@, *point))
@at fn_start
let ghost (m0, n0) = (ckm(ck), ckn(ck));
proof { assert(m0 >= 1 && n0 >= 1) by { let k = choose|k: nat| m0 == #[trigger] pow2(k); vstd::arithmetic::power2::lemma_pow2_pos(k); let k2 = choose|k: nat| n0 == #[trigger] pow2(k); vstd::arithmetic::power2::lemma_pow2_pos(k2); }
  assert(m0 <= usize::MAX && n0 <= usize::MAX) by(nonlinear_arith) requires m0 >= 1, n0 >= 1, m0 * n0 <= usize::MAX;
  assert forall|p: Seq<Poly>, q: Seq<Poly>| #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(p), m0, n0) && #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(q), m0, n0) implies pcoeffs(p) == pcoeffs(q) by { blocks_unique(polynomial.coeffs@, pcoeffs(p), pcoeffs(q), m0, n0); }
  assert forall|p: Seq<Poly>| #[trigger] blocks_of(polynomial.coeffs@, pcoeffs(p), m0, n0) && polynomial.coeffs@.len() <= m0 * n0 implies pnorms(p) && pfits(p, m0, n0) && rows_fit(pcoeffs(p), m0, n0) && beval(pcoeffs(p), fpow(*point, n0), *point) == peval(polynomial.coeffs@, *point) by { uni_rows(polynomial.coeffs@, p, m0, n0, *point); } }
@end

@fn tr::UnivariatePolynomialCommitment::verify
@props C18,C19,C25
@valid pow2_keys(ck)
@requires
ckm(ck) >= 1, ckn(ck) >= 1, ckn(ck) < u64::MAX
@ensures C19
res.is_ok() && res->Ok_0 ==> proof.accepted(dls(ck.0@), dls(ck.1@), com.dl(), fpow(*point, ckn(ck)), *point, *eval)
@ensures C18,C19
proof.accepted(dls(ck.0@), dls(ck.1@), com.dl(), fpow(*point, ckn(ck)), *point, *eval) ==> res.is_ok() && res->Ok_0
@end
