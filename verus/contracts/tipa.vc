@ghost tipa
impl SRS {
    /// 2n-1 powers of alpha (g side) and beta (h side) starting at the generators, and the cross elements
    pub open spec fn wf(&self, alpha: Fr, beta: Fr, n: nat) -> bool {
        &&& dls(self.g_alpha_powers@) == powers(alpha, (2 * n - 1) as nat)
        &&& dls(self.h_beta_powers@) == powers(beta, (2 * n - 1) as nat)
        &&& self.g_beta.dl() == beta && self.h_alpha.dl() == alpha
    }
}
impl SRS { pub open spec fn fits(&self, r: Fr, n: nat) -> bool { r != f0() && self.h_beta_powers@.len() == 2 * n - 1 && self.g_alpha_powers@.len() == 2 * n - 1 } }
pub open spec fn open_valid(n: nat, t: Seq<Fr>, r: Fr) -> bool { n == 2 * pow2(t.len()) - 1 && nz(t) && r != f0() }
impl VerifierSRS {
    pub open spec fn wf(&self, alpha: Fr, beta: Fr) -> bool { self.g.dl() == f1() && self.h.dl() == f1() && self.g_beta.dl() == beta && self.h_alpha.dl() == alpha }
}
impl<IP: InnerProduct<LeftMessage = LMC::Message, RightMessage = RMC::Message, Output = IPC::Message>, LMC: DoublyHomomorphicCommitment<Key = G2> + TIPACompatibleSetup, RMC: DoublyHomomorphicCommitment<Key = G1> + TIPACompatibleSetup, IPC: DoublyHomomorphicCommitment> TIPAProof<IP, LMC, RMC, IPC> {
    pub open spec fn accepted(&self, g: Fr, h: Fr, g_beta: Fr, h_alpha: Fr, kt: Fr, c0: Com3, r: Fr) -> bool {
        tipa_accepts::<LMC, RMC, IPC>(g, h, g_beta, h_alpha, kt, c0, self.gipa_proof.st(), self.gipa_proof.r_base.0.dl(), self.gipa_proof.r_base.1.dl(),
            self.final_ck.0.dl(), self.final_ck.1.dl(), self.final_ck_proof.0.dl(), self.final_ck_proof.1.dl(), r)
    }
}
@end

@fn tipa::SRS::get_commitment_keys
@props C08
@ensures C08
res.0@.len() == ceil_div(self.h_beta_powers@.len() as int, 2) && res.1@.len() == ceil_div(self.g_alpha_powers@.len() as int, 2)
@ensures C08
forall|i: int| 0 <= i < res.0@.len() ==> (#[trigger] res.0@[i]).dl() == self.h_beta_powers@[2 * i].dl()
@ensures C08
forall|i: int| 0 <= i < res.1@.len() ==> (#[trigger] res.1@[i]).dl() == self.g_alpha_powers@[2 * i].dl()
@ensures C08,C09
forall|alpha: Fr, beta: Fr, n: nat| n > 0 && #[trigger] self.wf(alpha, beta, n) ==> dls(res.0@) == ekey(beta, f1(), n) && dls(res.1@) == ekey(alpha, f1(), n)
@type out_ck_1 Vec<G2>
@type out_ck_2 Vec<G1>
@inv ck_1
invariant i_ck_1 <= n_ck_1, n_ck_1 == ceil_div($S0@.len() as int, 2), $K0 == 2, $S0@ == self.h_beta_powers@, out_ck_1@.len() == i_ck_1, $S0@.len() > 0 ==> (n_ck_1 - 1) * 2 < $S0@.len(),
   forall|k: int| 0 <= k < i_ck_1 ==> (#[trigger] out_ck_1@[k]).dl() == $S0@[2 * k].dl(),
decreases n_ck_1 - i_ck_1
@inv ck_2
invariant i_ck_2 <= n_ck_2, n_ck_2 == ceil_div($S0@.len() as int, 2), $K0 == 2, $S0@ == self.g_alpha_powers@, out_ck_2@.len() == i_ck_2, $S0@.len() > 0 ==> (n_ck_2 - 1) * 2 < $S0@.len(),
   forall|k: int| 0 <= k < i_ck_2 ==> (#[trigger] out_ck_2@[k]).dl() == $S0@[2 * k].dl(),
decreases n_ck_2 - i_ck_2
@at fn_end
proof {
  assert forall|alpha: Fr, beta: Fr, n: nat| n > 0 && #[trigger] self.wf(alpha, beta, n) implies dls(r__.0@) == ekey(beta, f1(), n) && dls(r__.1@) == ekey(alpha, f1(), n) by {
    assert(dls(self.h_beta_powers@).len() == 2 * n - 1); assert(dls(self.g_alpha_powers@).len() == 2 * n - 1);
    assert forall|i: int| 0 <= i < n implies dls(r__.0@)[i] == ekey(beta, f1(), n)[i] by { assert(dls(self.h_beta_powers@)[2 * i] == powers(beta, (2 * n - 1) as nat)[2 * i]); fpow_one(i as nat); ax_mul_one(fpow(beta, (2 * i) as nat)); }
    assert forall|i: int| 0 <= i < n implies dls(r__.1@)[i] == ekey(alpha, f1(), n)[i] by { assert(dls(self.g_alpha_powers@)[2 * i] == powers(alpha, (2 * n - 1) as nat)[2 * i]); fpow_one(i as nat); ax_mul_one(fpow(alpha, (2 * i) as nat)); }
    assert(dls(r__.0@) =~= ekey(beta, f1(), n)); assert(dls(r__.1@) =~= ekey(alpha, f1(), n));
  }
}
@end

@fn tipa::SRS::get_verifier_key
@props C08
@requires
self.g_alpha_powers@.len() > 0, self.h_beta_powers@.len() > 0
@ensures C08
res.g.dl() == self.g_alpha_powers@[0].dl() && res.h.dl() == self.h_beta_powers@[0].dl() && res.g_beta.dl() == self.g_beta.dl() && res.h_alpha.dl() == self.h_alpha.dl()
@ensures C08,C09
forall|alpha: Fr, beta: Fr, n: nat| n > 0 && #[trigger] self.wf(alpha, beta, n) ==> res.wf(alpha, beta)
@at fn_end
proof {
  assert forall|alpha: Fr, beta: Fr, n: nat| n > 0 && #[trigger] self.wf(alpha, beta, n) implies r__.wf(alpha, beta) by {
    assert(dls(self.h_beta_powers@)[0] == powers(beta, (2 * n - 1) as nat)[0]); assert(dls(self.g_alpha_powers@)[0] == powers(alpha, (2 * n - 1) as nat)[0]);
  }
}
@end

@fn tipa::structured_generators_scalar_power
@props C08
@valid num > 0
@ensures C08
dls(res@) == pscale(powers(*s, num as nat), g.dl())
@ensures C08
res@.len() == num && num > 0
@type powers_of_scalar Vec<Fr>
@at fn_start
proof { G::laws(); }
@inv for
invariant i_for <= n_for, n_for == num, pow_s == fpow(*s, i_for as nat), powers_of_scalar@ == powers(*s, i_for as nat),
decreases n_for - i_for
@at body_end for
proof { assert(powers_of_scalar@ =~= powers(*s, i_for as nat)); }
@at before_loop for
proof { assert(powers_of_scalar@ =~= powers(*s, 0)); }
@at fn_end
proof { assert(powers_of_scalar@ == powers(*s, num as nat)); assert(dls(r__@).len() == num); }
@end

@fn tipa::TIPA::setup
@props C08
@requires
size > 0, 2 * size <= usize::MAX
@ensures C08
res.is_ok() ==> exists|i: nat, j: nat| i != j && #[trigger] res->Ok_0.0.wf(draw(advn(old(rng).state(), i), 0), draw(advn(old(rng).state(), j), 0), size as nat)
@ensures C08
res.is_ok()
@at fn_start
let ghost s0 = rng.state();
@at fn_end
proof {
  broadcast use {ax_of_dl_G1, ax_of_dl_G2};
  let n = (2 * size - 1) as nat;
  assert forall|x: Fr| #[trigger] pscale(powers(x, n), f1()) == powers(x, n) by {
    assert forall|k: int| 0 <= k < n implies pscale(powers(x, n), f1())[k] == powers(x, n)[k] by { ax_mul_one(fpow(x, k as nat)); }
    assert(pscale(powers(x, n), f1()) =~= powers(x, n));
  }
  ax_mul_comm(f1(), alpha); ax_mul_comm(f1(), beta); ax_mul_one(alpha); ax_mul_one(beta);
  assert forall|i: nat, j: nat| alpha == #[trigger] draw(advn(s0, i), 0) && beta == #[trigger] draw(advn(s0, j), 0) implies
     r__->Ok_0.0.wf(draw(advn(s0, i), 0), draw(advn(s0, j), 0), size as nat) by { }
  assert(advn(s0, 0) == s0);
  assert(advn(s0, 1) == adv(s0));
  assert((alpha == draw(advn(s0, 0), 0) && beta == draw(advn(s0, 1), 0)) || (alpha == draw(advn(s0, 1), 0) && beta == draw(advn(s0, 0), 0)));
}
@end

@fn tipa::TIPA::prove
@props C09
@requires
is_pow2(values.0@.len() as int), values.1@.len() == values.0@.len(), ck.0@.len() == values.0@.len(), ck.1@.len() == values.0@.len(), values.0@.len() <= pow2(60)
@ensures C09
res.is_ok()
@ensures C09
foldable::<LMC, RMC>() ==> forall|alpha: Fr, beta: Fr| #[trigger] srs.wf(alpha, beta, values.0@.len()) && dls(ck.0@) == ekey(beta, f1(), values.0@.len()) && dls(ck.1@) == ekey(alpha, f1(), values.0@.len()) ==>
   res.is_ok() && res->Ok_0.accepted(f1(), f1(), beta, alpha, ck.2.dl(), gcoms::<LMC, RMC, IPC>(seq![ck.2.dl()], psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@)), f1())
@at fn_start
proof { ax_one_ne_zero(); ax_inv(f1()); ax_mul_comm(f1(), finv(f1())); ax_mul_one(finv(f1())); }
@end

@fn tipa::TIPA::prove_with_srs_shift
@props C09
@valid srs.fits(*r_shift, values.0@.len())
@attr #[verifier::rlimit(60)]
@requires
is_pow2(values.0@.len() as int), values.1@.len() == values.0@.len(), ck.0@.len() == values.0@.len(), ck.1@.len() == values.0@.len(), values.0@.len() <= pow2(60)
@ensures C09
res.is_ok()
@ensures C09,C10
res.is_ok() ==> forall|n: nat| #[trigger] pow2(n) == values.0@.len() ==> ({
   let p = prun::<LMC, RMC, IPC>(seq![ck.2.dl()], psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@), n).ps;
   res->Ok_0.gipa_proof.is_honest(seq![ck.2.dl()], psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@), n) && res->Ok_0.final_ck.0.dl() == p.ka[0] && res->Ok_0.final_ck.1.dl() == p.kb[0] })
@ensures C09
foldable::<LMC, RMC>() ==> forall|alpha: Fr, beta: Fr| #[trigger] srs.wf(alpha, beta, values.0@.len()) && dls(ck.0@) == ekey(beta, finv(*r_shift), values.0@.len()) && dls(ck.1@) == ekey(alpha, f1(), values.0@.len()) ==>
   res.is_ok() && res->Ok_0.accepted(f1(), f1(), beta, alpha, ck.2.dl(), gcoms::<LMC, RMC, IPC>(seq![ck.2.dl()], psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@)), *r_shift)
@at fn_start
let ghost s0 = psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@);
let ghost kt = seq![ck.2.dl()];
let ghost nn: nat = choose|n: nat| #[trigger] pow2(n) == values.0@.len();
proof {
   broadcast use dls1;
   IPC::Key::laws();
   assert(pow2(nn) == values.0@.len());
   if nn > 60 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(60, nn); }
   assert forall|m: nat| #[trigger] pow2(m) == values.0@.len() implies m == nn by { pow2_inj(m, nn); }
   honest_accepts_nz::<LMC, RMC, IPC>(kt, s0, nn);
}
@at let transcript
let ghost t = rev(pchals::<LMC, RMC, IPC>(kt, s0, nn));
proof { assert(transcript@ == t); inv_seq_nz(t); }
@type out_transcript_inverse Vec<Fr>
@inv transcript_inverse
invariant i_transcript_inverse <= n_transcript_inverse, n_transcript_inverse == t.len(), $S0@ == t, out_transcript_inverse@.len() == i_transcript_inverse,
   forall|k: int| 0 <= k < i_transcript_inverse ==> #[trigger] out_transcript_inverse@[k] == invs(t)[k],
decreases n_transcript_inverse - i_transcript_inverse
@at let transcript_inverse
proof { assert(transcript_inverse@ =~= invs(t)); }
@at let r_inverse
proof { inv_nz(*r_shift); }
let ghost fa = ck_a_final.dl();
let ghost fb = ck_b_final.dl();
proof { ax_kusable(t, fa, fb); }
@type brk_c Fr
@type default_transcript Fr
@inv c
invariant
   forall|m: usize| m < counter_nonce ==> #[trigger] kcand(m, t, fa, fb).is_none(),
   transcript@ == t, default_transcript == f0(), fa == ck_a_final.dl(), fb == ck_b_final.dl(),
ensures
   brk_c == kchal(t, fa, fb),
@at break
proof { assert(hash_input@ =~= khin(counter_nonce, t, fa, fb)); kchal_is(counter_nonce, t, fa, fb); } //#C09,C10
@at assign counter_nonce
@at body_start c
proof { let n = choose|n: usize| n < usize::MAX && #[trigger] is_kchal(n, t, fa, fb); if n < counter_nonce { assert(kcand(n, t, fa, fb).is_none()); } }
@at fn_end
proof {
  assert forall|alpha: Fr, beta: Fr| foldable::<LMC, RMC>() && #[trigger] srs.wf(alpha, beta, values.0@.len()) && dls(ck.0@) == ekey(beta, finv(*r_shift), values.0@.len()) && dls(ck.1@) == ekey(alpha, f1(), values.0@.len()) implies
    r__.is_ok() && r__->Ok_0.accepted(f1(), f1(), beta, alpha, ck.2.dl(), gcoms::<LMC, RMC, IPC>(kt, s0), *r_shift) by {
    assert(dls(srs.h_beta_powers@).len() == srs.h_beta_powers@.len()); assert(dls(srs.g_alpha_powers@).len() == srs.g_alpha_powers@.len());
    assert(dls(srs.h_beta_powers@) == powers(beta, srs.h_beta_powers@.len())); assert(dls(srs.g_alpha_powers@) == powers(alpha, srs.g_alpha_powers@.len()));
    assert(ck_a_kzg_opening.dl() * (beta - c) == keyval(invs(t), beta, finv(*r_shift)) - keyval(invs(t), c, finv(*r_shift)));
    assert(ck_b_kzg_opening.dl() * (alpha - c) == keyval(t, alpha, f1()) - keyval(t, c, f1()));
    tipa_honest::<LMC, RMC, IPC>(ck.2.dl(), s0, nn, alpha, beta, *r_shift, ck_a_kzg_opening.dl(), ck_b_kzg_opening.dl());
  }
}
@end

@fn tipa::TIPA::verify
@props C09,C10
@ensures C10
res.is_ok() && res->Ok_0 ==> proof.accepted(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), v_srs.h_alpha.dl(), ck_t.dl(), com3((*com.0, *com.1, *com.2)), f1())
@ensures C09,C10
proof.accepted(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), v_srs.h_alpha.dl(), ck_t.dl(), com3((*com.0, *com.1, *com.2)), f1()) ==> res.is_ok() && res->Ok_0
@at fn_start
proof { ax_one_ne_zero(); }
@end

@fn tipa::TIPA::verify_with_srs_shift
@props C09,C10
@valid *r_shift != f0()
@ensures C10
res.is_ok() && res->Ok_0 ==> proof.accepted(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), v_srs.h_alpha.dl(), ck_t.dl(), com3((*com.0, *com.1, *com.2)), *r_shift)
@ensures C09,C10
proof.accepted(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), v_srs.h_alpha.dl(), ck_t.dl(), com3((*com.0, *com.1, *com.2)), *r_shift) ==> res.is_ok() && res->Ok_0
@at fn_start
proof {
  broadcast use dls1;
  LMC::Output::laws(); RMC::Output::laws(); IPC::Output::laws(); IPC::Key::laws(); LMC::Message::laws(); RMC::Message::laws();
  vchals_nz::<LMC, RMC, IPC>(com3((*com.0, *com.1, *com.2)), proof.gipa_proof.st());
  dot1(proof.gipa_proof.r_base.0.dl(), proof.gipa_proof.r_base.1.dl());
}
@at let transcript
let ghost t = rev(vchals::<LMC, RMC, IPC>(com3((*com.0, *com.1, *com.2)), proof.gipa_proof.st()));
@type out_transcript_inverse Vec<Fr>
@inv transcript_inverse
invariant i_transcript_inverse <= n_transcript_inverse, n_transcript_inverse == t.len(), $S0@ == t, out_transcript_inverse@.len() == i_transcript_inverse,
   forall|k: int| 0 <= k < i_transcript_inverse ==> #[trigger] out_transcript_inverse@[k] == invs(t)[k],
decreases n_transcript_inverse - i_transcript_inverse
@at let transcript_inverse
proof { assert(transcript_inverse@ =~= invs(t)); }
let ghost fa = proof.final_ck.0.dl();
let ghost fb = proof.final_ck.1.dl();
proof { ax_kusable(t, fa, fb); }
@type brk_c Fr
@type default_transcript Fr
@inv c
invariant
   forall|m: usize| m < counter_nonce ==> #[trigger] kcand(m, t, fa, fb).is_none(),
   transcript@ == t, default_transcript == f0(), fa == ck_a_final.dl(), fb == ck_b_final.dl(),
ensures
   brk_c == kchal(t, fa, fb),
@at break
proof { assert(hash_input@ =~= khin(counter_nonce, t, fa, fb)); kchal_is(counter_nonce, t, fa, fb); } //#C10
@at body_start c
proof { let n = choose|n: usize| n < usize::MAX && #[trigger] is_kchal(n, t, fa, fb); if n < counter_nonce { assert(kcand(n, t, fa, fb).is_none()); } }
@end

@fn tipa::prove_commitment_key_kzg_opening
@props C09
@requires
transcript@.len() <= 60
@valid open_valid(srs_powers@.len(), transcript@, *r_shift)
@ensures C09
res.is_ok()
@ensures C09
forall|beta: Fr| dls(srs_powers@) == #[trigger] powers(beta, srs_powers@.len()) ==>
   res->Ok_0.dl() * (beta - *kzg_challenge) == keyval(transcript@, beta, *r_shift) - keyval(transcript@, *kzg_challenge, *r_shift)
@at let ck_polynomial
let ghost c0 = ck_polynomial.coeffs@;
let ghost zz = *kzg_challenge;
proof { key_poly(transcript@, *r_shift, c0, zz); }
@at let ck_polynomial_c_eval
let ghost ev = keyval(transcript@, zz, *r_shift);
proof { broadcast use dls_fr; ax_one_ne_zero(); 
  assert forall|s: Seq<Fr>, b: Poly| #[trigger] stripped(s, b.coeffs@) && s.len() == 2 && s[0] == -zz && s[1] == f1() implies b.coeffs@ == seq![-zz, f1()] by {
    if b.coeffs@.len() < 2 { assert(s[1] == f0()); } assert(b.coeffs@ =~= seq![-zz, f1()]); }
}
let ghost cp = ck_polynomial;
proof {
  assert forall|s: Seq<Fr>, e: Poly, b: Poly, x: Fr| #[trigger] stripped(s, e.coeffs@) && s.len() == 1 && s[0] == ev && b.coeffs@ == seq![-zz, f1()] implies
     (#[trigger] poly_div(poly_sub(cp, e), b)).coeffs@.len() <= c0.len() && #[trigger] peval(poly_div(poly_sub(cp, e), b).coeffs@, x) * (x - zz) == keyval(transcript@, x, *r_shift) - ev by {
     assert(s =~= seq![ev]);
     quot(cp, e, b, zz, ev, x);
     key_poly(transcript@, *r_shift, c0, x);
  }
}
@at let opening
proof {
  let q = quotient_polynomial.coeffs@;
  let n = srs_powers@.len();
  assert(quotient_polynomial_coeffs@ =~= padto(q, n));
  assert forall|beta: Fr| dls(srs_powers@) == #[trigger] powers(beta, n) implies
    opening->Ok_0.dl() * (beta - zz) == keyval(transcript@, beta, *r_shift) - ev by {
    assert(peval(q, beta) * (beta - zz) == keyval(transcript@, beta, *r_shift) - ev);
    pad_peval(q, n, beta);
    dot_comm(powers(beta, n), padto(q, n));
  }
}
@end

@fn tipa::verify_commitment_key_g2_kzg_opening
@props C10
@ensures C10
res.is_ok() && res->Ok_0 == kzg_a(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), ck_final.dl(), ck_opening.dl(), keyval(transcript@, *kzg_challenge, *r_shift), *kzg_challenge)
@at fn_start
proof { broadcast use {ax_of_dl_G1, ax_of_dl_G2}; }
@end

@fn tipa::verify_commitment_key_g1_kzg_opening
@props C10
@ensures C10
res.is_ok() && res->Ok_0 == kzg_b(v_srs.g.dl(), v_srs.h.dl(), v_srs.h_alpha.dl(), ck_final.dl(), ck_opening.dl(), keyval(transcript@, *kzg_challenge, *r_shift), *kzg_challenge)
@at fn_start
proof { broadcast use {ax_of_dl_G1, ax_of_dl_G2}; }
@end

@fn tipa::polynomial_evaluation_product_form_from_transcript
@props C09,C10
@ensures C09,C10
res == keyval(transcript@, *z, *r_shift)
@type product_form Vec<Fr>
@at fn_start
let ghost y = (*z * *z) * *r_shift;
let ghost t = transcript@;
@inv for
invariant i_for <= n_for, n_for == t.len(), $S0@ == t, power_2_zr == ysq(y, i_for as nat), product_form@.len() == i_for,
   forall|k: int| 0 <= k < i_for ==> #[trigger] product_form@[k] == f1() + t[k] * ysq(y, k as nat),
decreases n_for - i_for
@type acc_ret Fr
@inv ret
invariant i_ret <= n_ret, n_ret == t.len(), $S0@ == product_form@, acc_ret == pprod(t, y, i_ret as nat),
decreases n_ret - i_ret
@end

@fn tipa::polynomial_coefficients_from_transcript
@props C09
@requires
transcript@.len() <= 60
@ensures C09
res@ == ilz(expo(tw(transcript@, *r_shift), transcript@.len()))
@at fn_start
let ghost t = transcript@;
let ghost w = tw(t, *r_shift);
@type coefficients Vec<Fr>
@type out_ret Vec<Fr>
@at before_loop for
proof { assert(coefficients@ =~= expo(w, 0)); }
@inv for
invariant i_for <= n_for, n_for == t.len(), $S0@ == t, power_2_r == ysq(*r_shift, i_for as nat), coefficients@ == expo(w, i_for as nat),
decreases n_for - i_for
@at body_start for
let ghost e = expo(w, ix_for as nat);
proof {
  expo_len(w, ix_for as nat); vstd::arithmetic::power2::lemma_pow2(ix_for as nat);
  vstd::arithmetic::power2::lemma_pow2_strictly_increases(ix_for as nat, 61); vstd::arithmetic::power2::lemma2_to64_rest(); vstd::arithmetic::power2::lemma2_to64();
}
@at before_loop for_2
proof { assert(coefficients@ =~= e + pscale(e, w[ix_for as int]).subrange(0, 0)); }
@inv for_2
invariant i_for_2 <= n_for_2, n_for_2 == pow2(ix_for as nat), $L0 == 0, e.len() == pow2(ix_for as nat), *x == t[ix_for as int], power_2_r == ysq(*r_shift, ix_for as nat),
   coefficients@ == e + pscale(e, w[ix_for as int]).subrange(0, i_for_2 as int),
decreases n_for_2 - i_for_2
@at body_end for_2
proof { assert(coefficients@ =~= e + pscale(e, w[ix_for as int]).subrange(0, i_for_2 as int)); }
@at after_loop for_2
proof { assert(coefficients@ =~= expo(w, (ix_for + 1) as nat)); }
@at after_loop for
proof {
  expo_len(w, t.len());
  vstd::arithmetic::power2::lemma2_to64_rest(); vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma_pow2_pos(t.len());
  vstd::arithmetic::power2::lemma_pow2_strictly_increases(t.len(), 61);
}
@at before_loop ret
let ghost cc = expo(w, t.len());
@inv ret
invariant i_ret <= n_ret, n_ret == 2 * cc.len() - 1, n_ret == ilz(cc).len(), $S0@ == cc, $S1@.len() == 1, $S1@[0] == f0(), out_ret@.len() == i_ret,
   forall|k: int| 0 <= k < i_ret ==> #[trigger] out_ret@[k] == ilz(cc)[k],
decreases n_ret - i_ret
@at fn_end
proof { assert(r__@ =~= ilz(expo(w, t.len()))); }
@end

@impl tipa::TIPAProof::<Clone>
open spec fn same(&self, o: &Self) -> bool { self.gipa_proof.same(&o.gipa_proof) && self.final_ck.same(&o.final_ck) && self.final_ck_proof.same(&o.final_ck_proof) }
@fn tipa::TIPAProof::<Clone>::clone
@props C24
@end
