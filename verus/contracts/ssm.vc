@impl ssm::SSMPlaceholderCommitment::<DoublyHomomorphicCommitment>
open spec fn ckind() -> CKind { CKind::Zero }
@end

@ghost ssm
impl<IP: InnerProduct<LeftMessage = LMC::Message, RightMessage = Fr, Output = IPC::Message>, LMC: DoublyHomomorphicCommitment, IPC: DoublyHomomorphicCommitment> GIPAProof<IP, LMC, SSMPlaceholderCommitment, IPC> {
    pub open spec fn ssm_accepted(&self, ka: Seq<Fr>, kt: Fr, ca: Seq<Fr>, ct: Seq<Fr>, b: Fr) -> bool {
        ssm_accepts::<LMC, SSMPlaceholderCommitment, IPC>(ka, kt, ca, ct, self.st(), self.r_base.0.dl(), self.r_base.1.dl(), b)
    }
}
impl<IP: InnerProduct<LeftMessage = LMC::Message, RightMessage = Fr, Output = IPC::Message>, LMC: DoublyHomomorphicCommitment<Key = G2> + TIPACompatibleSetup, IPC: DoublyHomomorphicCommitment> TIPAWithSSMProof<IP, LMC, IPC> {
    pub open spec fn accepted(&self, g: Fr, h: Fr, g_beta: Fr, kt: Fr, ca: Seq<Fr>, ct: Seq<Fr>, b: Fr) -> bool {
        tipa_ssm_accepts::<LMC, SSMPlaceholderCommitment, IPC>(g, h, g_beta, kt, ca, ct, self.gipa_proof.st(), self.gipa_proof.r_base.0.dl(), self.final_ck.dl(), self.final_ck_proof.dl(), b)
    }
}
impl SRS {
    /// the part of a well-formed setup the structured-scalar argument uses
    pub open spec fn wf_l(&self, beta: Fr, n: nat) -> bool { dls(self.h_beta_powers@) == powers(beta, (2 * n - 1) as nat) }
    pub open spec fn fits_l(&self, n: nat) -> bool { self.h_beta_powers@.len() == 2 * n - 1 } }
@end

@fn ssm::GIPAWithSSM::setup
@props C02,C11
@ensures C02
res.is_ok() && res->Ok_0.0@.len() == size
@end

@fn ssm::GIPAWithSSM::prove_with_structured_scalar_message
@props C11
@requires
is_pow2(values.0@.len() as int), values.1@.len() == values.0@.len(), ck.0@.len() == values.0@.len()
@ensures C11
res.is_ok()
@ensures C11
forall|n: nat| #[trigger] pow2(n) == values.0@.len() ==> res->Ok_0.is_honest(seq![ck.1.dl()], ssm_ps(dls(values.0@), values.1@, dls(ck.0@)), n)
@ensures C11
!(LMC::ckind() is Ident) ==> forall|b: Fr| values.1@ == #[trigger] powers(b, values.1@.len()) ==>
   res->Ok_0.ssm_accepted(dls(ck.0@), ck.1.dl(), com_of(LMC::ckind(), dls(ck.0@), dls(values.0@)), com_of(IPC::ckind(), seq![ck.1.dl()], seq![dot(dls(values.0@), values.1@)]), b)
@at fn_start
let ghost nn: nat = choose|n: nat| #[trigger] pow2(n) == values.0@.len();
proof {
  broadcast use {dls1, dls_fr};
  IPC::Key::laws();
  assert(pow2(nn) == values.0@.len());
  assert forall|s: Seq<HomomorphicPlaceholderValue>| s.len() == values.0@.len() implies #[trigger] dls(s) == zeros(values.0@.len()) by { assert(dls(s) =~= zeros(values.0@.len())); }
}
@at fn_end
proof {
  assert forall|b: Fr| !(LMC::ckind() is Ident) && values.1@ == #[trigger] powers(b, values.1@.len()) implies
    r__->Ok_0.ssm_accepted(dls(ck.0@), ck.1.dl(), com_of(LMC::ckind(), dls(ck.0@), dls(values.0@)), com_of(IPC::ckind(), seq![ck.1.dl()], seq![dot(dls(values.0@), values.1@)]), b) by {
    ssm_honest::<LMC, SSMPlaceholderCommitment, IPC>(ck.1.dl(), dls(values.0@), dls(ck.0@), nn, b);
  }
}
@end

@fn ssm::GIPAWithSSM::verify_with_structured_scalar_message
@props C11,C12,C26
@valid is_pow2(ck.0@.len() as int)
@ensures C12
res.is_ok() && res->Ok_0 ==> proof.ssm_accepted(dls(ck.0@), ck.1.dl(), com.0.vw(), com.1.vw(), *scalar_b)
@ensures C11,C12
proof.ssm_accepted(dls(ck.0@), ck.1.dl(), com.0.vw(), com.1.vw(), *scalar_b) ==> res.is_ok() && res->Ok_0
@at fn_start
let ghost c0 = Com3 { a: com.0.vw(), b: seq![f0()], t: com.1.vw() };
let ghost t = rev(vchals::<LMC, SSMPlaceholderCommitment, IPC>(c0, proof.st()));
proof {
  broadcast use {dls1, dls_fr};
  LMC::Output::laws(); IPC::Output::laws(); IPC::Key::laws(); LMC::Message::laws(); LMC::Key::laws();
  vchals_nz::<LMC, SSMPlaceholderCommitment, IPC>(c0, proof.st());
  assert forall|s: Seq<HomomorphicPlaceholderValue>| s.len() == ck.0@.len() implies #[trigger] dls(s) == zeros(ck.0@.len()) by { assert(dls(s) =~= zeros(ck.0@.len())); }
  assert forall|x: Fr| #[trigger] dot(seq![proof.r_base.0.dl()], seq![x]) == proof.r_base.0.dl() * x by { dot1(proof.r_base.0.dl(), x); }
}
@type product_form Vec<Fr>
@inv for
invariant i_for <= n_for, n_for == t.len(), $S0@ == t, nz(t), power_2_b == ysq(*scalar_b, i_for as nat), product_form@.len() == i_for,
   forall|k: int| 0 <= k < i_for ==> #[trigger] product_form@[k] == f1() + invs(t)[k] * ysq(*scalar_b, k as nat),
decreases n_for - i_for
@type acc_b_base Fr
@inv b_base
invariant i_b_base <= n_b_base, n_b_base == t.len(), $S0@ == product_form@, acc_b_base == pprod(invs(t), *scalar_b, i_b_base as nat),
decreases n_b_base - i_b_base
@end

@fn ssm::TIPAWithSSM::setup
@props C08,C11
@requires
size > 0, 2 * size <= usize::MAX
@ensures C08
res.is_ok() ==> exists|i: nat, j: nat| i != j && #[trigger] res->Ok_0.0.wf(draw(advn(old(rng).state(), i), 0), draw(advn(old(rng).state(), j), 0), size as nat)
@ensures C08
res.is_ok()
@at fn_start
let ghost s0 = rng.state();
@at fn_end
proof {
  broadcast use {ax_of_dl_G1, ax_of_dl_G2};
  let n = (2 * size - 1) as nat;
  assert forall|x: Fr| #[trigger] pscale(powers(x, n), f1()) == powers(x, n) by {
    assert forall|k: int| 0 <= k < n implies pscale(powers(x, n), f1())[k] == powers(x, n)[k] by { ax_mul_one(fpow(x, k as nat)); }
    assert(pscale(powers(x, n), f1()) =~= powers(x, n));
  }
  ax_mul_comm(f1(), alpha); ax_mul_comm(f1(), beta); ax_mul_one(alpha); ax_mul_one(beta);
  assert forall|i: nat, j: nat| alpha == #[trigger] draw(advn(s0, i), 0) && beta == #[trigger] draw(advn(s0, j), 0) implies
     r__->Ok_0.0.wf(draw(advn(s0, i), 0), draw(advn(s0, j), 0), size as nat) by { }
  assert(advn(s0, 0) == s0);
  assert(advn(s0, 1) == adv(s0));
  assert((alpha == draw(advn(s0, 0), 0) && beta == draw(advn(s0, 1), 0)) || (alpha == draw(advn(s0, 1), 0) && beta == draw(advn(s0, 0), 0)));
}
@end

@fn ssm::TIPAWithSSM::prove_with_structured_scalar_message
@props C11
@valid srs.fits_l(values.0@.len())
@attr #[verifier::rlimit(60)]
@requires
is_pow2(values.0@.len() as int), values.1@.len() == values.0@.len(), ck.0@.len() == values.0@.len(), values.0@.len() <= pow2(60)
@ensures C11
res.is_ok()
@ensures C11
res.is_ok() ==> forall|n: nat| #[trigger] pow2(n) == values.0@.len() ==> res->Ok_0.gipa_proof.is_honest(seq![ck.1.dl()], ssm_ps(dls(values.0@), values.1@, dls(ck.0@)), n)
@ensures C11
!(LMC::ckind() is Ident) ==> forall|beta: Fr, b: Fr| #[trigger] srs.wf_l(beta, values.0@.len()) && dls(ck.0@) == ekey(beta, f1(), values.0@.len()) && values.1@ == #[trigger] powers(b, values.1@.len()) ==>
   res.is_ok() && res->Ok_0.accepted(f1(), f1(), beta, ck.1.dl(), com_of(LMC::ckind(), dls(ck.0@), dls(values.0@)), com_of(IPC::ckind(), seq![ck.1.dl()], seq![dot(dls(values.0@), values.1@)]), b)
@at fn_start
let ghost s0 = ssm_ps(dls(values.0@), values.1@, dls(ck.0@));
let ghost kt = seq![ck.1.dl()];
let ghost nn: nat = choose|n: nat| #[trigger] pow2(n) == values.0@.len();
proof {
   broadcast use {dls1, dls_fr};
   ax_one_ne_zero();
   IPC::Key::laws();
   assert(pow2(nn) == values.0@.len());
   if nn > 60 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(60, nn); }
   assert forall|m: nat| #[trigger] pow2(m) == values.0@.len() implies m == nn by { pow2_inj(m, nn); }
   honest_accepts_nz::<LMC, SSMPlaceholderCommitment, IPC>(kt, s0, nn);
   assert forall|s: Seq<HomomorphicPlaceholderValue>| s.len() == values.0@.len() implies #[trigger] dls(s) == zeros(values.0@.len()) by { assert(dls(s) =~= zeros(values.0@.len())); }
}
@at let transcript
let ghost t = rev(pchals::<LMC, SSMPlaceholderCommitment, IPC>(kt, s0, nn));
proof { assert(transcript@ == t); inv_seq_nz(t); }
@type out_transcript_inverse Vec<Fr>
@inv transcript_inverse
invariant i_transcript_inverse <= n_transcript_inverse, n_transcript_inverse == t.len(), $S0@ == t, nz(t), out_transcript_inverse@.len() == i_transcript_inverse,
   forall|k: int| 0 <= k < i_transcript_inverse ==> #[trigger] out_transcript_inverse@[k] == invs(t)[k],
decreases n_transcript_inverse - i_transcript_inverse
@at let transcript_inverse
proof { assert(transcript_inverse@ =~= invs(t)); }
let ghost fa = ck_a_final.dl();
proof { ax_kusable1(t, fa); }
@type brk_c Fr
@type default_transcript Fr
@inv c
invariant
   forall|m: usize| m < counter_nonce ==> #[trigger] kcand1(m, t, fa).is_none(),
   transcript@ == t, default_transcript == f0(), fa == ck_a_final.dl(),
ensures
   brk_c == kchal1(t, fa),
@at break
proof { assert(hash_input@ =~= khin1(counter_nonce, t, fa)); kchal1_is(counter_nonce, t, fa); } //#C11,C12
@at body_start c
proof { let n = choose|n: usize| n < usize::MAX && #[trigger] is_kchal1(n, t, fa); if n < counter_nonce { assert(kcand1(n, t, fa).is_none()); } }
@at fn_end
proof {
  assert forall|beta: Fr, b: Fr| !(LMC::ckind() is Ident) && #[trigger] srs.wf_l(beta, values.0@.len()) && dls(ck.0@) == ekey(beta, f1(), values.0@.len()) && values.1@ == #[trigger] powers(b, values.1@.len()) implies
    r__.is_ok() && r__->Ok_0.accepted(f1(), f1(), beta, ck.1.dl(), com_of(LMC::ckind(), dls(ck.0@), dls(values.0@)), com_of(IPC::ckind(), seq![ck.1.dl()], seq![dot(dls(values.0@), values.1@)]), b) by {
    assert(dls(srs.h_beta_powers@).len() == srs.h_beta_powers@.len());
    assert(dls(srs.h_beta_powers@) == powers(beta, srs.h_beta_powers@.len()));
    assert(ck_a_kzg_opening.dl() * (beta - c) == keyval(invs(t), beta, f1()) - keyval(invs(t), c, f1()));
    tipa_ssm_honest::<LMC, SSMPlaceholderCommitment, IPC>(ck.1.dl(), dls(values.0@), nn, b, beta, ck_a_kzg_opening.dl());
  }
}
@end

@fn ssm::TIPAWithSSM::verify_with_structured_scalar_message
@props C11,C12,C26
@ensures C12
res.is_ok() && res->Ok_0 ==> proof.accepted(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), ck_t.dl(), com.0.vw(), com.1.vw(), *scalar_b)
@ensures C11,C12
proof.accepted(v_srs.g.dl(), v_srs.h.dl(), v_srs.g_beta.dl(), ck_t.dl(), com.0.vw(), com.1.vw(), *scalar_b) ==> res.is_ok() && res->Ok_0
@at fn_start
let ghost c0 = Com3 { a: com.0.vw(), b: seq![f0()], t: com.1.vw() };
let ghost c1 = com3((*com.0, *scalar_b, *com.1));
let ghost st = proof.gipa_proof.st();
let ghost t = rev(vchals::<LMC, SSMPlaceholderCommitment, IPC>(c0, st));
proof {
  broadcast use {dls1, dls_fr};
  ax_one_ne_zero();
  LMC::Output::laws(); IPC::Output::laws(); IPC::Key::laws(); LMC::Message::laws();
  vchals_nz::<LMC, SSMPlaceholderCommitment, IPC>(c0, st);
  vchals_b::<LMC, SSMPlaceholderCommitment, IPC>(c0, c1, st);
  vrun_b::<LMC, SSMPlaceholderCommitment, IPC>(c0, c1, st, st.len());
  assert forall|x: Fr| #[trigger] dot(seq![proof.gipa_proof.r_base.0.dl()], seq![x]) == proof.gipa_proof.r_base.0.dl() * x by { dot1(proof.gipa_proof.r_base.0.dl(), x); }
}
@type out_transcript_inverse Vec<Fr>
@inv transcript_inverse
invariant i_transcript_inverse <= n_transcript_inverse, n_transcript_inverse == t.len(), $S0@ == t, nz(t), out_transcript_inverse@.len() == i_transcript_inverse,
   forall|k: int| 0 <= k < i_transcript_inverse ==> #[trigger] out_transcript_inverse@[k] == invs(t)[k],
decreases n_transcript_inverse - i_transcript_inverse
@at let transcript_inverse
proof { assert(transcript_inverse@ =~= invs(t)); }
let ghost fa = proof.final_ck.dl();
proof { ax_kusable1(t, fa); }
@type brk_c Fr
@type default_transcript Fr
@inv c
invariant
   forall|m: usize| m < counter_nonce ==> #[trigger] kcand1(m, t, fa).is_none(),
   transcript@ == t, default_transcript == f0(), fa == ck_a_final.dl(),
ensures
   brk_c == kchal1(t, fa),
@at break
proof { assert(hash_input@ =~= khin1(counter_nonce, t, fa)); kchal1_is(counter_nonce, t, fa); } //#C12
@at body_start c
proof { let n = choose|n: usize| n < usize::MAX && #[trigger] is_kchal1(n, t, fa); if n < counter_nonce { assert(kcand1(n, t, fa).is_none()); } }
@type product_form Vec<Fr>
@inv for
invariant i_for <= n_for, n_for == t.len(), $S0@ == t, nz(t), power_2_b == ysq(*scalar_b, i_for as nat), product_form@.len() == i_for,
   forall|k: int| 0 <= k < i_for ==> #[trigger] product_form@[k] == f1() + invs(t)[k] * ysq(*scalar_b, k as nat),
decreases n_for - i_for
@type acc_b_base Fr
@inv b_base
invariant i_b_base <= n_b_base, n_b_base == t.len(), $S0@ == product_form@, acc_b_base == pprod(invs(t), *scalar_b, i_b_base as nat),
decreases n_b_base - i_b_base
@end

@fn ssm::structured_scalar_power
@props C11
@ensures C11
res@ == powers(*s, if num > 1 { num as nat } else { 1 })
@at before_loop for
proof { assert(powers@ =~= crate::powers(*s, 1)); }
@inv for
invariant i_for <= n_for, n_for == (if num > 1 { num - 1 } else { 0 }), $L0 == 1, powers@ == crate::powers(*s, (i_for + 1) as nat),
decreases n_for - i_for
@at body_end for
proof { assert(powers@ =~= crate::powers(*s, (i_for + 1) as nat)); }
@end

@fn ssm::SSMPlaceholderCommitment::<DoublyHomomorphicCommitment>::commit
@props C02
@at fn_start
proof { Fr::scal_laws(); }
@end

@impl ssm::TIPAWithSSMProof::<Clone>
open spec fn same(&self, o: &Self) -> bool { self.gipa_proof.same(&o.gipa_proof) && self.final_ck.same(&o.final_ck) && self.final_ck_proof.same(&o.final_ck_proof) }
@fn ssm::TIPAWithSSMProof::<Clone>::clone
@props C24
@end
