@ghost gipa
pub open spec fn psv<IP: InnerProduct<LeftMessage = LMC::Message, RightMessage = RMC::Message, Output = IPC::Message>, LMC: DoublyHomomorphicCommitment, RMC: DoublyHomomorphicCommitment, IPC: DoublyHomomorphicCommitment>(ma: Seq<LMC::Message>, mb: Seq<RMC::Message>, ka: Seq<LMC::Key>, kb: Seq<RMC::Key>) -> PS {
    PS { ma: dls(ma), mb: dls(mb), ka: dls(ka), kb: dls(kb) }
}
impl<IP: InnerProduct<LeftMessage = LMC::Message, RightMessage = RMC::Message, Output = IPC::Message>, LMC: DoublyHomomorphicCommitment, RMC: DoublyHomomorphicCommitment, IPC: DoublyHomomorphicCommitment> GIPAProof<IP, LMC, RMC, IPC> {
    /// rounds in playing order
    pub open spec fn st(&self) -> Seq<Step> { fwd(self.r_commitment_steps@) }
    /// the proof the prover has to produce for state s
    pub open spec fn is_honest(&self, kt: Seq<Fr>, s: PS, n: nat) -> bool {
        let p = prun::<LMC, RMC, IPC>(kt, s, n).ps;
        self.st() == psteps::<LMC, RMC, IPC>(kt, s, n) && self.r_base.0.dl() == p.ma[0] && self.r_base.1.dl() == p.mb[0]
    }
    pub open spec fn accepted(&self, ka: Seq<Fr>, kb: Seq<Fr>, kt: Seq<Fr>, c0: Com3) -> bool {
        gipa_accepts::<LMC, RMC, IPC>(ka, kb, kt, c0, self.st(), self.r_base.0.dl(), self.r_base.1.dl())
    }
}
impl<IP: InnerProduct<LeftMessage = LMC::Message, RightMessage = RMC::Message, Output = IPC::Message>, LMC: DoublyHomomorphicCommitment, RMC: DoublyHomomorphicCommitment, IPC: DoublyHomomorphicCommitment> GIPAAux<IP, LMC, RMC, IPC> {
    pub open spec fn is_honest(&self, kt: Seq<Fr>, s: PS, n: nat) -> bool {
        let p = prun::<LMC, RMC, IPC>(kt, s, n).ps;
        self.r_transcript@ == rev(pchals::<LMC, RMC, IPC>(kt, s, n)) && self.ck_base.0.dl() == p.ka[0] && self.ck_base.1.dl() == p.kb[0]
    }
}
@end

@fn gipa::GIPA::setup
@props C02
@ensures
res.is_ok() ==> res->Ok_0.0@.len() == size && res->Ok_0.1@.len() == size
@end

@fn gipa::GIPA::prove
@props C05
@requires
LMC::ckind() is Dot || ck.0@.len() == values.0@.len(), RMC::ckind() is Dot || ck.1@.len() == values.0@.len()
@ensures C05
res.is_ok() ==> values.2.dl() == dot(dls(values.0@), dls(values.1@))
@ensures C05
res.is_ok() ==> is_pow2(values.0@.len() as int) && values.0@.len() == values.1@.len()
@ensures C05
res.is_ok() ==> com_ok(LMC::ckind(), ck.0@.len(), values.0@.len()) && com_of(LMC::ckind(), dls(ck.0@), dls(values.0@)) == com.0.vw()
@ensures C05
res.is_ok() ==> com_ok(RMC::ckind(), ck.1@.len(), values.1@.len()) && com_of(RMC::ckind(), dls(ck.1@), dls(values.1@)) == com.1.vw()
@ensures C05
res.is_ok() ==> com_of(IPC::ckind(), seq![ck.2.dl()], seq![values.2.dl()]) == com.2.vw()
@ensures C04
res.is_ok() <== (values.0@.len() == values.1@.len() && is_pow2(values.0@.len() as int) && ck.0@.len() == values.0@.len() && ck.1@.len() == values.0@.len()
   && values.2.dl() == dot(dls(values.0@), dls(values.1@)) && com3((*com.0, *com.1, *com.2)) == gcoms::<LMC, RMC, IPC>(seq![ck.2.dl()], psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@)))
@ensures C04,C07
res.is_ok() ==> forall|n: nat| #[trigger] pow2(n) == values.0@.len() ==> res->Ok_0.is_honest(seq![ck.2.dl()], psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@), n)
@at fn_start
proof {
  broadcast use dls1;
  scal_eq::<IPC::Message>(); IPC::Message::laws(); IPC::Message::scal_laws(); IPC::Key::laws();
}
@end

@fn gipa::GIPA::prove_with_aux
@props C04,C07
@requires
is_pow2(values.0@.len() as int), values.1@.len() == values.0@.len(), ck.0@.len() == values.0@.len(), ck.1@.len() == values.0@.len(), ck.2@.len() == 1
@ensures C04
res.is_ok()
@ensures C04,C07,C09,C11
forall|n: nat| #[trigger] pow2(n) == values.0@.len() ==> res->Ok_0.0.is_honest(dls(ck.2@), psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@), n)
@ensures C07,C09,C11
forall|n: nat| #[trigger] pow2(n) == values.0@.len() ==> res->Ok_0.1.is_honest(dls(ck.2@), psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@), n)
@end

@fn gipa::GIPA::_prove
@attr #[verifier::rlimit(100)]
@props C04,C07,C09,C11
@requires
is_pow2(values.0@.len() as int), values.1@.len() == values.0@.len(), ck.0@.len() == values.0@.len(), ck.1@.len() == values.0@.len(), ck.2@.len() == 1
@ensures C04
res.is_ok()
@ensures C04,C07,C09,C11
forall|n: nat| #[trigger] pow2(n) == values.0@.len() ==> res->Ok_0.0.is_honest(dls(ck.2@), psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@), n)
@ensures C07,C09,C11
forall|n: nat| #[trigger] pow2(n) == values.0@.len() ==> res->Ok_0.1.is_honest(dls(ck.2@), psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@), n)
@at fn_start
let ghost s0 = psv::<IP, LMC, RMC, IPC>(values.0@, values.1@, ck.0@, ck.1@);
let ghost kt = dls(ck.2@);
let ghost nn: nat = choose|n: nat| #[trigger] pow2(n) == values.0@.len();
let ghost mut i: nat = 0;
proof {
   broadcast use {ax_hash_len, dls_fr, dls1};
   LMC::Message::laws(); RMC::Message::laws(); LMC::Key::laws(); RMC::Key::laws(); LMC::Output::laws(); RMC::Output::laws(); IPC::Output::laws();
   LMC::Message::scal_laws(); RMC::Message::scal_laws(); LMC::Key::scal_laws(); RMC::Key::scal_laws();
   assert(pow2(nn) == values.0@.len());
   assert forall|m: nat| #[trigger] pow2(m) == values.0@.len() implies m == nn by { pow2_inj(m, nn); }
   vstd::arithmetic::power2::lemma2_to64();
}
@type brk_loop ((LMC::Message, RMC::Message), (LMC::Key, RMC::Key))
@type brk_loop_2 (Fr, Fr)
@inv loop
invariant
   i <= nn,
   psv::<IP, LMC, RMC, IPC>(m_a@, m_b@, ck_a@, ck_b@) == prun::<LMC, RMC, IPC>(kt, s0, i).ps,
   ps_ok(prun::<LMC, RMC, IPC>(kt, s0, i).ps, (nn - i) as nat),
   r_transcript@.len() == i, r_commitment_steps@.len() == i, dls(ck_t@) == kt, ck_t@.len() == 1,
   forall|j: int| 0 <= j < i ==> #[trigger] r_transcript@[j] == prun::<LMC, RMC, IPC>(kt, s0, (j + 1) as nat).c,
   forall|j: int| 0 <= j < i ==> stepv(#[trigger] r_commitment_steps@[j]) == pcross::<LMC, RMC, IPC>(kt, prun::<LMC, RMC, IPC>(kt, s0, j as nat).ps),
ensures
   i == nn,
   brk_loop.0.0.dl() == prun::<LMC, RMC, IPC>(kt, s0, nn).ps.ma[0], brk_loop.0.1.dl() == prun::<LMC, RMC, IPC>(kt, s0, nn).ps.mb[0],
   brk_loop.1.0.dl() == prun::<LMC, RMC, IPC>(kt, s0, nn).ps.ka[0], brk_loop.1.1.dl() == prun::<LMC, RMC, IPC>(kt, s0, nn).ps.kb[0],
decreases nn - i
@at body_start loop
proof { if i == nn { } else { half_pow2((nn - i) as nat); } }
let ghost p = prun::<LMC, RMC, IPC>(kt, s0, i);
let ghost x = pcross::<LMC, RMC, IPC>(kt, p.ps);
@at let m_b_2
proof {
   lo_hi(p.ps.ma, (nn - i) as nat); lo_hi(p.ps.mb, (nn - i) as nat); lo_hi(p.ps.ka, (nn - i) as nat); lo_hi(p.ps.kb, (nn - i) as nat);
   assert(dls(m_a_1@) =~= hi(p.ps.ma)); assert(dls(m_a_2@) =~= lo(p.ps.ma));
   assert(dls(ck_a_1@) =~= lo(p.ps.ka)); assert(dls(ck_a_2@) =~= hi(p.ps.ka));
   assert(dls(m_b_1@) =~= lo(p.ps.mb)); assert(dls(m_b_2@) =~= hi(p.ps.mb));
}
@at let com_1
proof {
   assert(dls(ck_b_1@) =~= hi(p.ps.kb)); assert(dls(ck_b_2@) =~= lo(p.ps.kb));
   assert(com_1.0.vw() == x.l.a); //#C04
   assert(com_1.1.vw() == x.l.b); //#C04
   assert(com_1.2.vw() == x.l.t); //#C04
}
@at let com_2
proof {
   assert(com_2.0.vw() == x.r.a); //#C04
   assert(com_2.1.vw() == x.r.b); //#C04
   assert(com_2.2.vw() == x.r.t); //#C04
   ax_usable::<LMC, RMC, IPC>(p.c, x);
}
@inv loop_2
invariant
   forall|m: usize| m < counter_nonce ==> #[trigger] cand::<LMC, RMC, IPC>(m, p.c, x) == f0(),
   *transcript == p.c,
ensures
   brk_loop_2.0 == chal::<LMC, RMC, IPC>(p.c, x), brk_loop_2.1 == finv(brk_loop_2.0), brk_loop_2.0 != f0(),
@at let c
proof {
   assert(hash_input@ =~= hin::<LMC, RMC, IPC>(counter_nonce, p.c, x)); //#C07
   assert(c == cand::<LMC, RMC, IPC>(counter_nonce, p.c, x)); //#C07
   if c != f0() { chal_is::<LMC, RMC, IPC>(counter_nonce, p.c, x); }
   else { let n = choose|n: usize| n < usize::MAX && #[trigger] is_chal::<LMC, RMC, IPC>(n, p.c, x); if n <= counter_nonce { assert(cand::<LMC, RMC, IPC>(n, p.c, x) == f0()); } }
}
@inv m_a
invariant i_m_a <= n_m_a, n_m_a == hi(p.ps.ma).len(), $S0@ == m_a_1@, $S1@ == m_a_2@, out_m_a@.len() == i_m_a,
   forall|k: int| 0 <= k < i_m_a ==> (#[trigger] out_m_a@[k]).dl() == pfold1(p.ps.ma, c)[k],
decreases n_m_a - i_m_a
@at elem m_a
proof { assert(x_m_a.dl() == pfold1(p.ps.ma, c)[ix_m_a as int]); } //#C04
@inv m_b
invariant i_m_b <= n_m_b, n_m_b == hi(p.ps.mb).len(), $S0@ == m_b_2@, $S1@ == m_b_1@, out_m_b@.len() == i_m_b,
   forall|k: int| 0 <= k < i_m_b ==> (#[trigger] out_m_b@[k]).dl() == pfold1(p.ps.mb, c_inv)[k],
decreases n_m_b - i_m_b
@at elem m_b
proof { assert(x_m_b.dl() == pfold1(p.ps.mb, c_inv)[ix_m_b as int]); } //#C04
@inv ck_a
invariant i_ck_a <= n_ck_a, n_ck_a == hi(p.ps.ka).len(), $S0@ == ck_a_2@, $S1@ == ck_a_1@, out_ck_a@.len() == i_ck_a,
   forall|k: int| 0 <= k < i_ck_a ==> (#[trigger] out_ck_a@[k]).dl() == pfold1(p.ps.ka, c_inv)[k],
decreases n_ck_a - i_ck_a
@at elem ck_a
proof { assert(x_ck_a.dl() == pfold1(p.ps.ka, c_inv)[ix_ck_a as int]); } //#C04
@inv ck_b
invariant i_ck_b <= n_ck_b, n_ck_b == hi(p.ps.kb).len(), $S0@ == ck_b_1@, $S1@ == ck_b_2@, out_ck_b@.len() == i_ck_b,
   forall|k: int| 0 <= k < i_ck_b ==> (#[trigger] out_ck_b@[k]).dl() == pfold1(p.ps.kb, c)[k],
decreases n_ck_b - i_ck_b
@at elem ck_b
proof { assert(x_ck_b.dl() == pfold1(p.ps.kb, c)[ix_ck_b as int]); } //#C04
@at assign ck_b
proof {
   prun_ok::<LMC, RMC, IPC>(kt, s0, nn, i + 1);
   let q = prun::<LMC, RMC, IPC>(kt, s0, i + 1);
   assert(q.ps == pfold(p.ps, c));
   assert(dls(m_a@) =~= q.ps.ma); assert(dls(m_b@) =~= q.ps.mb); assert(dls(ck_a@) =~= q.ps.ka); assert(dls(ck_b@) =~= q.ps.kb);
   i = i + 1;
}
@at fn_end
proof {
   let pf = r__->Ok_0.0; let aux = r__->Ok_0.1;
   assert(pf.st() =~= psteps::<LMC, RMC, IPC>(kt, s0, nn));
   assert(aux.r_transcript@ =~= rev(pchals::<LMC, RMC, IPC>(kt, s0, nn)));
}
@end

@fn gipa::GIPA::verify
@props C06,C26
@ensures C06
res.is_ok() && res->Ok_0 ==> proof.accepted(dls(ck.0@), dls(ck.1@), seq![ck.2.dl()], com3((*com.0, *com.1, *com.2)))
@ensures C04,C06
proof.accepted(dls(ck.0@), dls(ck.1@), seq![ck.2.dl()], com3((*com.0, *com.1, *com.2))) ==> res.is_ok() && res->Ok_0
@at fn_start
proof {
  broadcast use dls1;
  LMC::Output::laws(); RMC::Output::laws(); IPC::Output::laws(); IPC::Key::laws();
  vchals_nz::<LMC, RMC, IPC>(com3((*com.0, *com.1, *com.2)), proof.st());
}
@end

@fn gipa::GIPA::verify_recursive_challenge_transcript
@props C06,C07,C10
@ensures
res.is_ok(), com3(res->Ok_0.0) == vrun::<LMC, RMC, IPC>(com3((*com.0, *com.1, *com.2)), proof.st(), proof.st().len()).com,
res->Ok_0.1@ == rev(vchals::<LMC, RMC, IPC>(com3((*com.0, *com.1, *com.2)), proof.st()))
@at fn_start
proof { LMC::Output::laws(); RMC::Output::laws(); IPC::Output::laws(); }
@end

@fn gipa::GIPA::_compute_recursive_challenges
@props C06,C07
@ensures C06
res.is_ok(), com3(res->Ok_0.0) == vrun::<LMC, RMC, IPC>(com3(com), proof.st(), proof.st().len()).com
@ensures C07
res->Ok_0.1@ == rev(vchals::<LMC, RMC, IPC>(com3(com), proof.st()))
@at fn_start
let ghost c0 = com3(com);
let ghost st = proof.st();
proof {
   broadcast use {ax_hash_len, dls_fr};
   LMC::Output::laws(); RMC::Output::laws(); IPC::Output::laws();
}
@inv for
invariant i_for <= n_for, n_for == st.len(), $S0@ == proof.r_commitment_steps@, r_transcript@.len() == i_for,
   com3((com_a, com_b, com_t)) == vrun::<LMC, RMC, IPC>(c0, st, i_for as nat).com,
   forall|j: int| 0 <= j < i_for ==> #[trigger] r_transcript@[j] == vrun::<LMC, RMC, IPC>(c0, st, (j + 1) as nat).c,
decreases n_for - i_for
@at body_start for
let ghost p = vrun::<LMC, RMC, IPC>(c0, st, ix_for as nat);
let ghost x = st[ix_for as int];
proof { ax_usable::<LMC, RMC, IPC>(p.c, x); chal_nz::<LMC, RMC, IPC>(p.c, x);
   assert(x == stepv($S0@[$S0@.len() - 1 - ix_for])); assert(com3((com_a, com_b, com_t)) == p.com); }
@type brk_loop (Fr, Fr)
@inv loop
invariant
   forall|m: usize| m < counter_nonce ==> #[trigger] cand::<LMC, RMC, IPC>(m, p.c, x) == f0(),
   *transcript == p.c, com3(*com_1) == x.l, com3(*com_2) == x.r,
ensures
   brk_loop.0 == chal::<LMC, RMC, IPC>(p.c, x), brk_loop.1 == finv(brk_loop.0), brk_loop.0 != f0(),
@at let c
proof {
   assert(hash_input@ =~= hin::<LMC, RMC, IPC>(counter_nonce, p.c, x)); //#C07
   assert(c == cand::<LMC, RMC, IPC>(counter_nonce, p.c, x)); //#C07
   if c != f0() { chal_is::<LMC, RMC, IPC>(counter_nonce, p.c, x); }
   else { let n = choose|n: usize| n < usize::MAX && #[trigger] is_chal::<LMC, RMC, IPC>(n, p.c, x); if n <= counter_nonce { assert(cand::<LMC, RMC, IPC>(n, p.c, x) == f0()); } }
}
@at body_end for
proof {
   let q = vrun::<LMC, RMC, IPC>(c0, st, (ix_for + 1) as nat);
   assert(q.c == c);
   padd3(pscale(x.l.a, c), p.com.a, pscale(x.r.a, finv(c)));
   padd3(pscale(x.l.b, c), p.com.b, pscale(x.r.b, finv(c)));
   padd3(pscale(x.l.t, c), p.com.t, pscale(x.r.t, finv(c)));
   assert(com_a.vw() == q.com.a); //#C06
   assert(com_b.vw() == q.com.b); //#C06
   assert(com_t.vw() == q.com.t); //#C06
}
@at fn_end
proof { assert(r__->Ok_0.1@ =~= rev(vchals::<LMC, RMC, IPC>(c0, st))); }
@end

@fn gipa::GIPA::_compute_final_commitment_keys
@props C06,C26
@valid is_pow2(ck.0@.len() as int)
@requires
ck.0@.len() == ck.1@.len(), nz(transcript@)
@ensures C06,C26
res.is_ok() == (ck.0@.len() == pow2(transcript@.len()))
@ensures C06
res.is_ok() ==> res->Ok_0.0.dl() == fkey_a(dls(ck.0@), transcript@)
@ensures C06
res.is_ok() ==> res->Ok_0.1.dl() == fkey_b(dls(ck.1@), transcript@)
@at fn_start
let ghost t = transcript@;
let ghost ti = invs(t);
let ghost xa = expo(ti, t.len());
let ghost xb = expo(t, t.len());
proof { expo_len(ti, t.len()); expo_len(t, t.len()); LMC::Key::laws(); RMC::Key::laws(); LMC::Key::scal_laws(); RMC::Key::scal_laws();
  let k = choose|k: nat| ck.0@.len() == #[trigger] pow2(k);
  if is_pow2(ck.0@.len() as int) {
    assert forall|m: nat| #[trigger] pow2(m) == ck.0@.len() implies m == k by { pow2_inj(m, k); }
    vstd::arithmetic::power2::lemma_pow2_pos(k);
  }
  vstd::arithmetic::power2::lemma2_to64(); }
@at before_loop for
proof { assert(ck_a_agg_challenge_exponents@ =~= expo(ti, 0)); assert(ck_b_agg_challenge_exponents@ =~= expo(t, 0)); }
@inv for
invariant i_for <= n_for, n_for == t.len(), $S0@ == t,
   ck_a_agg_challenge_exponents@ == expo(ti, i_for as nat), ck_b_agg_challenge_exponents@ == expo(t, i_for as nat),
decreases n_for - i_for
@at body_start for
let ghost ea = expo(ti, ix_for as nat);
let ghost eb = expo(t, ix_for as nat);
proof {
  expo_len(ti, ix_for as nat); expo_len(t, ix_for as nat);
  vstd::arithmetic::power2::lemma_pow2(ix_for as nat);
  if ix_for < t.len() { vstd::arithmetic::power2::lemma_pow2_strictly_increases(ix_for as nat, t.len()); }
}
@inv for_2
invariant i_for_2 <= n_for_2, n_for_2 == pow2(ix_for as nat), $L0 == 0,
   ea.len() == pow2(ix_for as nat), eb.len() == pow2(ix_for as nat), c_inv == ti[ix_for as int], *c == t[ix_for as int],
   ck_a_agg_challenge_exponents@ == ea + pscale(ea, ti[ix_for as int]).subrange(0, i_for_2 as int),
   ck_b_agg_challenge_exponents@ == eb + pscale(eb, t[ix_for as int]).subrange(0, i_for_2 as int),
decreases n_for_2 - i_for_2
@at before_loop for_2
proof { assert(ck_a_agg_challenge_exponents@ =~= ea + pscale(ea, ti[ix_for as int]).subrange(0, 0)); assert(ck_b_agg_challenge_exponents@ =~= eb + pscale(eb, t[ix_for as int]).subrange(0, 0)); }
@at body_end for_2
proof { assert(ck_a_agg_challenge_exponents@ =~= ea + pscale(ea, ti[ix_for as int]).subrange(0, ix_for_2 + 1)); assert(ck_b_agg_challenge_exponents@ =~= eb + pscale(eb, t[ix_for as int]).subrange(0, ix_for_2 + 1)); }
@at after_loop for_2
proof { assert(ck_a_agg_challenge_exponents@ =~= expo(ti, (ix_for + 1) as nat)); assert(ck_b_agg_challenge_exponents@ =~= expo(t, (ix_for + 1) as nat)); }
@inv ck_a_base
invariant i_ck_a_base <= n_ck_a_base, n_ck_a_base == xa.len() - 1, $S0@ == ck_a@.subrange(1, xa.len() as int), $S1@ == xa.subrange(1, xa.len() as int),
   acc_ck_a_base.dl() == dotp(dls(ck_a@), xa, i_ck_a_base + 1),
decreases n_ck_a_base - i_ck_a_base
@at before_loop ck_a_base
proof { add_z(dls(ck_a@)[0] * f1()); ax_mul_one(dls(ck_a@)[0]); reveal_with_fuel(sumr, 3); assert(acc_ck_a_base.dl() == dotp(dls(ck_a@), xa, 1)); }
@inv ck_b_base
invariant i_ck_b_base <= n_ck_b_base, n_ck_b_base == xb.len() - 1, $S0@ == ck_b@.subrange(1, xb.len() as int), $S1@ == xb.subrange(1, xb.len() as int),
   acc_ck_b_base.dl() == dotp(dls(ck_b@), xb, i_ck_b_base + 1),
decreases n_ck_b_base - i_ck_b_base
@at before_loop ck_b_base
proof { add_z(dls(ck_b@)[0] * f1()); ax_mul_one(dls(ck_b@)[0]); reveal_with_fuel(sumr, 3); assert(acc_ck_b_base.dl() == dotp(dls(ck_b@), xb, 1)); }
@end

@fn gipa::GIPA::_verify_base_commitment
@props C06,C10
@requires
base_ck.2@.len() == 1
@ensures C06,C10
res.is_ok()
@ensures C06,C10
res->Ok_0 == base_ok::<LMC, RMC, IPC>(base_ck.0.dl(), base_ck.1.dl(), dls(base_ck.2@), com3(base_com), proof.r_base.0.dl(), proof.r_base.1.dl())
@at fn_start
proof {
  broadcast use dls1;
  LMC::Key::laws(); RMC::Key::laws(); LMC::Message::laws(); RMC::Message::laws();
  dot1(proof.r_base.0.dl(), proof.r_base.1.dl());
}
@end

@impl gipa::GIPAProof::<Clone>
open spec fn same(&self, o: &Self) -> bool { self.r_commitment_steps.same(&o.r_commitment_steps) && self.r_base.same(&o.r_base) }
@fn gipa::GIPAProof::<Clone>::clone
@props C24
@end
