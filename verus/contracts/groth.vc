@ghost groth
pub struct GProof { pub a: G1Affine, pub b: G2Affine, pub c: G1Affine }
pub struct VerifyingKey { pub alpha_g1: G1Affine, pub beta_g2: G2Affine, pub gamma_g2: G2Affine, pub delta_g2: G2Affine, pub gamma_abc_g1: Vec<G1Affine> }
impl VerifyingKey { pub open spec fn v(&self) -> GVk { GVk { alpha: self.alpha_g1.dl(), beta: self.beta_g2.dl(), gamma: self.gamma_g2.dl(), delta: self.delta_g2.dl(), abc: dls(self.gamma_abc_g1@) } } }
pub open spec fn ga(p: Seq<GProof>) -> Seq<Fr> { Seq::new(p.len(), |i: int| p[i].a.dl()) }
pub open spec fn gb(p: Seq<GProof>) -> Seq<Fr> { Seq::new(p.len(), |i: int| p[i].b.dl()) }
pub open spec fn gc(p: Seq<GProof>) -> Seq<Fr> { Seq::new(p.len(), |i: int| p[i].c.dl()) }
pub open spec fn ins(x: Seq<Vec<Fr>>) -> Seq<Seq<Fr>> { Seq::new(x.len(), |i: int| x[i]@) }
impl SRS {
    pub open spec fn ck1(&self) -> Seq<Fr> { Seq::new(ceil_div(self.h_beta_powers@.len() as int, 2) as nat, |i: int| self.h_beta_powers@[2 * i].dl()) }
    pub open spec fn ck2(&self) -> Seq<Fr> { Seq::new(ceil_div(self.g_alpha_powers@.len() as int, 2) as nat, |i: int| self.g_alpha_powers@[2 * i].dl()) }
}
/// the combination challenge of the aggregation of p
pub open spec fn agg_r(srs: &SRS, p: Seq<GProof>) -> Fr { rchal(dot(ga(p), srs.ck1()), dot(srs.ck2(), gb(p)), dot(gc(p), srs.ck1())) }
pub open spec fn agg_valid(srs: &SRS, p: Seq<GProof>) -> bool { srs.h_beta_powers@.len() == 2 * p.len() - 1 && srs.g_alpha_powers@.len() == 2 * p.len() - 1 && agg_r(srs, p) != f0() }
impl AggregateProof {
    pub open spec fn r(&self) -> Fr { rchal(self.com_a.dl(), self.com_b.dl(), self.com_c.dl()) }
    /// everything the aggregate verifier has to check
    pub open spec fn accepted(&self, g: Fr, h: Fr, g_beta: Fr, h_alpha: Fr, vk: GVk, xs: Seq<Seq<Fr>>) -> bool {
        &&& xs.len() > 0 && forall|i: int| 0 <= i < xs.len() ==> #[trigger] xs[i].len() + 1 == vk.abc.len()
        &&& self.tipa_proof_ab.accepted(g, h, g_beta, h_alpha, f0(), Com3 { a: seq![self.com_a.dl()], b: seq![self.com_b.dl()], t: seq![self.ip_ab.dl()] }, self.r())
        &&& self.tipa_proof_c.accepted(g, h, g_beta, f0(), seq![self.com_c.dl()], seq![self.agg_c.dl()], self.r())
        &&& agg_ppe(vk, xs, self.r(), xs.len(), self.ip_ab.dl(), self.agg_c.dl())
    }
}
@end

@fn groth::setup_inner_product
@props C08,C13
@requires
size > 0, 2 * size <= usize::MAX
@ensures C08,C13
res.is_ok() && exists|i: nat, j: nat| i != j && #[trigger] res->Ok_0.wf(draw(advn(old(rng).state(), i), 0), draw(advn(old(rng).state(), j), 0), size as nat)
@at fn_start
let ghost s0 = rng.state();
@at let srs
proof {
  let (i, j) = choose|i: nat, j: nat| i != j && #[trigger] srs.wf(draw(advn(s0, i), 0), draw(advn(s0, j), 0), size as nat);
  assert(i != j && srs.wf(draw(advn(s0, i), 0), draw(advn(s0, j), 0), size as nat));
}
@at fn_end
proof { let (i, j) = choose|i: nat, j: nat| i != j && #[trigger] srs.wf(draw(advn(s0, i), 0), draw(advn(s0, j), 0), size as nat); assert(r__->Ok_0.wf(draw(advn(s0, i), 0), draw(advn(s0, j), 0), size as nat)); assert(s0 == old(rng).state()); }
@end

@fn groth::aggregate_proofs
@props C13
@valid agg_valid(ip_srs, proofs@)
@attr #[verifier::rlimit(60)]
@requires
is_pow2(proofs@.len() as int), proofs@.len() <= pow2(60)
@ensures C13
forall|alpha: Fr, beta: Fr, vk: GVk, xs: Seq<Seq<Fr>>| #[trigger] ip_srs.wf(alpha, beta, proofs@.len()) && xs.len() == proofs@.len() && vk.abc.len() > 0 && agg_r(ip_srs, proofs@) != f0()
   && (forall|i: int| 0 <= i < xs.len() ==> #[trigger] xs[i].len() + 1 == vk.abc.len())
   && #[trigger] all_ok(vk, proofs@, xs) ==> res.is_ok() && res->Ok_0.accepted(f1(), f1(), beta, alpha, vk, xs)
@at fn_start
let ghost n = proofs@.len();
let ghost (av, bv, cv) = (ga(proofs@), gb(proofs@), gc(proofs@));
proof { assert(n > 0) by { let k = choose|k: nat| n == #[trigger] pow2(k); vstd::arithmetic::power2::lemma_pow2_pos(k); } }
@inv a
invariant i_a <= n_a, n_a == n, $S0@ == proofs@, out_a@.len() == i_a, forall|k: int| 0 <= k < i_a ==> (#[trigger] out_a@[k]).dl() == av[k],
decreases n_a - i_a
@inv b
invariant i_b <= n_b, n_b == n, $S0@ == proofs@, out_b@.len() == i_b, forall|k: int| 0 <= k < i_b ==> (#[trigger] out_b@[k]).dl() == bv[k],
decreases n_b - i_b
@inv c
invariant i_c <= n_c, n_c == n, $S0@ == proofs@, out_c@.len() == i_c, forall|k: int| 0 <= k < i_c ==> (#[trigger] out_c@[k]).dl() == cv[k],
decreases n_c - i_c
@at let c
proof { assert(dls(a@) =~= av); assert(dls(b@) =~= bv); assert(dls(c@) =~= cv); }
@at let ck_1
proof { assert(dls(ck_1@) =~= ip_srs.ck1()); assert(dls(ck_2@) =~= ip_srs.ck2()); }
@at let com_c
let ghost (ca, cb, cc) = (com_a.dl(), com_b.dl(), com_c.dl());
proof { ax_rusable(ca, cb, cc); assert(rchal(ca, cb, cc) == agg_r(ip_srs, proofs@)); assert(ck_1@.len() == n && ck_2@.len() == n); }
@type brk_r Fr
@inv r
invariant
   forall|m: usize| m < counter_nonce ==> #[trigger] rcand(m, ca, cb, cc).is_none(),
   ca == com_a.dl(), cb == com_b.dl(), cc == com_c.dl(),
ensures
   brk_r == rchal(ca, cb, cc),
@at break
proof { assert(hash_input@ =~= rhin(counter_nonce, ca, cb, cc)); rchal_is(counter_nonce, ca, cb, cc); } //#C13,C14,C27
@at body_start r
proof { let n = choose|n: usize| n < usize::MAX && #[trigger] is_rchal(n, ca, cb, cc); if n < counter_nonce { assert(rcand(n, ca, cb, cc).is_none()); } }
@at let r_vec
let ghost rv = powers(r, n);
proof { broadcast use dls_fr; assert(r_vec@ == rv); }
@inv a_r
invariant i_a_r <= n_a_r, n_a_r == n, $S0@ == a@, $S1@ == rv, dls(a@) == av, out_a_r@.len() == i_a_r, forall|k: int| 0 <= k < i_a_r ==> (#[trigger] out_a_r@[k]).dl() == hmul(av, rv)[k],
decreases n_a_r - i_a_r
@at elem a_r
proof { assert(dls(a@)[ix_a_r as int] == av[ix_a_r as int]); broadcast use ax_of_dl_G1; }
@at let a_r
proof { assert(dls(a_r@) =~= hmul(av, rv)); }
@at body_start ck_1_r
proof { if r != f0() { fpow_nz(r, ix_ck_1_r as nat); } }
@inv ck_1_r
invariant i_ck_1_r <= n_ck_1_r, n_ck_1_r == n, $S0@ == ck_1@, $S1@ == rv, dls(ck_1@) == ip_srs.ck1(), out_ck_1_r@.len() == i_ck_1_r, forall|k: int| 0 <= k < i_ck_1_r ==> (#[trigger] out_ck_1_r@[k]).dl() == hmul(ip_srs.ck1(), invs(rv))[k] && rv[k] != f0(),
decreases n_ck_1_r - i_ck_1_r
@at elem ck_1_r
proof { assert(dls(ck_1@)[ix_ck_1_r as int] == ip_srs.ck1()[ix_ck_1_r as int]); broadcast use ax_of_dl_G2; }
@at let ck_1_r
proof {
  assert(dls(ck_1_r@) =~= hmul(ip_srs.ck1(), invs(rv))); if r != f0() { shift_com(av, ip_srs.ck1(), r, n); }
  assert(r_vec@.len() == n); assert(r_vec@ == powers(r, r_vec@.len()));
  assert forall|alpha: Fr, beta: Fr| #[trigger] ip_srs.wf(alpha, beta, n) && r != f0() implies dls(ck_1_r@) == ekey(beta, finv(r), n) && dls(ck_2@) == ekey(alpha, f1(), n) && dls(ck_1@) == ekey(beta, f1(), n) by {
    agg_ok(ip_srs, alpha, beta, n); shift_ekey(beta, r, n);
  }
}
@at let tipa_proof_ab
proof {
  assert(c@.len() == n && r_vec@ == powers(r, c@.len())); assert(r_vec@ == powers(r, r_vec@.len())); assert(!(AFGHOCommitmentG1::ckind() is Ident));
  assert forall|alpha: Fr, beta: Fr| #[trigger] ip_srs.wf(alpha, beta, n) && r != f0() implies ip_srs.wf_l(beta, c@.len()) && dls(ck_1@) == ekey(beta, f1(), c@.len()) by { agg_ok(ip_srs, alpha, beta, n); }
}
@at fn_end
proof {
  assert forall|alpha: Fr, beta: Fr, vk: GVk, xs: Seq<Seq<Fr>>| #[trigger] ip_srs.wf(alpha, beta, proofs@.len()) && xs.len() == proofs@.len() && vk.abc.len() > 0 && agg_r(ip_srs, proofs@) != f0()
   && (forall|i: int| 0 <= i < xs.len() ==> #[trigger] xs[i].len() + 1 == vk.abc.len())
   && #[trigger] all_ok(vk, proofs@, xs) implies r__.is_ok() && r__->Ok_0.accepted(f1(), f1(), beta, alpha, vk, xs) by {
    agg_ok(ip_srs, alpha, beta, n);
    shift_ekey(beta, r, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] groth_ok(vk, av[i], bv[i], cv[i], xs[i]) by { assert(groth_ok(vk, proofs@[i].a.dl(), proofs@[i].b.dl(), proofs@[i].c.dl(), xs[i])); }
    agg_honest(vk, av, bv, cv, xs, r, n);
    assert(av.take(n as int) =~= av); assert(bv.take(n as int) =~= bv); assert(cv.take(n as int) =~= cv);
    dot_comm(av, ip_srs.ck1()); dot_comm(cv, ip_srs.ck1());
    dot_comm(hmul(av, rv), hmul(ip_srs.ck1(), invs(rv)));
  }
}
@end
@ghost groth
pub open spec fn all_ok(vk: GVk, p: Seq<GProof>, xs: Seq<Seq<Fr>>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> #[trigger] groth_ok(vk, p[i].a.dl(), p[i].b.dl(), p[i].c.dl(), xs[i])
}
/// keys of a well-formed setup
pub proof fn agg_ok(srs: &SRS, alpha: Fr, beta: Fr, n: nat) requires srs.wf(alpha, beta, n), n > 0
    ensures srs.ck1() == ekey(beta, f1(), n), srs.ck2() == ekey(alpha, f1(), n), srs.h_beta_powers@.len() == 2 * n - 1, srs.g_alpha_powers@.len() == 2 * n - 1
{
    assert(dls(srs.h_beta_powers@).len() == 2 * n - 1); assert(dls(srs.g_alpha_powers@).len() == 2 * n - 1);
    assert forall|i: int| 0 <= i < n implies srs.ck1()[i] == ekey(beta, f1(), n)[i] by { assert(dls(srs.h_beta_powers@)[2 * i] == powers(beta, (2 * n - 1) as nat)[2 * i]); fpow_one(i as nat); ax_mul_one(fpow(beta, (2 * i) as nat)); }
    assert forall|i: int| 0 <= i < n implies srs.ck2()[i] == ekey(alpha, f1(), n)[i] by { assert(dls(srs.g_alpha_powers@)[2 * i] == powers(alpha, (2 * n - 1) as nat)[2 * i]); fpow_one(i as nat); ax_mul_one(fpow(alpha, (2 * i) as nat)); }
    assert(srs.ck1() =~= ekey(beta, f1(), n)); assert(srs.ck2() =~= ekey(alpha, f1(), n));
}
@end

@fn groth::verify_aggregate_proof
@props C13,C14,C26
@attr #[verifier::rlimit(60)]
@requires
proof.r() != f0(), proof.r() != f1()
@ensures C14
res.is_ok() && res->Ok_0 ==> proof.accepted(ip_verifier_srs.g.dl(), ip_verifier_srs.h.dl(), ip_verifier_srs.g_beta.dl(), ip_verifier_srs.h_alpha.dl(), vk.v(), ins(public_inputs@))
@ensures C13,C14
proof.accepted(ip_verifier_srs.g.dl(), ip_verifier_srs.h.dl(), ip_verifier_srs.g_beta.dl(), ip_verifier_srs.h_alpha.dl(), vk.v(), ins(public_inputs@)) ==> res.is_ok() && res->Ok_0
@at fn_start
let ghost xs = ins(public_inputs@);
let ghost v = vk.v();
let ghost m: int = vk.gamma_abc_g1@.len() as int;
proof { broadcast use {dls1, dls_fr, ax_of_dl_G1, ax_of_dl_GT, scal_vw}; }
@inv for
invariant i_for <= n_for, n_for == xs.len(), $S0@ == public_inputs@, xs == ins(public_inputs@), m == vk.gamma_abc_g1@.len(), m == v.abc.len(),
   forall|k: int| 0 <= k < i_for ==> #[trigger] xs[k].len() + 1 == m,
decreases n_for - i_for
@at body_start for
proof { ax_vec_fr_len(public_inputs@[ix_for as int]); assert(xs[ix_for as int] == public_inputs@[ix_for as int]@); }
@at let counter_nonce
let ghost n = xs.len();
let ghost (ca, cb, cc) = (proof.com_a.dl(), proof.com_b.dl(), proof.com_c.dl());
proof { ax_rusable(ca, cb, cc); assert(xs[0].len() + 1 == m); assert(m > 0); }
@type brk_r Fr
@inv r
invariant
   forall|m: usize| m < counter_nonce ==> #[trigger] rcand(m, ca, cb, cc).is_none(),
   ca == proof.com_a.dl(), cb == proof.com_b.dl(), cc == proof.com_c.dl(),
ensures
   brk_r == rchal(ca, cb, cc),
@at break
proof { assert(hash_input@ =~= rhin(counter_nonce, ca, cb, cc)); rchal_is(counter_nonce, ca, cb, cc); } //#C14,C27
@at body_start r
proof { let n = choose|n: usize| n < usize::MAX && #[trigger] is_rchal(n, ca, cb, cc); if n < counter_nonce { assert(rcand(n, ca, cb, cc).is_none()); } }
@at let r
proof {
  assert(r == proof.r());
  geom_div(r, n);
  assert forall|s: Seq<GT>| s.len() == 1 implies #[trigger] dls(s) == seq![s[0].dl()] by { dls1(s); }
  assert forall|s: Seq<G1>| s.len() == 1 implies #[trigger] dls(s) == seq![s[0].dl()] by { dls1(s); }
}
@at let r_sum
proof { assert(r_sum == geom(r, n)); }
@at let r_vec
proof { assert(r_vec@ == powers(r, n)); }
@inv for_2
invariant i_for_2 <= n_for_2, n_for_2 == m - 1, $S0@ == vk.gamma_abc_g1@, $K0 == 1, r_vec@ == powers(r, n), v == vk.v(), m == v.abc.len(), m == vk.gamma_abc_g1@.len(), xs == ins(public_inputs@), n == xs.len(),
   forall|k: int| 0 <= k < n ==> #[trigger] xs[k].len() + 1 == m,
   g_ic.dl() == v.abc[0] * geom(r, n) + sumr(gic_term(v.abc, xs, r, n), 0, i_for_2 as int),
decreases n_for_2 - i_for_2
@at before_loop for_2
proof { broadcast use ax_of_dl_G1; add_z(v.abc[0] * geom(r, n)); assert(v.abc[0] == vk.gamma_abc_g1@[0].dl()); assert(sumr(gic_term(v.abc, xs, r, n), 0, 0) == f0()); }
@type out_chain Vec<Fr>
@inv chain
invariant i_chain <= n_chain, n_chain == n, $S0@ == public_inputs@, xs == ins(public_inputs@), n == xs.len(), i < m - 1, out_chain@.len() == i_chain,
   forall|k: int| 0 <= k < n ==> #[trigger] xs[k].len() + 1 == m,
   forall|k: int| 0 <= k < i_chain ==> #[trigger] out_chain@[k] == col(xs, n, i as int)[k],
decreases n_chain - i_chain
@at body_start chain
proof { assert(xs[ix_chain as int] == public_inputs@[ix_chain as int]@); }
@at after_loop chain
proof { broadcast use dls_fr; assert(out_chain@ =~= col(xs, n, i as int)); }
@at fn_end
proof { sum3((v.alpha * geom(proof.r(), xs.len())) * v.beta, gic(v.abc, xs, proof.r(), xs.len()) * v.gamma, proof.agg_c.dl() * v.delta); }
@at assign g_ic
proof {
  broadcast use {ax_of_dl_G1, dls_fr};
  assert(v.abc[ix_for_2 + 1] == vk.gamma_abc_g1@[ix_for_2 + 1].dl());
  assert(gic_term(v.abc, xs, r, n)(ix_for_2 as int) == v.abc[ix_for_2 + 1] * dot(col(xs, n, ix_for_2 as int), powers(r, n)));
  ax_add_assoc(v.abc[0] * geom(r, n), sumr(gic_term(v.abc, xs, r, n), 0, ix_for_2 as int), gic_term(v.abc, xs, r, n)(ix_for_2 as int));
}
@end
