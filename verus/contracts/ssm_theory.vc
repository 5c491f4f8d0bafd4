@ghost root
// ---------------------------------------------------------------------------------------------
// Theory of the argument with a structured right message
// ---------------------------------------------------------------------------------------------
pub open spec fn zeros(n: nat) -> Seq<Fr> { Seq::new(n, |i: int| f0()) }
/// folded left commitment and folded product commitment, with the right message computed by the verifier
pub open spec fn ssm_base<L: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(ka: Fr, kt: Fr, c: Com3, ma: Fr, b: Fr) -> bool {
    &&& com_of(L::ckind(), seq![ka], seq![ma]) == c.a
    &&& com_of(I::ckind(), seq![kt], seq![ma * b]) == c.t
}
/// product-form value of the scalar at the round challenges (t in stored order)
pub open spec fn ssm_val(t: Seq<Fr>, b: Fr) -> Fr { pprod(invs(t), b, t.len()) }
/// C12, transparent variant
pub open spec fn ssm_accepts<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(
    ka: Seq<Fr>, kt: Fr, ca: Seq<Fr>, ct: Seq<Fr>, st: Seq<Step>, ma: Fr, mb: Fr, b: Fr) -> bool
{
    let c0 = Com3 { a: ca, b: seq![f0()], t: ct };
    let t = rev(vchals::<L, R, I>(c0, st));
    &&& gipa_accepts::<L, R, I>(ka, zeros(ka.len()), seq![kt], c0, st, ma, mb)
    &&& ssm_base::<L, I>(fkey_a(ka, t), kt, vrun::<L, R, I>(c0, st, st.len()).com, ma, ssm_val(t, b))
}
/// hashed for the opening challenge: retry counter, last round challenge, final key
pub open spec fn khin1(n: usize, t: Seq<Fr>, a: Fr) -> Seq<u8> { be8(n) + ser_Fr(if t.len() > 0 { t[0] } else { f0() }) + ser_G2(a) }
pub open spec fn kcand1(n: usize, t: Seq<Fr>, a: Fr) -> Option<Fr> { frb(hash(khin1(n, t, a))) }
pub open spec fn is_kchal1(n: usize, t: Seq<Fr>, a: Fr) -> bool { kcand1(n, t, a).is_some() && forall|m: usize| m < n ==> #[trigger] kcand1(m, t, a).is_none() }
pub open spec fn kchal1(t: Seq<Fr>, a: Fr) -> Fr { kcand1(choose|n: usize| is_kchal1(n, t, a), t, a)->Some_0 }
/// assumed: some retry counter below 2^64-1 gives a usable digest
pub axiom fn ax_kusable1(t: Seq<Fr>, a: Fr) ensures exists|n: usize| n < usize::MAX && #[trigger] is_kchal1(n, t, a);
pub proof fn kchal1_is(n: usize, t: Seq<Fr>, a: Fr) requires is_kchal1(n, t, a) ensures kcand1(n, t, a) == Some(kchal1(t, a)) {
    let m = choose|n: usize| is_kchal1(n, t, a);
    if m < n { assert(kcand1(m, t, a).is_none()); }
    if n < m { assert(kcand1(n, t, a).is_none()); }
}
/// C12, trusted-setup variant
pub open spec fn tipa_ssm_accepts<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(
    g: Fr, h: Fr, g_beta: Fr, kt: Fr, ca: Seq<Fr>, ct: Seq<Fr>, st: Seq<Step>, ma: Fr, fa: Fr, oa: Fr, b: Fr) -> bool
{
    let c0 = Com3 { a: ca, b: seq![f0()], t: ct };
    let t = rev(vchals::<L, R, I>(c0, st));
    let c = kchal1(t, fa);
    &&& kzg_a(g, h, g_beta, fa, oa, keyval(invs(t), c, f1()), c)
    &&& ssm_base::<L, I>(fa, kt, vrun::<L, R, I>(c0, st, st.len()).com, ma, ssm_val(t, b))
}
/// the commitment of the right side changes neither the challenges nor the other two folds
pub proof fn vrun_b<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(c0: Com3, c1: Com3, st: Seq<Step>, i: nat)
    requires c0.a == c1.a, c0.t == c1.t, i <= st.len()
    ensures vrun::<L, R, I>(c0, st, i).c == vrun::<L, R, I>(c1, st, i).c, vrun::<L, R, I>(c0, st, i).com.a == vrun::<L, R, I>(c1, st, i).com.a, vrun::<L, R, I>(c0, st, i).com.t == vrun::<L, R, I>(c1, st, i).com.t
    decreases i
{ if i > 0 { vrun_b::<L, R, I>(c0, c1, st, (i - 1) as nat); } }
pub proof fn vchals_b<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(c0: Com3, c1: Com3, st: Seq<Step>)
    requires c0.a == c1.a, c0.t == c1.t
    ensures vchals::<L, R, I>(c0, st) == vchals::<L, R, I>(c1, st)
{
    assert forall|i: int| 0 <= i < st.len() implies vchals::<L, R, I>(c0, st)[i] == vchals::<L, R, I>(c1, st)[i] by { vrun_b::<L, R, I>(c0, c1, st, (i + 1) as nat); }
    assert(vchals::<L, R, I>(c0, st) =~= vchals::<L, R, I>(c1, st));
}
/// folding the right message step by step or at once is the same
#[verifier::spinoff_prover]
pub proof fn fold_right<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, n: nat, i: nat)
    requires ps_ok(s, n), i <= n
    ensures ({
        let t = rev(pchals::<L, R, I>(kt, s, n));
        let p = prun::<L, R, I>(kt, s, i).ps;
        dot(s.mb, expo(invs(t), n)) == dot(p.mb, expo(invs(t), (n - i) as nat))
    })
    decreases i
{
    if i > 0 {
        let j = (i - 1) as nat;
        fold_right::<L, R, I>(kt, s, n, j);
        prun_ok::<L, R, I>(kt, s, n, j);
        let t = rev(pchals::<L, R, I>(kt, s, n));
        let ti = invs(t);
        let p = prun::<L, R, I>(kt, s, j).ps;
        let c = prun::<L, R, I>(kt, s, i).c;
        let m = (n - j) as nat;
        lo_hi(p.mb, m);
        assert(t[m - 1] == c);
        assert(ti[m - 1] == finv(c));
        one_fold(p.mb, expo(ti, (m - 1) as nat), finv(c), m, ti);
    }
}
/// the final right message of an honest run on the powers of b
#[verifier::spinoff_prover]
pub proof fn right_value<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, n: nat, b: Fr)
    requires ps_ok(s, n), s.mb == powers(b, pow2(n))
    ensures prun::<L, R, I>(kt, s, n).ps.mb == seq![ssm_val(rev(pchals::<L, R, I>(kt, s, n)), b)]
{
    let t = rev(pchals::<L, R, I>(kt, s, n));
    let ti = invs(t);
    let p = prun::<L, R, I>(kt, s, n).ps;
    fold_right::<L, R, I>(kt, s, n, n);
    prun_ok::<L, R, I>(kt, s, n, n);
    vstd::arithmetic::power2::lemma2_to64();
    assert(p.mb =~= seq![p.mb[0]]);
    assert(expo(ti, 0) =~= seq![f1()]);
    dot1(p.mb[0], f1()); ax_mul_one(p.mb[0]);
    expo_len(ti, n);
    dot_comm(powers(b, pow2(n)), expo(ti, n));
    tw_one(ti);
    expo_prod(ti, f1(), b, n);
    ax_mul_one(b);
}
pub open spec fn ssm_ps(ma: Seq<Fr>, mb: Seq<Fr>, ka: Seq<Fr>) -> PS { PS { ma, mb, ka, kb: zeros(ka.len()) } }
/// C11, transparent variant
#[verifier::spinoff_prover]
pub proof fn ssm_honest<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Fr, ma: Seq<Fr>, ka: Seq<Fr>, n: nat, b: Fr)
    requires ma.len() == pow2(n), ka.len() == pow2(n), !(L::ckind() is Ident), R::ckind() is Zero
    ensures ({ let s = ssm_ps(ma, powers(b, pow2(n)), ka); let p = prun::<L, R, I>(seq![kt], s, n).ps;
       ssm_accepts::<L, R, I>(ka, kt, com_of(L::ckind(), ka, ma), com_of(I::ckind(), seq![kt], seq![dot(ma, powers(b, pow2(n)))]), psteps::<L, R, I>(seq![kt], s, n), p.ma[0], p.mb[0], b) }) //#C11
{
    let k = seq![kt];
    let s = ssm_ps(ma, powers(b, pow2(n)), ka);
    honest_accepts::<L, R, I>(k, s, n);
    right_value::<L, R, I>(k, s, n, b);
}
/// C11, trusted-setup variant
#[verifier::spinoff_prover]
pub proof fn tipa_ssm_honest<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Fr, ma: Seq<Fr>, n: nat, b: Fr, beta: Fr, oa: Fr)
    requires ma.len() == pow2(n), !(L::ckind() is Ident), R::ckind() is Zero,
       ({ let s = ssm_ps(ma, powers(b, pow2(n)), ekey(beta, f1(), pow2(n))); let p = prun::<L, R, I>(seq![kt], s, n).ps; let t = rev(pchals::<L, R, I>(seq![kt], s, n)); let c = kchal1(t, p.ka[0]);
          oa * (beta - c) == keyval(invs(t), beta, f1()) - keyval(invs(t), c, f1()) })
    ensures ({ let ka = ekey(beta, f1(), pow2(n)); let s = ssm_ps(ma, powers(b, pow2(n)), ka); let p = prun::<L, R, I>(seq![kt], s, n).ps;
       tipa_ssm_accepts::<L, R, I>(f1(), f1(), beta, kt, com_of(L::ckind(), ka, ma), com_of(I::ckind(), seq![kt], seq![dot(ma, powers(b, pow2(n)))]), psteps::<L, R, I>(seq![kt], s, n), p.ma[0], p.ka[0], oa, b) }) //#C11
{
    let k = seq![kt];
    let ka = ekey(beta, f1(), pow2(n));
    let s = ssm_ps(ma, powers(b, pow2(n)), ka);
    honest_accepts::<L, R, I>(k, s, n);
    right_value::<L, R, I>(k, s, n, b);
    let p = prun::<L, R, I>(k, s, n).ps;
    let t = rev(pchals::<L, R, I>(k, s, n));
    let c = kchal1(t, p.ka[0]);
    fold_ekey(invs(t), beta, f1());
    r_kzg(p.ka[0], keyval(invs(t), c, f1()), beta, c, oa);
}
@end
