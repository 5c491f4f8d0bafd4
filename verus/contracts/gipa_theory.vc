@ghost root
// ---------------------------------------------------------------------------------------------
// Theory of the generalized inner-product argument, over ghost vectors
// ---------------------------------------------------------------------------------------------
pub struct Com3 { pub a: Seq<Fr>, pub b: Seq<Fr>, pub t: Seq<Fr> }
pub struct Step { pub l: Com3, pub r: Com3 }
pub open spec fn com3<A: Elem, B: Elem, T: Elem>(x: (A, B, T)) -> Com3 { Com3 { a: x.0.vw(), b: x.1.vw(), t: x.2.vw() } }
pub open spec fn stepv<A: Elem, B: Elem, T: Elem>(x: ((A, B, T), (A, B, T))) -> Step { Step { l: com3(x.0), r: com3(x.1) } }
/// rounds of a proof in the order in which they are played (a proof stores them reversed)
pub open spec fn fwd<A: Elem, B: Elem, T: Elem>(s: Seq<((A, B, T), (A, B, T))>) -> Seq<Step> {
    Seq::new(s.len(), |i: int| stepv(s[s.len() - 1 - i]))
}
pub open spec fn rev(s: Seq<Fr>) -> Seq<Fr> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn invs(s: Seq<Fr>) -> Seq<Fr> { Seq::new(s.len(), |i: int| finv(s[i])) }
pub open spec fn nz(s: Seq<Fr>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != f0() }

// ---- Fiat-Shamir challenge ------------------------------------------------------------------
/// everything hashed for one candidate: retry counter, previous challenge, all six cross commitments
pub open spec fn hin<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(n: usize, prev: Fr, s: Step) -> Seq<u8> {
    be8(n) + ser_Fr(prev) + L::Output::ser_of(s.l.a) + R::Output::ser_of(s.l.b) + I::Output::ser_of(s.l.t)
        + L::Output::ser_of(s.r.a) + R::Output::ser_of(s.r.b) + I::Output::ser_of(s.r.t)
}
pub open spec fn cand<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(n: usize, prev: Fr, s: Step) -> Fr {
    fr_u128(be128(hash(hin::<L, R, I>(n, prev, s)).subrange(0, 16)))
}
/// x is the first usable candidate
pub open spec fn is_chal<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(n: usize, prev: Fr, s: Step) -> bool {
    cand::<L, R, I>(n, prev, s) != f0() && forall|m: usize| m < n ==> #[trigger] cand::<L, R, I>(m, prev, s) == f0()
}
pub open spec fn chal_n<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(prev: Fr, s: Step) -> usize {
    choose|n: usize| is_chal::<L, R, I>(n, prev, s)
}
pub open spec fn chal_x<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(prev: Fr, s: Step) -> Fr {
    cand::<L, R, I>(chal_n::<L, R, I>(prev, s), prev, s)
}
/// the round challenge c (c_inv is the 128-bit candidate itself)
pub open spec fn chal<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(prev: Fr, s: Step) -> Fr {
    finv(chal_x::<L, R, I>(prev, s))
}
/// assumed: some retry counter below 2^64-1 gives a usable digest
pub axiom fn ax_usable<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(prev: Fr, s: Step)
    ensures exists|n: usize| n < usize::MAX && #[trigger] is_chal::<L, R, I>(n, prev, s);
pub proof fn chal_is<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(n: usize, prev: Fr, s: Step)
    requires is_chal::<L, R, I>(n, prev, s)
    ensures chal_x::<L, R, I>(prev, s) == cand::<L, R, I>(n, prev, s), chal::<L, R, I>(prev, s) == finv(cand::<L, R, I>(n, prev, s)), chal::<L, R, I>(prev, s) != f0(),
        finv(chal::<L, R, I>(prev, s)) == cand::<L, R, I>(n, prev, s)
{
    let m = chal_n::<L, R, I>(prev, s);
    if m < n { assert(cand::<L, R, I>(m, prev, s) == f0()); }
    if n < m { assert(cand::<L, R, I>(n, prev, s) == f0()); }
    inv_nz(cand::<L, R, I>(n, prev, s));
}
pub proof fn chal_nz<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(prev: Fr, s: Step)
    ensures chal::<L, R, I>(prev, s) != f0(), finv(finv(chal::<L, R, I>(prev, s))) == chal::<L, R, I>(prev, s), finv(chal::<L, R, I>(prev, s)) * chal::<L, R, I>(prev, s) == f1(), chal::<L, R, I>(prev, s) * finv(chal::<L, R, I>(prev, s)) == f1()
{
    ax_usable::<L, R, I>(prev, s);
    let n = choose|n: usize| n < usize::MAX && #[trigger] is_chal::<L, R, I>(n, prev, s);
    chal_is::<L, R, I>(n, prev, s);
    inv_nz(chal::<L, R, I>(prev, s));
}

// ---- verifier's fold ------------------------------------------------------------------------
pub open spec fn fold1(l: Seq<Fr>, p: Seq<Fr>, r: Seq<Fr>, c: Fr) -> Seq<Fr> { padd(padd(pscale(l, c), p), pscale(r, finv(c))) }
pub open spec fn cfold(p: Com3, s: Step, c: Fr) -> Com3 {
    Com3 { a: fold1(s.l.a, p.a, s.r.a, c), b: fold1(s.l.b, p.b, s.r.b, c), t: fold1(s.l.t, p.t, s.r.t, c) }
}
/// state of the verifier after i rounds: folded commitments and last challenge (0 before the first)
pub struct VR { pub com: Com3, pub c: Fr }
pub open spec fn vrun<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(c0: Com3, st: Seq<Step>, i: nat) -> VR
    decreases i
{
    if i == 0 { VR { com: c0, c: f0() } } else {
        let p = vrun::<L, R, I>(c0, st, (i - 1) as nat);
        let c = chal::<L, R, I>(p.c, st[i - 1]);
        VR { com: cfold(p.com, st[i - 1], c), c }
    }
}
/// the round challenges, in playing order
pub open spec fn vchals<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(c0: Com3, st: Seq<Step>) -> Seq<Fr> {
    Seq::new(st.len(), |i: int| vrun::<L, R, I>(c0, st, (i + 1) as nat).c)
}
/// weights of the original keys in the folded key; t is the transcript in stored (reversed) order
pub open spec fn expo(t: Seq<Fr>, i: nat) -> Seq<Fr> decreases i {
    if i == 0 { seq![f1()] } else { expo(t, (i - 1) as nat) + pscale(expo(t, (i - 1) as nat), t[i - 1]) }
}
pub open spec fn fkey_a(ka: Seq<Fr>, t: Seq<Fr>) -> Fr { dot(ka, expo(invs(t), t.len())) }
pub open spec fn fkey_b(kb: Seq<Fr>, t: Seq<Fr>) -> Fr { dot(kb, expo(t, t.len())) }
/// commitments of single final values under single final keys
pub open spec fn base_ok<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(ka: Fr, kb: Fr, kt: Seq<Fr>, c: Com3, ma: Fr, mb: Fr) -> bool {
    &&& com_of(L::ckind(), seq![ka], seq![ma]) == c.a
    &&& com_of(R::ckind(), seq![kb], seq![mb]) == c.b
    &&& com_of(I::ckind(), kt, seq![ma * mb]) == c.t
}
/// C06: what the verifier has to accept
pub open spec fn gipa_accepts<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(ka: Seq<Fr>, kb: Seq<Fr>, kt: Seq<Fr>, c0: Com3, st: Seq<Step>, ma: Fr, mb: Fr) -> bool {
    let t = rev(vchals::<L, R, I>(c0, st));
    &&& is_pow2(ka.len() as int)
    &&& ka.len() == kb.len()
    &&& ka.len() == pow2(st.len())
    &&& base_ok::<L, R, I>(fkey_a(ka, t), fkey_b(kb, t), kt, vrun::<L, R, I>(c0, st, st.len()).com, ma, mb)
}

pub proof fn vchals_nz<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(c0: Com3, st: Seq<Step>)
    ensures nz(vchals::<L, R, I>(c0, st)), nz(rev(vchals::<L, R, I>(c0, st)))
{
    assert forall|i: int| 0 <= i < st.len() implies #[trigger] vchals::<L, R, I>(c0, st)[i] != f0() by {
        let p = vrun::<L, R, I>(c0, st, i as nat);
        chal_nz::<L, R, I>(p.c, st[i]);
        assert(vrun::<L, R, I>(c0, st, (i + 1) as nat).c == chal::<L, R, I>(p.c, st[i]));
    }
}
pub proof fn expo_len(t: Seq<Fr>, i: nat) ensures expo(t, i).len() == pow2(i), expo(t, i)[0] == f1() decreases i {
    vstd::arithmetic::power2::lemma2_to64();
    vstd::arithmetic::power2::lemma_pow2_pos(i);
    if i > 0 { expo_len(t, (i - 1) as nat); vstd::arithmetic::power2::lemma_pow2_unfold(i); }
}

// ---- prover ---------------------------------------------------------------------------------
pub struct PS { pub ma: Seq<Fr>, pub mb: Seq<Fr>, pub ka: Seq<Fr>, pub kb: Seq<Fr> }
pub open spec fn lo(s: Seq<Fr>) -> Seq<Fr> { s.subrange(0, s.len() as int / 2) }
pub open spec fn hi(s: Seq<Fr>) -> Seq<Fr> { s.subrange(s.len() as int / 2, s.len() as int) }
pub open spec fn pfold1(s: Seq<Fr>, u: Fr) -> Seq<Fr> { padd(pscale(hi(s), u), lo(s)) }
pub open spec fn ps_ok(s: PS, n: nat) -> bool { s.ma.len() == pow2(n) && s.mb.len() == pow2(n) && s.ka.len() == pow2(n) && s.kb.len() == pow2(n) }
pub open spec fn pcross<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS) -> Step {
    Step {
        l: Com3 { a: com_of(L::ckind(), lo(s.ka), hi(s.ma)), b: com_of(R::ckind(), hi(s.kb), lo(s.mb)), t: com_of(I::ckind(), kt, seq![dot(hi(s.ma), lo(s.mb))]) },
        r: Com3 { a: com_of(L::ckind(), hi(s.ka), lo(s.ma)), b: com_of(R::ckind(), lo(s.kb), hi(s.mb)), t: com_of(I::ckind(), kt, seq![dot(lo(s.ma), hi(s.mb))]) },
    }
}
pub open spec fn pfold(s: PS, c: Fr) -> PS {
    PS { ma: pfold1(s.ma, c), mb: pfold1(s.mb, finv(c)), ka: pfold1(s.ka, finv(c)), kb: pfold1(s.kb, c) }
}
pub struct PR { pub ps: PS, pub c: Fr }
pub open spec fn prun<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, i: nat) -> PR decreases i {
    if i == 0 { PR { ps: s, c: f0() } } else {
        let p = prun::<L, R, I>(kt, s, (i - 1) as nat);
        let c = chal::<L, R, I>(p.c, pcross::<L, R, I>(kt, p.ps));
        PR { ps: pfold(p.ps, c), c }
    }
}
pub open spec fn psteps<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, n: nat) -> Seq<Step> {
    Seq::new(n, |i: int| pcross::<L, R, I>(kt, prun::<L, R, I>(kt, s, i as nat).ps))
}
pub open spec fn pchals<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, n: nat) -> Seq<Fr> {
    Seq::new(n, |i: int| prun::<L, R, I>(kt, s, (i + 1) as nat).c)
}
pub open spec fn gcoms<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS) -> Com3 {
    Com3 { a: com_of(L::ckind(), s.ka, s.ma), b: com_of(R::ckind(), s.kb, s.mb), t: com_of(I::ckind(), kt, seq![dot(s.ma, s.mb)]) }
}
/// key types whose commitments can be folded (a full-length identity commitment cannot)
pub open spec fn foldable<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment>() -> bool { !(L::ckind() is Ident) && !(R::ckind() is Ident) }

pub proof fn half_pow2(n: nat) requires n > 0 ensures pow2(n) == 2 * pow2((n - 1) as nat), pow2(n) / 2 == pow2((n - 1) as nat), pow2((n - 1) as nat) >= 1 {
    vstd::arithmetic::power2::lemma_pow2_unfold(n);
    vstd::arithmetic::power2::lemma_pow2_pos((n - 1) as nat);
}
pub proof fn is_pow2_half(n: int) requires is_pow2(n), n != 1 ensures is_pow2(n / 2), n % 2 == 0, n / 2 >= 1, n >= 2 {
    let k = choose|k: nat| n == #[trigger] pow2(k);
    vstd::arithmetic::power2::lemma2_to64();
    if k > 0 { half_pow2(k); }
}
pub proof fn pow2_inj(a: nat, b: nat) requires pow2(a) == pow2(b) ensures a == b {
    if a < b { vstd::arithmetic::power2::lemma_pow2_strictly_increases(a, b); }
    if b < a { vstd::arithmetic::power2::lemma_pow2_strictly_increases(b, a); }
}
pub proof fn lo_hi(s: Seq<Fr>, n: nat) requires n > 0, s.len() == pow2(n) ensures lo(s).len() == pow2((n - 1) as nat), hi(s).len() == pow2((n - 1) as nat), lo(s) + hi(s) == s {
    half_pow2(n);
    assert(lo(s) + hi(s) =~= s);
}
pub proof fn pfold1_len(s: Seq<Fr>, n: nat, u: Fr) requires n > 0, s.len() == pow2(n) ensures pfold1(s, u).len() == pow2((n - 1) as nat) {
    lo_hi(s, n);
}
#[verifier::spinoff_prover]
pub proof fn prun_ok<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, n: nat, i: nat)
    requires ps_ok(s, n), i <= n
    ensures ps_ok(prun::<L, R, I>(kt, s, i).ps, (n - i) as nat)
    decreases i
{
    if i > 0 {
        prun_ok::<L, R, I>(kt, s, n, (i - 1) as nat);
        let p = prun::<L, R, I>(kt, s, (i - 1) as nat).ps;
        let k = (n - (i - 1)) as nat;
        let c = prun::<L, R, I>(kt, s, i).c;
        pfold1_len(p.ma, k, c); pfold1_len(p.mb, k, finv(c)); pfold1_len(p.ka, k, finv(c)); pfold1_len(p.kb, k, c);
        assert(prun::<L, R, I>(kt, s, i).ps == pfold(p, c));
    }
}
pub proof fn r_lin(k: Fr, x: Fr, y: Fr, z: Fr, c: Fr, d: Fr) ensures k * ((x * c + y) + z * d) == ((k * x) * c + k * y) + (k * z) * d { ax_dist(k, x * c + y, z * d); ax_dist(k, x * c, y); ax_mul_assoc(k, x, c); ax_mul_assoc(k, z, d); }
pub proof fn r_zero(c: Fr, d: Fr) ensures (f0() * c + f0()) + f0() * d == f0() { mul_zero(c); mul_zero(d); add_z(f0()); }
pub proof fn fold_single(x: Fr, y: Fr, z: Fr, c: Fr) ensures fold1(seq![x], seq![y], seq![z], c) == seq![(x * c + y) + z * finv(c)] {
    let l = fold1(seq![x], seq![y], seq![z], c);
    assert(pscale(seq![x], c) =~= seq![x * c]);
    assert(pscale(seq![z], finv(c)) =~= seq![z * finv(c)]);
    assert(padd(seq![x * c], seq![y]) =~= seq![x * c + y]);
    assert(l =~= seq![(x * c + y) + z * finv(c)]);
}
#[verifier::spinoff_prover]
pub proof fn com_lin(k: CKind, kt: Seq<Fr>, x: Fr, y: Fr, z: Fr, c: Fr)
    requires kt.len() == 1
    ensures fold1(com_of(k, kt, seq![x]), com_of(k, kt, seq![y]), com_of(k, kt, seq![z]), c) == com_of(k, kt, seq![(x * c + y) + z * finv(c)])
{
    assert(kt =~= seq![kt[0]]);
    let w = (x * c + y) + z * finv(c);
    match k {
        CKind::Dot => {
            dot1(kt[0], x); dot1(kt[0], y); dot1(kt[0], z); dot1(kt[0], w);
            fold_single(kt[0] * x, kt[0] * y, kt[0] * z, c);
            r_lin(kt[0], x, y, z, c, finv(c));
        }
        CKind::Zero => { fold_single(f0(), f0(), f0(), c); r_zero(c, finv(c)); }
        CKind::Ident => { fold_single(x, y, z, c); }
    }
}
pub proof fn r_swap(p: Fr, q: Fr, r: Fr) ensures (p + q) + r == (r + q) + p { broadcast use addac; }
/// folding a (Dot or Zero) commitment of split vectors
#[verifier::spinoff_prover]
pub proof fn com_fold(k: CKind, a: Seq<Fr>, b: Seq<Fr>, n: nat, c: Fr, ci: Fr)
    requires a.len() == pow2(n), b.len() == pow2(n), n > 0, ci * c == f1(), !(k is Ident)
    ensures
        ci == finv(c) ==> fold1(com_of(k, lo(a), hi(b)), com_of(k, a, b), com_of(k, hi(a), lo(b)), c) == com_of(k, pfold1(a, ci), pfold1(b, c)),
        c == finv(ci) ==> fold1(com_of(k, hi(a), lo(b)), com_of(k, a, b), com_of(k, lo(a), hi(b)), ci) == com_of(k, pfold1(a, ci), pfold1(b, c)),
{
    lo_hi(a, n); lo_hi(b, n);
    dot_fold(lo(a), hi(a), lo(b), hi(b), ci, c);
    let (x, y, z) = (dot(lo(a), hi(b)), dot(a, b), dot(hi(a), lo(b)));
    match k {
        CKind::Dot => { fold_single(x, y, z, c); fold_single(z, y, x, ci); r_swap(x * c, y, z * ci); }
        CKind::Zero => { fold_single(f0(), f0(), f0(), c); fold_single(f0(), f0(), f0(), ci); r_zero(c, finv(c)); r_zero(ci, finv(ci)); }
        CKind::Ident => { }
    }
}
/// one honest round keeps the three commitments consistent
#[verifier::spinoff_prover]
pub proof fn honest_round<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, n: nat, c: Fr)
    requires ps_ok(s, n), n > 0, kt.len() == 1, c * finv(c) == f1(), finv(c) * c == f1(), foldable::<L, R>(), finv(finv(c)) == c
    ensures cfold(gcoms::<L, R, I>(kt, s), pcross::<L, R, I>(kt, s), c) == gcoms::<L, R, I>(kt, pfold(s, c))
{
    let ci = finv(c);
    com_fold(L::ckind(), s.ka, s.ma, n, c, ci);
    com_fold(R::ckind(), s.kb, s.mb, n, ci, c);
    lo_hi(s.ma, n); lo_hi(s.mb, n);
    dot_fold(lo(s.ma), hi(s.ma), lo(s.mb), hi(s.mb), c, ci);
    let (x, y, z) = (dot(hi(s.ma), lo(s.mb)), dot(s.ma, s.mb), dot(lo(s.ma), hi(s.mb)));
    com_lin(I::ckind(), kt, x, y, z, c);
    r_swap(z * ci, y, x * c);
}
#[verifier::spinoff_prover]
pub proof fn honest_run<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, n: nat, i: nat)
    requires ps_ok(s, n), i <= n, kt.len() == 1, foldable::<L, R>()
    ensures ({
        let v = vrun::<L, R, I>(gcoms::<L, R, I>(kt, s), psteps::<L, R, I>(kt, s, n), i);
        let p = prun::<L, R, I>(kt, s, i);
        v.com == gcoms::<L, R, I>(kt, p.ps) && v.c == p.c
    })
    decreases i
{
    if i > 0 {
        let j = (i - 1) as nat;
        honest_run::<L, R, I>(kt, s, n, j);
        prun_ok::<L, R, I>(kt, s, n, j);
        let p = prun::<L, R, I>(kt, s, j);
        let x = pcross::<L, R, I>(kt, p.ps);
        chal_nz::<L, R, I>(p.c, x);
        assert(psteps::<L, R, I>(kt, s, n)[i - 1] == x);
        honest_round::<L, R, I>(kt, p.ps, (n - j) as nat, chal::<L, R, I>(p.c, x));
    }
}
/// folding a key step by step or at once is the same
#[verifier::spinoff_prover]
pub proof fn fold_keys<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, n: nat, i: nat)
    requires ps_ok(s, n), i <= n
    ensures ({
        let t = rev(pchals::<L, R, I>(kt, s, n));
        let p = prun::<L, R, I>(kt, s, i).ps;
        dot(s.ka, expo(invs(t), n)) == dot(p.ka, expo(invs(t), (n - i) as nat)) && dot(s.kb, expo(t, n)) == dot(p.kb, expo(t, (n - i) as nat))
    })
    decreases i
{
    if i > 0 {
        let j = (i - 1) as nat;
        fold_keys::<L, R, I>(kt, s, n, j);
        prun_ok::<L, R, I>(kt, s, n, j);
        let t = rev(pchals::<L, R, I>(kt, s, n));
        let ti = invs(t);
        let p = prun::<L, R, I>(kt, s, j).ps;
        let c = prun::<L, R, I>(kt, s, i).c;
        let m = (n - j) as nat;
        lo_hi(p.ka, m); lo_hi(p.kb, m);
        assert(t[m - 1] == c);
        assert(ti[m - 1] == finv(c));
        one_fold(p.ka, expo(ti, (m - 1) as nat), finv(c), m, ti);
        one_fold(p.kb, expo(t, (m - 1) as nat), c, m, t);
    }
}
#[verifier::spinoff_prover]
pub proof fn one_fold(k: Seq<Fr>, e: Seq<Fr>, x: Fr, m: nat, t: Seq<Fr>)
    requires m > 0, k.len() == pow2(m), e == expo(t, (m - 1) as nat), x == t[m - 1]
    ensures dot(k, expo(t, m)) == dot(pfold1(k, x), e)
{
    expo_len(t, (m - 1) as nat);
    lo_hi(k, m);
    dot_concat(lo(k), hi(k), e, pscale(e, x));
    dot_scale_r(hi(k), e, x);
    dot_add_l(pscale(hi(k), x), lo(k), e);
    dot_scale_l(hi(k), e, x);
    ax_add_comm(dot(lo(k), e), dot(hi(k), e) * x);
}
/// C04: the verifier has to accept what the prover has to produce
#[verifier::spinoff_prover]
pub proof fn honest_accepts<L: DoublyHomomorphicCommitment, R: DoublyHomomorphicCommitment, I: DoublyHomomorphicCommitment>(kt: Seq<Fr>, s: PS, n: nat)
    requires ps_ok(s, n), kt.len() == 1, foldable::<L, R>()
    ensures ({ let p = prun::<L, R, I>(kt, s, n).ps;
        &&& gipa_accepts::<L, R, I>(s.ka, s.kb, kt, gcoms::<L, R, I>(kt, s), psteps::<L, R, I>(kt, s, n), p.ma[0], p.mb[0]) //#C04
        &&& vchals::<L, R, I>(gcoms::<L, R, I>(kt, s), psteps::<L, R, I>(kt, s, n)) == pchals::<L, R, I>(kt, s, n) //#C07
        &&& fkey_a(s.ka, rev(pchals::<L, R, I>(kt, s, n))) == p.ka[0] && fkey_b(s.kb, rev(pchals::<L, R, I>(kt, s, n))) == p.kb[0]
        &&& p.ma.len() == 1 && p.mb.len() == 1 && p.ka.len() == 1 && p.kb.len() == 1
    })
{
    let c0 = gcoms::<L, R, I>(kt, s);
    let st = psteps::<L, R, I>(kt, s, n);
    let p = prun::<L, R, I>(kt, s, n).ps;
    assert forall|i: int| 0 <= i < n implies vchals::<L, R, I>(c0, st)[i] == pchals::<L, R, I>(kt, s, n)[i] by { honest_run::<L, R, I>(kt, s, n, (i + 1) as nat); }
    assert(vchals::<L, R, I>(c0, st) =~= pchals::<L, R, I>(kt, s, n));
    honest_run::<L, R, I>(kt, s, n, n);
    prun_ok::<L, R, I>(kt, s, n, n);
    vstd::arithmetic::power2::lemma2_to64();
    fold_keys::<L, R, I>(kt, s, n, n);
    let t = rev(pchals::<L, R, I>(kt, s, n));
    assert(p.ka =~= seq![p.ka[0]]); assert(p.kb =~= seq![p.kb[0]]); assert(p.ma =~= seq![p.ma[0]]); assert(p.mb =~= seq![p.mb[0]]);
    assert(expo(invs(t), 0) =~= seq![f1()]); assert(expo(t, 0) =~= seq![f1()]);
    dot1(p.ka[0], f1()); dot1(p.kb[0], f1()); dot1(p.ma[0], p.mb[0]);
    ax_mul_one(p.ka[0]); ax_mul_one(p.kb[0]);
}
@end
