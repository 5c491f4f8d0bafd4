@ghost sipp
// ---- theory of SIPP over ghost vectors ---------------------------------------------------------
pub open spec fn had(a: Seq<Fr>, b: Seq<Fr>) -> Seq<Fr> { Seq::new(a.len(), |i: int| a[i] * b[i]) }
pub struct GtStep { pub l: Fr, pub r: Fr }
pub open spec fn gst(s: (GT, GT)) -> GtStep { GtStep { l: s.0.dl(), r: s.1.dl() } }
pub open spec fn gsts(s: Seq<(GT, GT)>) -> Seq<GtStep> { Seq::new(s.len(), |i: int| gst(s[i])) }
pub open spec fn sround(s: GtStep) -> Seq<u8> { ser_GT(s.l) + ser_GT(s.r) }
/// key of the generator after i rounds: the statement first, then each round with the previous key
pub open spec fn skey(seed: Seq<u8>, st: Seq<GtStep>, i: nat) -> Seq<u8> decreases i {
    if i == 0 { hash(seed) } else { hash(sround(st[i - 1]) + skey(seed, st, (i - 1) as nat)) }
}
pub open spec fn schal(k: Seq<u8>) -> Fr { fr_u128(draw_u128(RngState { id: k, pos: 0 })) }
/// the challenges in playing order
pub open spec fn schals(seed: Seq<u8>, st: Seq<GtStep>) -> Seq<Fr> { Seq::new(st.len(), |i: int| schal(skey(seed, st, (i + 1) as nat))) }
pub open spec fn sseed(a: &[G1Affine], b: &[G2Affine], r: &[Fr], v: GT) -> Seq<u8> { (a, b, r, v).sbytes() }
pub open spec fn inv0(x: Fr) -> Fr { if x == f0() { f0() } else { finv(x) } }
pub open spec fn invs0(s: Seq<Fr>) -> Seq<Fr> { Seq::new(s.len(), |i: int| inv0(s[i])) }
/// the claimed product folded with all proof elements
pub open spec fn zfold(st: Seq<GtStep>, x: Seq<Fr>, xi: Seq<Fr>, i: int) -> Fr decreases i {
    if i <= 0 { f0() } else { zfold(st, x, xi, i - 1) + (st[i - 1].l * x[i - 1] + st[i - 1].r * xi[i - 1]) }
}
/// C21: what the verifier has to accept
pub open spec fn sipp_eq(a: Seq<Fr>, b: Seq<Fr>, r: Seq<Fr>, v: Fr, st: Seq<GtStep>, x: Seq<Fr>) -> bool {
    let xi = invs0(x);
    let n = x.len();
    dot(had(a, r), expo(rev(x), n)) * dot(b, expo(rev(xi), n)) == v + zfold(st, x, xi, st.len() as int)
}
// ---- prover ------------------------------------------------------------------------------------
pub struct SV { pub a: Seq<Fr>, pub b: Seq<Fr> }
pub open spec fn scross(s: SV) -> GtStep { GtStep { l: dot(hi(s.a), lo(s.b)), r: dot(lo(s.a), hi(s.b)) } }
pub open spec fn sfold(s: SV, x: Fr) -> SV { SV { a: pfold1(s.a, x), b: pfold1(s.b, finv(x)) } }
pub struct SR { pub v: SV, pub k: Seq<u8> }
pub open spec fn srun(seed: Seq<u8>, s: SV, i: nat) -> SR decreases i {
    if i == 0 { SR { v: s, k: hash(seed) } } else {
        let p = srun(seed, s, (i - 1) as nat);
        let k = hash(sround(scross(p.v)) + p.k);
        SR { v: sfold(p.v, schal(k)), k }
    }
}
pub open spec fn ssteps(seed: Seq<u8>, s: SV, n: nat) -> Seq<GtStep> { Seq::new(n, |i: int| scross(srun(seed, s, i as nat).v)) }
/// no challenge of the honest run is zero (a zero 128-bit draw makes the prover give up)
pub open spec fn s_usable(seed: Seq<u8>, s: SV, n: nat) -> bool { forall|i: int| 0 <= i < n ==> schal(#[trigger] srun(seed, s, (i + 1) as nat).k) != f0() }
pub open spec fn sv0(a: &[G1Affine], b: &[G2Affine], r: &[Fr]) -> SV { SV { a: had(dls(a@), r@), b: dls(b@) } }
pub open spec fn sipp_valid(a: &[G1Affine], b: &[G2Affine], r: &[Fr], v: GT) -> bool {
    &&& a@.len() == b@.len() && a@.len() == r@.len() && is_pow2(a@.len() as int)
    &&& forall|n: nat| #[trigger] pow2(n) == a@.len() ==> s_usable(sseed(a, b, r, v), sv0(a, b, r), n)
}
pub open spec fn sipp_shape(a: &[G1Affine], b: &[G2Affine], r: &[Fr], proof: &Proof) -> bool {
    &&& is_pow2(a@.len() as int) && a@.len() >= 2 && a@.len() == b@.len() && a@.len() == r@.len()
    &&& pow2(proof.gt_elems@.len()) == a@.len()
}
impl Proof { pub open spec fn st(&self) -> Seq<GtStep> { gsts(self.gt_elems@) } }

pub proof fn srun_ok(seed: Seq<u8>, s: SV, n: nat, i: nat)
    requires s.a.len() == pow2(n), s.b.len() == pow2(n), i <= n
    ensures srun(seed, s, i).v.a.len() == pow2((n - i) as nat), srun(seed, s, i).v.b.len() == pow2((n - i) as nat), srun(seed, s, i).k == skey(seed, ssteps(seed, s, n), i)
    decreases i
{
    if i > 0 {
        srun_ok(seed, s, n, (i - 1) as nat);
        let p = srun(seed, s, (i - 1) as nat).v;
        let x = schal(srun(seed, s, i).k);
        pfold1_len(p.a, (n - (i - 1)) as nat, x); pfold1_len(p.b, (n - (i - 1)) as nat, finv(x));
    }
}
proof fn r_add3(z: Fr, q: Fr, r: Fr, v: Fr) ensures (r + (v + z)) + q == v + (z + (q + r)) { broadcast use addac; }
#[verifier::spinoff_prover]
pub proof fn srun_value(seed: Seq<u8>, s: SV, n: nat, i: nat)
    requires s.a.len() == pow2(n), s.b.len() == pow2(n), i <= n, s_usable(seed, s, n)
    ensures ({ let st = ssteps(seed, s, n); let x = schals(seed, st); let p = srun(seed, s, i).v;
        dot(p.a, p.b) == dot(s.a, s.b) + zfold(st, x, invs0(x), i as int) })
    decreases i
{
    let st = ssteps(seed, s, n); let x = schals(seed, st);
    if i == 0 { ax_add_zero(dot(s.a, s.b)); } else {
        let j = (i - 1) as nat;
        srun_value(seed, s, n, j);
        srun_ok(seed, s, n, j); srun_ok(seed, s, n, i);
        let p = srun(seed, s, j).v; let c = schal(srun(seed, s, i).k);
        assert(x[i - 1] == c);
        assert(srun(seed, s, ((i - 1) + 1) as nat).k == srun(seed, s, i).k);
        inv_nz(c);
        let m = (n - j) as nat;
        lo_hi(p.a, m); lo_hi(p.b, m);
        dot_fold(lo(p.a), hi(p.a), lo(p.b), hi(p.b), c, finv(c));
        r_add3(zfold(st, x, invs0(x), j as int), scross(p).l * c, scross(p).r * finv(c), dot(s.a, s.b));
    }
}
#[verifier::spinoff_prover]
pub proof fn sfold_keys(seed: Seq<u8>, s: SV, n: nat, i: nat)
    requires s.a.len() == pow2(n), s.b.len() == pow2(n), i <= n, s_usable(seed, s, n)
    ensures ({ let x = schals(seed, ssteps(seed, s, n)); let p = srun(seed, s, i).v;
        &&& dot(s.a, expo(rev(x), n)) == dot(p.a, expo(rev(x), (n - i) as nat))
        &&& dot(s.b, expo(rev(invs0(x)), n)) == dot(p.b, expo(rev(invs0(x)), (n - i) as nat)) })
    decreases i
{
    if i > 0 {
        let j = (i - 1) as nat;
        sfold_keys(seed, s, n, j);
        srun_ok(seed, s, n, j); srun_ok(seed, s, n, i);
        let x = schals(seed, ssteps(seed, s, n));
        let p = srun(seed, s, j).v; let c = schal(srun(seed, s, i).k);
        let m = (n - j) as nat;
        assert(srun(seed, s, ((i - 1) + 1) as nat).k == srun(seed, s, i).k);
        assert(x[i - 1] == c);
        assert(rev(x)[m - 1] == c); assert(rev(invs0(x))[m - 1] == finv(c));
        one_fold(p.a, expo(rev(x), (m - 1) as nat), c, m, rev(x));
        one_fold(p.b, expo(rev(invs0(x)), (m - 1) as nat), finv(c), m, rev(invs0(x)));
    }
}
/// C20: the verifier has to accept what the prover has to produce for the true scaled product
#[verifier::spinoff_prover]
pub proof fn sipp_honest(seed: Seq<u8>, a: Seq<Fr>, b: Seq<Fr>, r: Seq<Fr>, n: nat)
    requires a.len() == pow2(n), b.len() == pow2(n), r.len() == pow2(n), s_usable(seed, SV { a: had(a, r), b }, n)
    ensures ({ let s = SV { a: had(a, r), b }; let st = ssteps(seed, s, n);
        sipp_eq(a, b, r, dot(had(a, r), b), st, schals(seed, st)) }) //#C20
{
    let s = SV { a: had(a, r), b };
    srun_value(seed, s, n, n); sfold_keys(seed, s, n, n); srun_ok(seed, s, n, n);
    let x = schals(seed, ssteps(seed, s, n));
    let p = srun(seed, s, n).v;
    vstd::arithmetic::power2::lemma2_to64();
    assert(p.a =~= seq![p.a[0]]); assert(p.b =~= seq![p.b[0]]);
    assert(expo(rev(x), 0) == seq![f1()]); assert(expo(rev(invs0(x)), 0) == seq![f1()]);
    dot1(p.a[0], f1()); dot1(p.b[0], f1()); dot1(p.a[0], p.b[0]);
    ax_mul_one(p.a[0]); ax_mul_one(p.b[0]);
}
// ---- the verifier's weights, bit by bit -----------------------------------------------------------
pub open spec fn bitset(i: int, p: nat) -> bool { (i / pow2(p) as int) % 2 == 1 }
/// weight of entry i after the first j rounds (round j looks at bit n-1-j)
pub open spec fn sw(x: Seq<Fr>, n: nat, j: nat, i: int) -> Fr decreases j {
    if j == 0 { f1() } else if bitset(i, (n - j) as nat) { sw(x, n, (j - 1) as nat, i) * x[j - 1] } else { sw(x, n, (j - 1) as nat, i) }
}
proof fn r_sw(a: Fr, b: Fr, c: Fr) ensures a * (b * c) == (a * c) * b { broadcast use mulac; }
#[verifier::spinoff_prover]
proof fn mod_half(i: int, p: nat)
    requires i >= 0
    ensures ({ let q = pow2(p) as int; let m = i % pow2(p + 1) as int;
        &&& bitset(i, p) == (m >= q) && 0 <= m < 2 * q
        &&& m >= q ==> i % q == m - q
        &&& m < q ==> i % q == m })
{
    let q = pow2(p) as int;
    vstd::arithmetic::power2::lemma_pow2_pos(p);
    vstd::arithmetic::power2::lemma_pow2_unfold(p + 1);
    let d = i / (2 * q); let m = i % (2 * q);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, 2 * q);
    vstd::arithmetic::div_mod::lemma_mod_bound(i, 2 * q);
    if m < q {
        assert(i == (2 * d) * q + m) by (nonlinear_arith) requires i == (2 * q) * d + m;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, q, 2 * d, m);
    } else {
        assert(i == (2 * d + 1) * q + (m - q)) by (nonlinear_arith) requires i == (2 * q) * d + m;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, q, 2 * d + 1, m - q);
    }
}
#[verifier::spinoff_prover]
pub proof fn sw_expo(x: Seq<Fr>, n: nat, j: nat, i: int)
    requires x.len() == n, j <= n, 0 <= i < pow2(n)
    ensures expo(rev(x), n)[i] == sw(x, n, j, i) * expo(rev(x), (n - j) as nat)[i % pow2((n - j) as nat) as int]
    decreases j
{
    let t = rev(x);
    if j == 0 {
        vstd::arithmetic::div_mod::lemma_small_mod(i as nat, pow2(n));
        ax_mul_one(expo(t, n)[i]); ax_mul_comm(expo(t, n)[i], f1());
    } else {
        sw_expo(x, n, (j - 1) as nat, i);
        let p = (n - j) as nat;
        let m = i % pow2(p + 1) as int;
        mod_half(i, p);
        expo_len(t, p);
        assert((n - (j - 1)) as nat == p + 1);
        assert(t[p as int] == x[j - 1]);
        let e = expo(t, p);
        assert(expo(t, p + 1) == e + pscale(e, t[p as int]));
        let q = pow2(p) as int;
        if m >= q { assert(expo(t, p + 1)[m] == e[m - q] * x[j - 1]); r_sw(sw(x, n, (j - 1) as nat, i), e[m - q], x[j - 1]); }
        else { assert(expo(t, p + 1)[m] == e[m]); }
    }
}
pub proof fn sw_all(x: Seq<Fr>, n: nat, s: Seq<Fr>)
    requires x.len() == n, s.len() == pow2(n), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == sw(x, n, n, i)
    ensures s == expo(rev(x), n)
{
    expo_len(rev(x), n);
    vstd::arithmetic::power2::lemma2_to64();
    assert forall|i: int| 0 <= i < s.len() implies s[i] == expo(rev(x), n)[i] by {
        sw_expo(x, n, n, i);
        assert(i % 1 == 0);
        assert(expo(rev(x), 0)[0] == f1());
        ax_mul_one(sw(x, n, n, i));
    }
    assert(s =~= expo(rev(x), n));
}
pub proof fn bit_is(i: usize, p: usize)
    requires p < 64
    ensures ((i & (1usize << p)) != 0) == bitset(i as int, p as nat), ((i & (1usize << p)) == (1usize << p)) == bitset(i as int, p as nat),
       ((i >> p) & 1usize == 1usize) == bitset(i as int, p as nat), ((i >> p) & 1usize != 0) == bitset(i as int, p as nat), ((i >> p) % 2usize == 1usize) == bitset(i as int, p as nat)
{
    assert(((i & (1usize << p)) != 0) == (((i >> p) & 1usize) == 1usize)) by (bit_vector) requires p < 64;
    assert(((i & (1usize << p)) == (1usize << p)) == (((i >> p) & 1usize) == 1usize)) by (bit_vector) requires p < 64;
    vstd::bits::lemma_usize_shr_is_div(i, p);
    let y = i >> p;
    assert((y & 1usize) == y % 2usize) by (bit_vector);
}
proof fn had_msm(a: Seq<Fr>, s: Seq<Fr>, r: Seq<Fr>)
    requires a.len() == s.len(), r.len() == a.len()
    ensures dot(a, had(s, r)) == dot(had(a, r), s)
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] prods(a, had(s, r))(i) == prods(had(a, r), s)(i) by { let (p, q, u) = (a[i], s[i], r[i]); assert(p * (q * u) == (p * u) * q) by { broadcast use mulac; } }
    sumr_cong(prods(a, had(s, r)), prods(had(a, r), s), 0, a.len() as int);
}
@end

@fn sipp::product_of_pairings_with_coeffs
@props C23
@requires
a@.len() == b@.len(), a@.len() == r@.len()
@ensures C23,C20
res.dl() == dot(had(dls(a@), r@), dls(b@))
@at fn_start
let ghost a0 = a@;
let ghost b0 = b@;
let ghost lv = had(dls(a@), r@);
let ghost rv = dls(b@);
proof { broadcast use {ax_of_dl_G1, ax_of_tl}; }
@type out_a Vec<G1>
@type out_a_2 Vec<G1Prepared>
@type out_b Vec<G2Prepared>
@type acc_ml_result TargetField
@inv a
invariant i_a <= n_a, n_a == lv.len(), $S0@ == a0, $S1@ == r@, out_a@.len() == i_a,
   forall|k: int| 0 <= k < i_a ==> (#[trigger] out_a@[k]).dl() == lv[k],
decreases n_a - i_a
@at let a
proof { assert(dls(a@) =~= lv); }
@inv a_2
invariant i_a_2 <= n_a_2, n_a_2 == lv.len(), dls($S0@) == lv, out_a_2@.len() == i_a_2,
   forall|k: int| 0 <= k < i_a_2 ==> (#[trigger] out_a_2@[k]).dl() == lv[k],
decreases n_a_2 - i_a_2
@at elem a_2
proof { assert(dls($S0@)[ix_a_2 as int] == lv[ix_a_2 as int]); }
@at let a #3
proof { assert(dls(a@) =~= lv); assert(a@.len() == lv.len()); }
@inv b
invariant i_b <= n_b, n_b == rv.len(), $S0@ == b0, out_b@.len() == i_b,
   forall|k: int| 0 <= k < i_b ==> (#[trigger] out_b@[k]).dl() == rv[k],
decreases n_b - i_b
@at let b
proof { assert(dls(b@) =~= rv); assert(b@.len() == rv.len()); }
@at let chunk_size
proof { if num_chunks <= a.len() { assert(a.len() / num_chunks >= 1) by (nonlinear_arith) requires num_chunks <= a.len(), num_chunks >= 1; } }
@at before_loop ml_result
proof { broadcast use ax_of_tl; }
@inv ml_result
invariant i_ml_result <= n_ml_result,
   $K0 == $K1, $K0 > 0, n_ml_result == ceil_div(lv.len() as int, $K0 as int), lv.len() > 0 ==> (n_ml_result - 1) * $K0 < lv.len() <= n_ml_result * $K0, lv.len() == 0 ==> n_ml_result == 0,
   dls($S0@) == lv, dls($S1@) == rv, lv.len() == rv.len(), lv.len() == $S0@.len(), rv.len() == $S1@.len(),
   acc_ml_result.tl() == sumr(prods(lv, rv), 0, if i_ml_result * $K0 <= lv.len() { i_ml_result * $K0 } else { lv.len() as int }),
decreases n_ml_result - i_ml_result
@at bind ml_result
proof { assert(ix_ml_result * $K0 <= (n_ml_result - 1) * $K0) by (nonlinear_arith) requires ix_ml_result <= n_ml_result - 1, $K0 > 0;
   assert((ix_ml_result + 1) * $K0 == ix_ml_result * $K0 + $K0) by (nonlinear_arith); }
@at elem ml_result
proof {
   broadcast use ax_of_tl;
   let lo = ix_ml_result * $K0;
   let hi = if (ix_ml_result + 1) * $K0 <= lv.len() { (ix_ml_result + 1) * $K0 } else { lv.len() as int };
   assert(dls($S0@.subrange(lo, hi)) =~= lv.subrange(lo, hi));
   assert(dls($S1@.subrange(lo, hi)) =~= rv.subrange(lo, hi));
   dotp_sub(lv, rv, lo, hi);
   sumr_split(prods(lv, rv), 0, lo, hi);
}
@end

@fn sipp::product_of_pairings
@props C23
@requires
a@.len() == b@.len()
@ensures C23,C20
res.dl() == dot(dls(a@), dls(b@))
@at let r
proof { assert(had(dls(a@), r@) =~= dls(a@)) by { broadcast use ax_mul_one; } }
@end

@fn sipp::SIPP::prove
@attr #[verifier::rlimit(60)]
@props C20
@valid sipp_valid(a0, b0, r, value)
@ensures C20,C22
res.is_ok()
@ensures C20,C22
forall|n: nat| #[trigger] pow2(n) == a@.len() ==> res->Ok_0.st() == ssteps(sseed(a, b, r, value), sv0(a, b, r), n)
@at fn_start
let ghost a0 = a;
let ghost b0 = b;
let ghost sd = sseed(a, b, r, value);
let ghost s0 = sv0(a, b, r);
let ghost nn: nat = choose|n: nat| #[trigger] pow2(n) == a@.len();
let ghost mut i: nat = 0;
@at let seed
proof {
   broadcast use {ax_of_dl_G1, ax_of_dl_G2};
   assert(Seq::<u8>::empty() + sd =~= sd);
   assert(is_pow2(a@.len() as int));
   assert(pow2(nn) == a@.len());
   assert forall|m: nat| #[trigger] pow2(m) == a@.len() implies m == nn by { pow2_inj(m, nn); }
   vstd::arithmetic::power2::lemma2_to64();
}
@type out_a Vec<G1>
@type out_a_proj Vec<G1>
@type out_b_proj Vec<G2>
@type proof_vec Vec<(GT, GT)>
@inv a
invariant i_a <= n_a, n_a == s0.a.len(), $S0@ == a0@, $S1@ == r@, out_a@.len() == i_a,
   forall|k: int| 0 <= k < i_a ==> (#[trigger] out_a@[k]).dl() == s0.a[k],
decreases n_a - i_a
@at let a #2
proof { assert(dls(a@) =~= s0.a); }
@at before_loop while
proof { assert(dls(b@) =~= s0.b); }
@inv while
invariant
   i <= nn, length == pow2((nn - i) as nat), s0.a.len() == pow2(nn), s0.b.len() == pow2(nn),
   dls(a@) == srun(sd, s0, i).v.a, dls(b@) == srun(sd, s0, i).v.b, rng.frame() == srun(sd, s0, i).k,
   proof_vec@.len() == i,
   forall|j: int| 0 <= j < i ==> gst(#[trigger] proof_vec@[j]) == scross(srun(sd, s0, j as nat).v),
decreases length
@at body_start while
let ghost p = srun(sd, s0, i);
proof {
   srun_ok(sd, s0, nn, i);
   vstd::arithmetic::power2::lemma2_to64();
   half_pow2((nn - i) as nat);
   lo_hi(p.v.a, (nn - i) as nat); lo_hi(p.v.b, (nn - i) as nat);
}
@at let b_r
proof {
   assert(dls(a_l@) =~= lo(p.v.a)); assert(dls(a_r@) =~= hi(p.v.a));
   assert(dls(b_l@) =~= lo(p.v.b)); assert(dls(b_r@) =~= hi(p.v.b));
}
@at let x
proof {
   assert(gst((z_l, z_r)) == scross(p.v)); //#C20
   assert(Seq::<u8>::empty() + (z_l, z_r).sbytes() =~= sround(scross(p.v)));
   assert(x == schal(srun(sd, s0, i + 1).k)); //#C22,C27
}
@inv a_proj
invariant i_a_proj <= n_a_proj, n_a_proj == lo(p.v.a).len(), $S0@ == a_l@, $S1@ == a_r@, out_a_proj@.len() == i_a_proj,
   forall|k: int| 0 <= k < i_a_proj ==> (#[trigger] out_a_proj@[k]).dl() == pfold1(p.v.a, x)[k],
decreases n_a_proj - i_a_proj
@inv b_proj
invariant i_b_proj <= n_b_proj, n_b_proj == lo(p.v.b).len(), $S0@ == b_l@, $S1@ == b_r@, out_b_proj@.len() == i_b_proj,
   forall|k: int| 0 <= k < i_b_proj ==> (#[trigger] out_b_proj@[k]).dl() == pfold1(p.v.b, x_inv)[k],
decreases n_b_proj - i_b_proj
@at body_end while
proof {
   assert(dls(a@) =~= pfold1(p.v.a, x)); assert(dls(b@) =~= pfold1(p.v.b, finv(x)));
   i = i + 1;
}
@at fn_end
proof { assert(i == nn) by { if nn - i > 0 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(0, (nn - i) as nat); } }
   assert(r__->Ok_0.st() =~= ssteps(sd, s0, nn)); }
@end

@fn sipp::SIPP::verify
@attr #[verifier::rlimit(60)]
@props C21
@valid sipp_shape(a, b, r, proof)
@ensures C21
sipp_shape(a, b, r, proof)
@ensures C21
res.is_ok()
@ensures C21,C22
res->Ok_0 == sipp_eq(dls(a@), dls(b@), r@, claimed_value.dl(), proof.st(), schals(sseed(a, b, r, claimed_value), proof.st()))
@ensures C20
sipp_valid(a, b, r, claimed_value) && claimed_value.dl() == dot(had(dls(a@), r@), dls(b@)) && (forall|n: nat| #[trigger] pow2(n) == a@.len() ==> proof.st() == ssteps(sseed(a, b, r, claimed_value), sv0(a, b, r), n)) ==> res->Ok_0
@at fn_start
let ghost sd = sseed(a, b, r, claimed_value);
let ghost st = proof.st();
let ghost xs = schals(sd, st);
let ghost xis = invs0(xs);
let ghost nn = proof.gt_elems@.len();
let ghost a0 = dls(a@);
let ghost b0 = dls(b@);
let ghost r0 = r@;
proof { broadcast use {ax_of_dl_GT, dls_fr}; }
@at let rng
proof { assert(Seq::<u8>::empty() + sd =~= sd); assert(pow2(nn) == length);
   vstd::arithmetic::power2::lemma2_to64();
   if nn >= 64 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(63, nn); vstd::arithmetic::power2::lemma_pow2_unfold(64); if nn > 64 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(64, nn); } }
}
@type out_x_s Vec<Fr>
@type out_s Vec<Fr>
@inv x_s
invariant i_x_s <= n_x_s, n_x_s == nn, $S0@ == proof.gt_elems@, out_x_s@.len() == i_x_s, rng.frame() == skey(sd, st, i_x_s as nat),
   forall|k: int| 0 <= k < i_x_s ==> #[trigger] out_x_s@[k] == xs[k],
decreases n_x_s - i_x_s
@at let x
proof {
   assert(gst($S0@x_s@[ix_x_s as int]) == st[ix_x_s as int]);
   assert(Seq::<u8>::empty() + (*z_l, *z_r).sbytes() =~= sround(st[ix_x_s as int]));
   assert(x == xs[ix_x_s as int]); //#C22,C27
}
@at let x_s
proof { assert(x_s@ =~= xs); }
@inv chain
invariant i_chain <= n_chain, n_chain == nn, $S0@ == proof.gt_elems@, $S1@ == xs, $S2@ == xis,
   acc_chain.dl() == zfold(st, xs, xis, i_chain as int),
decreases n_chain - i_chain
@at elem chain
proof { assert(gst($S0@[ix_chain as int]) == st[ix_chain as int]); }
@at before_loop chain
proof { assert($S2@ =~= xis); }
@inv for
invariant i_for <= n_for, n_for == nn, $S0@ == xs, $S1@ == xis, s@.len() == length, s_invs@.len() == length,
   forall|i: int| 0 <= i < length ==> #[trigger] s@[i] == sw(xs, nn, i_for as nat, i),
   forall|i: int| 0 <= i < length ==> #[trigger] s_invs@[i] == sw(xis, nn, i_for as nat, i),
decreases n_for - i_for
@inv for_2
invariant i_for_2 <= n_for_2, n_for_2 == length, $L0 == 0, s@.len() == length, s_invs@.len() == length,
   x == xs[ix_for as int], x_inv == xis[ix_for as int],
   forall|i: int| 0 <= i < length ==> #[trigger] s@[i] == sw(xs, nn, if i < i_for_2 { (ix_for + 1) as nat } else { ix_for as nat }, i),
   forall|i: int| 0 <= i < length ==> #[trigger] s_invs@[i] == sw(xis, nn, if i < i_for_2 { (ix_for + 1) as nat } else { ix_for as nat }, i),
decreases n_for_2 - i_for_2
@at body_start for_2
proof { bit_is(i, (proof_len - j - 1) as usize); }
@inv s
invariant i_s <= n_s, n_s == length, $S0@.len() == length, $S0@ == expo(rev(xs), nn), $S1@ == r0, out_s@.len() == i_s, r0.len() == length,
   forall|k: int| 0 <= k < i_s ==> #[trigger] out_s@[k] == had(expo(rev(xs), nn), r0)[k],
decreases n_s - i_s
@at before_loop s
proof { sw_all(xs, nn, $S0@); sw_all(xis, nn, s_invs@); }
@at let s #2
proof { assert(s@ =~= had(expo(rev(xs), nn), r0)); had_msm(a0, expo(rev(xs), nn), r0); }
@at fn_end
proof {
   if sipp_valid(a, b, r, claimed_value) && claimed_value.dl() == dot(had(a0, r0), b0) && (forall|n: nat| #[trigger] pow2(n) == a@.len() ==> proof.st() == ssteps(sd, sv0(a, b, r), n)) {
      assert(pow2(nn) == a@.len());
      sipp_honest(sd, a0, b0, r0, nn);
   }
}
@end
