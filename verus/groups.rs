// ---- curve groups, affine points, pairings ---------------------------------------------------
impl HasDl for Fr { open spec fn dl(&self) -> Fr { *self } }
pub uninterp spec fn ser_Fr(d: Fr) -> Seq<u8>;
pub uninterp spec fn serc_Fr(d: Fr) -> Seq<u8>;
impl Ser for Fr {
    open spec fn sbytes(&self) -> Seq<u8> { ser_Fr(*self) }
    open spec fn cbytes(&self) -> Seq<u8> { serc_Fr(*self) }
    #[verifier::external_body] fn serialize_uncompressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn serialize_compressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
}
impl<'a, T: HasDl> HasDl for &'a T { open spec fn dl(&self) -> Fr { (**self).dl() } }

pub broadcast proof fn scal_vw<T: Scal>(a: T) ensures #[trigger] a.vw() == seq![a.dl()] { T::scal_laws(); }
pub trait CurveGroup: Scal + Copy {
    type Affine: HasDl + Copy;
    fn normalize_batch(v: &[Self]) -> (r: Vec<Self::Affine>) ensures r@.len() == v@.len(), dls(r@) == dls(v@);
    fn msm(b: &[Self::Affine], s: &[Fr]) -> (r: Result<Self, usize>)
        ensures r.is_ok() == (b@.len() == s@.len()), r.is_ok() ==> r->Ok_0.dl() == dot(dls(b@), s@);
    fn msm_unchecked(b: &[Self::Affine], s: &[Fr]) -> (r: Self)
        ensures b@.len() == s@.len() ==> r.dl() == dot(dls(b@), s@);
    fn generator() -> (r: Self) ensures r.dl() == f1();
    fn into_affine(self) -> (r: Self::Affine) ensures r.dl() == self.dl();
    fn rand<R: Rng>(rng: &mut R) -> (r: Self) ensures r.dl() == draw(old(rng).state(), 0), final(rng).state() == adv(old(rng).state());
}
impl CurveGroup for G1 {
    type Affine = G1Affine;
    #[verifier::external_body] fn normalize_batch(v: &[Self]) -> (r: Vec<G1Affine>) { unimplemented!() }
    #[verifier::external_body] fn msm(b: &[G1Affine], s: &[Fr]) -> (r: Result<Self, usize>) { unimplemented!() }
    #[verifier::external_body] fn msm_unchecked(b: &[G1Affine], s: &[Fr]) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn generator() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn into_affine(self) -> (r: G1Affine) { unimplemented!() }
    #[verifier::external_body] fn rand<R: Rng>(rng: &mut R) -> (r: Self) { unimplemented!() }
}
impl CurveGroup for G2 {
    type Affine = G2Affine;
    #[verifier::external_body] fn normalize_batch(v: &[Self]) -> (r: Vec<G2Affine>) { unimplemented!() }
    #[verifier::external_body] fn msm(b: &[G2Affine], s: &[Fr]) -> (r: Result<Self, usize>) { unimplemented!() }
    #[verifier::external_body] fn msm_unchecked(b: &[G2Affine], s: &[Fr]) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn generator() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn into_affine(self) -> (r: G2Affine) { unimplemented!() }
    #[verifier::external_body] fn rand<R: Rng>(rng: &mut R) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body] pub struct G1Prepared { x: u64 }
#[verifier::external_body] pub struct G2Prepared { x: u64 }
impl HasDl for G1Prepared { uninterp spec fn dl(&self) -> Fr; }
impl HasDl for G2Prepared { uninterp spec fn dl(&self) -> Fr; }
impl Clone for G1Prepared { #[verifier::external_body] fn clone(&self) -> (r: G1Prepared) ensures r == *self { unimplemented!() } }
impl Clone for G2Prepared { #[verifier::external_body] fn clone(&self) -> (r: G2Prepared) ensures r == *self { unimplemented!() } }
impl VpFrom<G1> for G1Prepared { open spec fn from_rel(t: G1, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: G1) -> (r: Self) { unimplemented!() } }
impl VpFrom<G2> for G2Prepared { open spec fn from_rel(t: G2, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: G2) -> (r: Self) { unimplemented!() } }
impl VpFrom<G1Affine> for G1Prepared { open spec fn from_rel(t: G1Affine, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: G1Affine) -> (r: Self) { unimplemented!() } }
impl VpFrom<G2Affine> for G2Prepared { open spec fn from_rel(t: G2Affine, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: G2Affine) -> (r: Self) { unimplemented!() } }
impl<'a> VpFrom<&'a G1> for G1Prepared { open spec fn from_rel(t: &'a G1, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: &'a G1) -> (r: Self) { unimplemented!() } }
impl<'a> VpFrom<&'a G2> for G2Prepared { open spec fn from_rel(t: &'a G2, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: &'a G2) -> (r: Self) { unimplemented!() } }
impl<'a> VpFrom<&'a G1Affine> for G1Prepared { open spec fn from_rel(t: &'a G1Affine, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: &'a G1Affine) -> (r: Self) { unimplemented!() } }
impl<'a> VpFrom<&'a G2Affine> for G2Prepared { open spec fn from_rel(t: &'a G2Affine, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: &'a G2Affine) -> (r: Self) { unimplemented!() } }
impl VpFrom<G1Affine> for G1 { open spec fn from_rel(t: G1Affine, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: G1Affine) -> (r: Self) { unimplemented!() } }
impl VpFrom<G2Affine> for G2 { open spec fn from_rel(t: G2Affine, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: G2Affine) -> (r: Self) { unimplemented!() } }
impl VpFrom<G1> for G1Affine { open spec fn from_rel(t: G1, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: G1) -> (r: Self) { unimplemented!() } }
impl VpFrom<G2> for G2Affine { open spec fn from_rel(t: G2, r: Self) -> bool { r.dl() == t.dl() } #[verifier::external_body] fn vp_from(t: G2) -> (r: Self) { unimplemented!() } }
impl G1Affine { #[verifier::external_body] pub fn into_group(self) -> (r: G1) ensures r.dl() == self.dl() { unimplemented!() } }
impl G2Affine { #[verifier::external_body] pub fn into_group(self) -> (r: G2) ensures r.dl() == self.dl() { unimplemented!() } }

#[verifier::external_body]
#[derive(Copy)]
pub struct TargetField { x: u64 }
impl Clone for TargetField { #[verifier::external_body] fn clone(&self) -> (r: TargetField) ensures r == *self { unimplemented!() } }
/// ghost exponent of a Miller loop result: the exponent of its final exponentiation
impl TargetField { pub uninterp spec fn tl(&self) -> Fr;
    #[verifier::external_body] pub fn one() -> (r: TargetField) ensures r.tl() == f0() { unimplemented!() } }
pub uninterp spec fn of_tl(d: Fr) -> TargetField;
pub broadcast axiom fn ax_of_tl(d: Fr) ensures (#[trigger] of_tl(d)).tl() == d;
pub struct MillerLoopOutput(pub TargetField);

pub trait DlVec { spec fn dlv(&self) -> Seq<Fr>; }
impl<T: HasDl> DlVec for Vec<T> { open spec fn dlv(&self) -> Seq<Fr> { dls(self@) } }
impl<'a, T: HasDl> DlVec for &'a Vec<T> { open spec fn dlv(&self) -> Seq<Fr> { dls((**self)@) } }
impl<'a, T: HasDl> DlVec for &'a [T] { open spec fn dlv(&self) -> Seq<Fr> { dls((**self)@) } }
pub struct Pair { }
impl Pair {
    #[verifier::external_body] pub fn pairing<A: HasDl, B: HasDl>(a: A, b: B) -> (r: GT) ensures r.dl() == a.dl() * b.dl() { unimplemented!() }
    #[verifier::external_body] pub fn multi_miller_loop<A: DlVec, B: DlVec>(a: A, b: B) -> (r: MillerLoopOutput)
        requires a.dlv().len() == b.dlv().len() ensures r.0.tl() == dot(a.dlv(), b.dlv()) { unimplemented!() }
    #[verifier::external_body] pub fn multi_pairing<A: DlVec, B: DlVec>(a: A, b: B) -> (r: GT)
        requires a.dlv().len() == b.dlv().len() ensures r.dl() == dot(a.dlv(), b.dlv()) { unimplemented!() }
    /// assumed: the product of Miller loop outputs is never zero, so the exponentiation succeeds
    #[verifier::external_body] pub fn final_exponentiation(m: MillerLoopOutput) -> (r: Option<GT>) ensures r.is_some(), r->Some_0.dl() == m.0.tl() { unimplemented!() }
}
pub struct FixedBase { }
#[verifier::external_body]
#[verifier::reject_recursive_types(G)]
pub struct WindowTable<G> { x: PhantomData<G> }
impl<G> WindowTable<G> {
    pub uninterp spec fn base(&self) -> G;
    pub uninterp spec fn tb(&self) -> usize;
    pub uninterp spec fn tw(&self) -> usize;
}
impl FixedBase {
    #[verifier::external_body] pub fn get_mul_window_size(n: usize) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn get_window_table<G: CurveGroup>(bits: usize, w: usize, g: G) -> (r: WindowTable<G>)
        ensures r.base() == g, r.tb() == bits, r.tw() == w { unimplemented!() }
    #[verifier::external_body] pub fn msm<G: CurveGroup>(bits: usize, w: usize, t: &WindowTable<G>, s: &[Fr]) -> (r: Vec<G>)
        requires t.tb() == bits, t.tw() == w, bits == Fr::bits()
        ensures dls(r@) == pscale(s@, t.base().dl()) { unimplemented!() }
}
impl Fr { pub uninterp spec fn bits() -> usize; }
#[verifier::external_body] pub fn batch_inversion(v: &mut Vec<Fr>)
    ensures final(v)@ == Seq::new(old(v)@.len(), |i: int| if old(v)@[i] == f0() { f0() } else { finv(old(v)@[i]) }) { unimplemented!() }

// ---- univariate polynomials -------------------------------------------------------------------
pub struct Poly { pub coeffs: Vec<Fr> }
pub open spec fn peval(c: Seq<Fr>, x: Fr) -> Fr { dot(c, powers(x, c.len())) }
/// normal form kept by ark-poly: no trailing zero coefficient
pub open spec fn pnorm(c: Seq<Fr>) -> bool { c.len() == 0 || c[c.len() - 1] != f0() }
/// c is s without its trailing zeros
pub open spec fn stripped(s: Seq<Fr>, c: Seq<Fr>) -> bool {
    c.len() <= s.len() && pnorm(c) && (forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == s[i]) && (forall|i: int| c.len() <= i < s.len() ==> #[trigger] s[i] == f0())
}
pub uninterp spec fn poly_add(a: Poly, b: Poly) -> Poly;
pub uninterp spec fn poly_sub(a: Poly, b: Poly) -> Poly;
pub uninterp spec fn poly_div(a: Poly, b: Poly) -> Poly;
pub open spec fn poly_div_ok(b: Poly) -> bool { b.coeffs@.len() > 0 }
pub axiom fn ax_poly_sub(a: Poly, b: Poly)
    requires pnorm(a.coeffs@), pnorm(b.coeffs@)
    ensures pnorm(poly_sub(a, b).coeffs@),
        poly_sub(a, b).coeffs@.len() <= a.coeffs@.len() || poly_sub(a, b).coeffs@.len() <= b.coeffs@.len(),
        forall|x: Fr| #[trigger] peval(poly_sub(a, b).coeffs@, x) == peval(a.coeffs@, x) - peval(b.coeffs@, x);
/// division by X - z (remainder dropped)
pub axiom fn ax_poly_div_linear(a: Poly, b: Poly, z: Fr)
    requires pnorm(a.coeffs@), b.coeffs@ == seq![-z, f1()]
    ensures pnorm(poly_div(a, b).coeffs@),
        poly_div(a, b).coeffs@.len() <= a.coeffs@.len(),
        forall|x: Fr| #[trigger] peval(poly_div(a, b).coeffs@, x) * (x - z) == peval(a.coeffs@, x) - peval(a.coeffs@, z);
impl Poly {
    #[verifier::external_body] pub fn from_coefficients_slice(c: &[Fr]) -> (r: Poly) ensures stripped(c@, r.coeffs@) { unimplemented!() }
    #[verifier::external_body] pub fn from_coefficients_vec(c: Vec<Fr>) -> (r: Poly) ensures stripped(c@, r.coeffs@) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: Poly) ensures r.coeffs@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures pnorm(self.coeffs@) ==> r == (self.coeffs@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn degree(&self) -> (r: usize) requires pnorm(self.coeffs@) ensures r == if self.coeffs@.len() == 0 { 0 } else { self.coeffs@.len() - 1 } { unimplemented!() }
    #[verifier::external_body] pub fn evaluate(&self, x: &Fr) -> (r: Fr) ensures r == peval(self.coeffs@, *x) { unimplemented!() }
}
impl Clone for Poly { #[verifier::external_body] fn clone(&self) -> (r: Poly) ensures r == *self { unimplemented!() } }

// ---- the two traits of /repo (declarations carry the contracts; bodies come from /repo) --------
pub enum CKind { Dot, Zero, Ident }
/// the commitment value as a function of key and message
pub open spec fn com_of(k: CKind, key: Seq<Fr>, m: Seq<Fr>) -> Seq<Fr> {
    match k { CKind::Dot => seq![dot(key, m)], CKind::Zero => seq![f0()], CKind::Ident => m }
}
pub open spec fn com_ok(k: CKind, nk: nat, nm: nat) -> bool { k is Dot ==> nk == nm }
