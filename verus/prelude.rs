// ---------------------------------------------------------------------------------------------
// Prelude: the dependency contracts (ark-ff, ark-ec, ark-poly, ark-std, rayon, digest) and the
// ghost vocabulary.  Everything marked external_body / axiom / uninterp here is an assumption
// about a dependency; the driver counts and lists all of them in the evidence (trusted_base).
// ---------------------------------------------------------------------------------------------

global size_of usize == 8;

// ---- scalar field ---------------------------------------------------------------------------
#[verifier::external_body]
#[derive(Copy)]
pub struct Fr { x: u64 }

impl Fr {
    pub uninterp spec fn spec_add(self, o: Fr) -> Fr;
    pub uninterp spec fn spec_mul(self, o: Fr) -> Fr;
    pub uninterp spec fn spec_neg(self) -> Fr;
    pub open spec fn spec_sub(self, o: Fr) -> Fr { self.spec_add(o.spec_neg()) }
}
pub uninterp spec fn f0() -> Fr;
pub uninterp spec fn f1() -> Fr;
pub uninterp spec fn finv(a: Fr) -> Fr;

pub broadcast axiom fn ax_add_comm(a: Fr, b: Fr) ensures #[trigger] (a + b) == b + a;
pub broadcast axiom fn ax_add_assoc(a: Fr, b: Fr, c: Fr) ensures #[trigger] ((a + b) + c) == a + (b + c);
pub broadcast axiom fn ax_mul_comm(a: Fr, b: Fr) ensures #[trigger] (a * b) == b * a;
pub broadcast axiom fn ax_mul_assoc(a: Fr, b: Fr, c: Fr) ensures #[trigger] ((a * b) * c) == a * (b * c);
pub broadcast axiom fn ax_dist(a: Fr, b: Fr, c: Fr) ensures #[trigger] (a * (b + c)) == a * b + a * c;
pub broadcast axiom fn ax_add_zero(a: Fr) ensures #[trigger] (a + f0()) == a;
pub broadcast axiom fn ax_mul_one(a: Fr) ensures #[trigger] (a * f1()) == a;
pub broadcast axiom fn ax_neg(a: Fr) ensures (a + #[trigger] (-a)) == f0();
pub axiom fn ax_one_ne_zero() ensures f0() != f1();
pub axiom fn ax_inv(a: Fr) requires a != f0() ensures a * finv(a) == f1();

pub broadcast group addac { ax_add_comm, ax_add_assoc }
pub broadcast group mulac { ax_mul_comm, ax_mul_assoc }

impl Clone for Fr { #[verifier::external_body] fn clone(&self) -> (r: Fr) ensures r == *self { unimplemented!() } }
impl PartialEq for Fr { #[verifier::external_body] fn eq(&self, o: &Fr) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Fr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fr) -> bool { *self == *o }
}
impl Fr {
    #[verifier::external_body] pub fn zero() -> (r: Fr) ensures r == f0() { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: Fr) ensures r == f1() { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (*self == f0()) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (*self == f1()) { unimplemented!() }
    #[verifier::external_body] pub fn inverse(&self) -> (r: Option<Fr>)
        ensures r.is_some() == (*self != f0()), r.is_some() ==> r->Some_0 == finv(*self) { unimplemented!() }
    #[verifier::external_body] pub fn square(&self) -> (r: Fr) ensures r == *self * *self { unimplemented!() }
    #[verifier::external_body] pub fn vp_double(&self) -> (r: Fr) ensures r == *self + *self { unimplemented!() }
    #[verifier::external_body] pub fn square_in_place(&mut self) ensures *final(self) == *old(self) * *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn vp_pow<E: Limbs>(&self, e: E) -> (r: Fr) ensures e.limbs().len() == 1 ==> r == fpow(*self, e.limbs()[0] as nat) { unimplemented!() }
    #[verifier::external_body] pub fn modulus_bit_size() -> (r: u32) ensures r as usize == Fr::bits() { unimplemented!() }
    #[verifier::external_body] pub fn rand<R: Rng>(rng: &mut R) -> (r: Fr)
        ensures r == draw(old(rng).state(), 0), final(rng).state() == adv(old(rng).state()) { unimplemented!() }
    #[verifier::external_body] pub fn from_random_bytes<B: ByteSeq>(b: B) -> (r: Option<Fr>) ensures r == frb(b.bseq()) { unimplemented!() }
}
pub uninterp spec fn frb(b: Seq<u8>) -> Option<Fr>;
pub uninterp spec fn fr_u128(x: u128) -> Fr;

// ---- ghost vectors over the field -----------------------------------------------------------
pub open spec fn fpow(a: Fr, n: nat) -> Fr decreases n {
    if n == 0 { f1() } else { fpow(a, (n - 1) as nat) * a }
}
pub open spec fn get(s: Seq<Fr>, i: int) -> Fr { if 0 <= i < s.len() { s[i] } else { f0() } }
pub open spec fn padd(a: Seq<Fr>, b: Seq<Fr>) -> Seq<Fr> {
    Seq::new(if a.len() >= b.len() { a.len() } else { b.len() }, |i: int| get(a, i) + get(b, i))
}
pub open spec fn pscale(a: Seq<Fr>, c: Fr) -> Seq<Fr> { Seq::new(a.len(), |i: int| a[i] * c) }
pub open spec fn sumr(f: spec_fn(int) -> Fr, lo: int, hi: int) -> Fr decreases hi - lo {
    if hi <= lo { f0() } else { sumr(f, lo, hi - 1) + f(hi - 1) }
}
pub open spec fn prods(a: Seq<Fr>, b: Seq<Fr>) -> spec_fn(int) -> Fr { |i: int| get(a, i) * get(b, i) }
/// inner product of two ghost vectors
pub open spec fn dot(a: Seq<Fr>, b: Seq<Fr>) -> Fr { sumr(prods(a, b), 0, a.len() as int) }
pub open spec fn is_pow2(n: int) -> bool { exists|k: nat| n == #[trigger] pow2(k) }
pub open spec fn powers(b: Fr, n: nat) -> Seq<Fr> { Seq::new(n, |i: int| fpow(b, i as nat)) }

// ---- elements of commitments, keys and messages ---------------------------------------------
/// A value with a ghost discrete logarithm (relative to the generator of its group).
pub trait HasDl: Sized { spec fn dl(&self) -> Fr; }
pub open spec fn dls<T: HasDl>(s: Seq<T>) -> Seq<Fr> { Seq::new(s.len(), |i: int| s[i].dl()) }
pub broadcast proof fn dls_fr(s: Seq<Fr>) ensures #[trigger] dls(s) == s { assert(dls(s) =~= s); }

pub trait ByteSeq: Sized { spec fn bseq(&self) -> Seq<u8>; }
impl<'a> ByteSeq for &'a Vec<u8> { open spec fn bseq(&self) -> Seq<u8> { (**self)@ } }
impl ByteSeq for Vec<u8> { open spec fn bseq(&self) -> Seq<u8> { self@ } }
impl<'a> ByteSeq for &'a [u8] { open spec fn bseq(&self) -> Seq<u8> { (**self)@ } }
impl<'a, 'b> ByteSeq for &'a &'b [u8] { open spec fn bseq(&self) -> Seq<u8> { (***self)@ } }
impl<'a> ByteSeq for &'a DigestOut { open spec fn bseq(&self) -> Seq<u8> { (**self).bytes() } }
impl ByteSeq for DigestOut { open spec fn bseq(&self) -> Seq<u8> { self.bytes() } }

pub trait Ser: Sized {
    spec fn sbytes(&self) -> Seq<u8>;
    spec fn cbytes(&self) -> Seq<u8>;
    fn serialize_uncompressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>)
        ensures r.is_ok(), final(w)@ == old(w)@ + self.sbytes();
    fn serialize_compressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>)
        ensures r.is_ok(), final(w)@ == old(w)@ + self.cbytes();
}

/// serialization of a vector is a function of its length and of the bytes of its elements, that of a tuple the concatenation
pub uninterp spec fn ser_len(n: nat) -> Seq<u8>;
pub open spec fn flat<T: Ser>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last().sbytes() } }
pub open spec fn flatc<T: Ser>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flatc(s.drop_last()) + s.last().cbytes() } }
impl<'a, T: Ser> Ser for &'a [T] {
    open spec fn sbytes(&self) -> Seq<u8> { ser_len((**self)@.len()) + flat((**self)@) }
    open spec fn cbytes(&self) -> Seq<u8> { ser_len((**self)@.len()) + flatc((**self)@) }
    #[verifier::external_body] fn serialize_uncompressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn serialize_compressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
}
impl<A: Ser, B: Ser> Ser for (A, B) {
    open spec fn sbytes(&self) -> Seq<u8> { self.0.sbytes() + self.1.sbytes() }
    open spec fn cbytes(&self) -> Seq<u8> { self.0.cbytes() + self.1.cbytes() }
    #[verifier::external_body] fn serialize_uncompressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn serialize_compressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
}
impl<A: Ser, B: Ser, C: Ser, D: Ser> Ser for (A, B, C, D) {
    open spec fn sbytes(&self) -> Seq<u8> { self.0.sbytes() + self.1.sbytes() + self.2.sbytes() + self.3.sbytes() }
    open spec fn cbytes(&self) -> Seq<u8> { self.0.cbytes() + self.1.cbytes() + self.2.cbytes() + self.3.cbytes() }
    #[verifier::external_body] fn serialize_uncompressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn serialize_compressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
}

/// Group-like values: a ghost vector of field elements with exact addition, scaling, equality.
pub trait Elem: Sized + Clone + PartialEq + Ser + Add<Self, Output = Self> + MulAssign<Fr> + VDefault {
    spec fn vw(&self) -> Seq<Fr>;
    spec fn ser_of(v: Seq<Fr>) -> Seq<u8>;
    proof fn laws()
        ensures
            <Self as AddSpec<Self>>::obeys_add_spec(),
            forall|a: Self, b: Self| #[trigger] AddSpec::add_req(a, b),
            forall|a: Self, b: Self| (#[trigger] AddSpec::add_spec(a, b)).vw() == padd(a.vw(), b.vw()),
            forall|a: Self, b: Self| #[trigger] call_ensures(<Self as Clone>::clone, (&a,), b) ==> a == b,
            <Self as MulAssignSpec<Fr>>::obeys_mul_assign_spec(),
            forall|a: &Self, b: Fr| #[trigger] MulAssignSpec::mul_assign_req(a, b),
            forall|a: &Self, b: Fr| (#[trigger] MulAssignSpec::mul_assign_spec(a, b)).vw() == pscale(a.vw(), b),
            <Self as PartialEqSpec<Self>>::obeys_eq_spec(),
            forall|a: Self, b: Self| #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a.vw() == b.vw()),
            forall|a: Self| #[trigger] a.sbytes() == Self::ser_of(a.vw());
}
/// One-element values (group elements, scalars, the placeholder).
pub trait Scal: Elem + HasDl {
    proof fn scal_laws()
        ensures
            forall|a: Self| #[trigger] a.vw() == seq![a.dl()],
            forall|a: Self, b: Self| (#[trigger] AddSpec::add_spec(a, b)).dl() == a.dl() + b.dl(),
            forall|a: &Self, b: Fr| (#[trigger] MulAssignSpec::mul_assign_spec(a, b)).dl() == a.dl() * b;
}

// ---- random generators: a ghost tape --------------------------------------------------------
pub struct RngState { pub id: Seq<u8>, pub pos: nat }
pub uninterp spec fn draw(s: RngState, kind: int) -> Fr;
pub open spec fn adv(s: RngState) -> RngState { RngState { id: s.id, pos: s.pos + 1 } }
pub open spec fn advn(s: RngState, n: nat) -> RngState { RngState { id: s.id, pos: s.pos + n } }
pub trait Rng: Sized {
    spec fn state(&self) -> RngState;
}

/// generators used through rand::RngCore; `frame` is whatever drawing leaves alone
pub trait RngCore: Sized {
    spec fn state(&self) -> RngState;
    spec fn frame(&self) -> Seq<u8>;
    fn next_u32(&mut self) -> (res: u32)
        ensures res == draw32(old(self).state()), final(self).state() == adv(old(self).state()), final(self).frame() == old(self).frame(); //#C22
    fn next_u64(&mut self) -> (res: u64)
        ensures res == draw64(old(self).state()), final(self).state() == adv(old(self).state()), final(self).frame() == old(self).frame(); //#C22
    fn fill_bytes(&mut self, dest: &mut [u8])
        ensures final(dest)@ == draw_bytes(old(self).state(), old(dest)@.len()), final(self).state() == adv(old(self).state()), final(self).frame() == old(self).frame(); //#C22
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> (res: Result<(), Error>)
        ensures res.is_ok(), final(dest)@ == draw_bytes(old(self).state(), old(dest)@.len()), final(self).state() == adv(old(self).state()), final(self).frame() == old(self).frame(); //#C22
}
pub uninterp spec fn draw32(s: RngState) -> u32;
pub uninterp spec fn draw64(s: RngState) -> u64;
pub uninterp spec fn draw_bytes(s: RngState, n: nat) -> Seq<u8>;
/// rand's `u128::rand`: a function of the generator's state, which it advances
pub uninterp spec fn draw_u128(s: RngState) -> u128;
pub uninterp spec fn adv_u128(s: RngState) -> RngState;
#[verifier::external_body] pub fn vp_u128_rand<R: RngCore>(rng: &mut R) -> (r: u128)
    ensures r == draw_u128(old(rng).state()), final(rng).state() == adv_u128(old(rng).state()), final(rng).frame() == old(rng).frame() { unimplemented!() }
#[verifier::external_body] pub struct ChaChaRng { x: u64 }
pub struct ChaSeed { pub d: DigestOut }
impl VpFrom<DigestOut> for ChaSeed { open spec fn from_rel(t: DigestOut, r: Self) -> bool { r.d == t } fn vp_from(t: DigestOut) -> (r: Self) { ChaSeed { d: t } } }
impl ChaChaRng {
    #[verifier::external_body] pub fn from_seed(s: ChaSeed) -> (r: ChaChaRng) ensures r.state() == (RngState { id: s.d.bytes(), pos: 0 }) { unimplemented!() }
}
impl RngCore for ChaChaRng {
    uninterp spec fn state(&self) -> RngState;
    open spec fn frame(&self) -> Seq<u8> { Seq::empty() }
    #[verifier::external_body] fn next_u32(&mut self) -> (res: u32) { unimplemented!() }
    #[verifier::external_body] fn next_u64(&mut self) -> (res: u64) { unimplemented!() }
    #[verifier::external_body] fn fill_bytes(&mut self, dest: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn try_fill_bytes(&mut self, dest: &mut [u8]) -> (res: Result<(), Error>) { unimplemented!() }
}

/// a vector of field elements takes at most isize::MAX bytes
pub axiom fn ax_vec_fr_len(v: Vec<Fr>) ensures v@.len() < isize::MAX;

// ---- digest ---------------------------------------------------------------------------------
#[verifier::external_body]
#[derive(Copy)]
pub struct DigestOut { x: u64 }
impl Clone for DigestOut { #[verifier::external_body] fn clone(&self) -> (r: DigestOut) ensures r == *self { unimplemented!() } }
pub uninterp spec fn hash(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn be128(b: Seq<u8>) -> u128;
pub uninterp spec fn be8(n: usize) -> Seq<u8>;
impl DigestOut {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
}
/// digests with at least 16 bytes of output (the transcript takes the first 16)
pub broadcast axiom fn ax_hash_len(b: Seq<u8>) ensures (#[trigger] hash(b)).len() >= 32;
pub struct Dig { }
impl Dig {
    #[verifier::external_body] pub fn digest<B: ByteSeq>(b: B) -> (r: DigestOut) ensures r.bytes() == hash(b.bseq()) { unimplemented!() }
}
#[verifier::external_body] pub fn u128_from_be(b: &[u8]) -> (r: u128) requires b@.len() == 16 ensures r == be128(b@) { unimplemented!() }

// ---- errors, panics -------------------------------------------------------------------------
pub struct Error { }
pub fn mk_err() -> Error { Error { } }
pub struct VStr { }
pub fn mk_string() -> VStr { VStr { } }
#[verifier::external_body] pub fn rt_assert(b: bool, valid: Ghost<bool>) requires valid@ ==> b ensures b { if !b { panic!() } }
#[verifier::external_body] pub fn vp_diverge(valid: Ghost<bool>) -> ! requires !valid@ { panic!() }
pub trait VpUnwrap<T>: Sized {
    spec fn uw(self) -> Option<T>;
    fn vp_unwrap(self, valid: Ghost<bool>) -> (r: T) requires valid@ ==> self.uw().is_some() ensures self.uw() == Some(r);
}
impl<T> VpUnwrap<T> for Option<T> {
    open spec fn uw(self) -> Option<T> { self }
    #[verifier::external_body] fn vp_unwrap(self, valid: Ghost<bool>) -> (r: T) { self.unwrap() }
}
impl<T, E> VpUnwrap<T> for Result<T, E> {
    open spec fn uw(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body] fn vp_unwrap(self, valid: Ghost<bool>) -> (r: T) { unimplemented!() }
}

/// exponents, little-endian 64-bit limbs
pub trait Limbs { spec fn limbs(&self) -> Seq<u64>; }
impl Limbs for [u64; 1] { open spec fn limbs(&self) -> Seq<u64> { self@ } }
impl Limbs for Vec<u64> { open spec fn limbs(&self) -> Seq<u64> { self@ } }
impl Limbs for [u64] { open spec fn limbs(&self) -> Seq<u64> { self@ } }
impl<'a, T: Limbs + ?Sized> Limbs for &'a T { open spec fn limbs(&self) -> Seq<u64> { (**self).limbs() } }

// ---- slices and vectors ---------------------------------------------------------------------
pub trait AsSl<T> { fn as_sl(&self) -> (r: &[T]) ensures r@ == self.slv(); spec fn slv(&self) -> Seq<T>; }
impl<T> AsSl<T> for Vec<T> { open spec fn slv(&self) -> Seq<T> { self@ } fn as_sl(&self) -> (r: &[T]) { let r = self.as_slice(); assert(r@ == self@); assert(self.slv() == self@); r } }
impl<T> AsSl<T> for [T] { open spec fn slv(&self) -> Seq<T> { self@ } fn as_sl(&self) -> (r: &[T]) { let r: &[T] = self; assert(r@ == self@); assert(self.slv() == self@); r } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn sat_sub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
pub fn range_len(a: usize, b: usize) -> (r: usize) ensures r == if b >= a { b - a } else { 0 } { if b >= a { b - a } else { 0 } }
pub open spec fn ceil_div(n: int, k: int) -> int { if n <= 0 { 0 } else { (n - 1) / k + 1 } }
pub fn chunk_count(n: usize, k: usize) -> (r: usize) requires k > 0 ensures r == ceil_div(n as int, k as int), n > 0 ==> (r - 1) * k < n <= r * k, n == 0 ==> r == 0 {
    if n == 0 { 0 } else {
        proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n - 1, k as int);
                let q = (n - 1) / (k as int); assert(q * k == k * q) by (nonlinear_arith); assert((q + 1) * k == q * k + k) by (nonlinear_arith);
                assert(q <= n - 1) by (nonlinear_arith) requires q * k <= n - 1, k >= 1, n >= 1; }
        (n - 1) / k + 1 } }
pub fn step_count(n: usize, k: usize) -> (r: usize) requires k > 0 ensures r == ceil_div(n as int, k as int), n > 0 ==> (r - 1) * k < n <= r * k, n == 0 ==> r == 0 { chunk_count(n, k) }
#[verifier::external_body] pub fn chunk_at<T>(s: &[T], k: usize, i: usize) -> (r: &[T])
    requires k > 0, i * k < s@.len()
    ensures r@ == s@.subrange(i * k, if (i + 1) * k <= s@.len() { (i + 1) * k } else { s@.len() as int }) { unimplemented!() }
pub open spec fn il_first(n: int, m: int, i: int) -> bool { if m <= n { i >= 2 * m || i % 2 == 0 } else { i < 2 * n && i % 2 == 0 } }
pub open spec fn il_pos(n: int, m: int, i: int) -> int { let k = if n <= m { n } else { m }; if i < 2 * k { i / 2 } else { i - k } }
pub fn interleave_first(n: usize, m: usize, i: usize) -> (r: bool) requires m <= usize::MAX / 2, n <= usize::MAX / 2 ensures r == il_first(n as int, m as int, i as int) {
    if m <= n { i >= 2 * m || i % 2 == 0 } else { i < 2 * n && i % 2 == 0 } }
pub fn interleave_pos(n: usize, m: usize, i: usize) -> (r: usize) requires n <= usize::MAX / 2, m <= usize::MAX / 2 ensures r == il_pos(n as int, m as int, i as int) {
    let k = if n <= m { n } else { m }; if i < 2 * k { i / 2 } else { i - k } }
#[verifier::external_body] pub fn vec_of<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }

pub trait SeqLike<T> { spec fn sq(&self) -> Seq<T>; }
impl<T> SeqLike<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ } }
impl<T> SeqLike<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ } }
impl<'a, T> SeqLike<T> for &'a [T] { open spec fn sq(&self) -> Seq<T> { (**self)@ } }
impl SeqLike<u8> for DigestOut { open spec fn sq(&self) -> Seq<u8> { self.bytes() } }
/// ark-std/alloc `Vec` operations (contents only)
pub trait VpVec<T>: Sized {
    spec fn vv(&self) -> Seq<T>;
    fn vp_extend_from_slice<S: SeqLike<T> + ?Sized>(&mut self, s: &S) ensures final(self).vv() == old(self).vv() + s.sq();
    fn vp_reverse(&mut self) ensures final(self).vv() == old(self).vv().reverse();
    fn vp_resize(&mut self, n: usize, x: T) ensures final(self).vv() == Seq::new(n as nat, |i: int| if i < old(self).vv().len() { old(self).vv()[i] } else { x });
    fn vp_truncate(&mut self, n: usize) ensures final(self).vv() == if n < old(self).vv().len() { old(self).vv().subrange(0, n as int) } else { old(self).vv() };
    fn vp_swap(&mut self, i: usize, j: usize) requires i < old(self).vv().len(), j < old(self).vv().len()
        ensures final(self).vv() == old(self).vv().update(i as int, old(self).vv()[j as int]).update(j as int, old(self).vv()[i as int]);
}
impl<T> VpVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_extend_from_slice<S: SeqLike<T> + ?Sized>(&mut self, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vp_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vp_resize(&mut self, n: usize, x: T) { unimplemented!() }
    #[verifier::external_body] fn vp_truncate(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn vp_swap(&mut self, i: usize, j: usize) { unimplemented!() }
}
pub trait VpSlice<T> {
    spec fn sv(&self) -> Seq<T>;
    fn vp_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.sv();
    fn vp_last(&self) -> (r: Option<&T>) ensures r.is_some() == (self.sv().len() > 0), r.is_some() ==> *r->Some_0 == self.sv()[self.sv().len() - 1];
    fn vp_first(&self) -> (r: Option<&T>) ensures r.is_some() == (self.sv().len() > 0), r.is_some() ==> *r->Some_0 == self.sv()[0];
    fn vp_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
}
impl<T> VpSlice<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vp_last(&self) -> (r: Option<&T>) { self.last() }
    #[verifier::external_body] fn vp_first(&self) -> (r: Option<&T>) { self.first() }
    #[verifier::external_body] fn vp_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<T> VpSlice<T> for [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vp_last(&self) -> (r: Option<&T>) { self.last() }
    #[verifier::external_body] fn vp_first(&self) -> (r: Option<&T>) { self.first() }
    #[verifier::external_body] fn vp_is_empty(&self) -> (r: bool) { unimplemented!() }
}
pub fn vp_band(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vp_bor(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub trait VpOpt<T>: Sized {
    spec fn ov(self) -> Option<T>;
    fn vp_unwrap_or(self, d: T) -> (r: T) ensures r == match self.ov() { Some(v) => v, None => d };
}
impl<T> VpOpt<T> for Option<T> {
    open spec fn ov(self) -> Option<T> { self }
    fn vp_unwrap_or(self, d: T) -> (r: T) { match self { Some(v) => v, None => d } }
}
impl<T, E> VpOpt<T> for Result<T, E> {
    open spec fn ov(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn vp_unwrap_or(self, d: T) -> (r: T) { match self { Ok(v) => v, Err(_) => d } }
}
pub trait VDefault: Sized { spec fn vdef() -> Self; fn vdefault() -> (r: Self) ensures r == Self::vdef(); }
impl VDefault for Fr { open spec fn vdef() -> Fr { f0() } #[verifier::external_body] fn vdefault() -> (r: Fr) { unimplemented!() } }

// ---- integers -------------------------------------------------------------------------------
pub uninterp spec fn popcount(n: usize) -> u32;
pub uninterp spec fn le8(n: usize) -> Seq<u8>;
pub uninterp spec fn tzeros(n: usize) -> u32;
pub uninterp spec fn lzeros(n: usize) -> u32;
pub trait VpUsize: Sized {
    spec fn uz(self) -> usize;
    fn vp_count_ones(self) -> (r: u32) ensures (r == 1) == is_pow2(self.uz() as int), r == popcount(self.uz()), r == 1 ==> self.uz() >= 1;
    fn vp_is_power_of_two(self) -> (r: bool) ensures r == is_pow2(self.uz() as int), r ==> self.uz() >= 1;
    fn vp_trailing_zeros(self) -> (r: u32) ensures is_pow2(self.uz() as int) ==> self.uz() == pow2(r as nat), r == tzeros(self.uz()), r <= 64;
    fn vp_leading_zeros(self) -> (r: u32) ensures is_pow2(self.uz() as int) ==> r <= 63 && self.uz() == pow2((63 - r) as nat), r == lzeros(self.uz());
    fn vp_next_power_of_two(self) -> (r: usize) requires self.uz() <= pow2(63) ensures is_pow2(r as int), r >= self.uz(), forall|m: int| is_pow2(m) && m >= self.uz() ==> m >= r;
    fn vp_pow(self, e: u32) -> (r: usize) requires vstd::arithmetic::power::pow(self.uz() as int, e as nat) <= usize::MAX ensures r == vstd::arithmetic::power::pow(self.uz() as int, e as nat);
    fn vp_to_be_bytes(self) -> (r: Vec<u8>) ensures r@ == be8(self.uz());
    fn vp_to_le_bytes(self) -> (r: Vec<u8>) ensures r@ == le8(self.uz()), r@.len() == 8;
    fn vp_ilog2(self) -> (r: u32) requires self.uz() > 0 ensures r < 64, pow2(r as nat) <= self.uz() < pow2((r + 1) as nat);
    fn vp_abs_diff(self, o: usize) -> (r: usize) ensures r == if self.uz() >= o { self.uz() - o } else { o - self.uz() };
    fn vp_min(self, o: usize) -> (r: usize) ensures r == if self.uz() <= o { self.uz() } else { o };
    fn vp_max(self, o: usize) -> (r: usize) ensures r == if self.uz() >= o { self.uz() } else { o };
}
impl VpUsize for usize {
    open spec fn uz(self) -> usize { self }
    #[verifier::external_body] fn vp_count_ones(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vp_is_power_of_two(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_trailing_zeros(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vp_leading_zeros(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vp_next_power_of_two(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vp_pow(self, e: u32) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vp_to_be_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn vp_to_le_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn vp_ilog2(self) -> (r: u32) { unimplemented!() }
    fn vp_abs_diff(self, o: usize) -> (r: usize) { if self >= o { self - o } else { o - self } }
    fn vp_min(self, o: usize) -> (r: usize) { if self <= o { self } else { o } }
    fn vp_max(self, o: usize) -> (r: usize) { if self >= o { self } else { o } }
}
/// `(x as f64).sqrt().ceil() as usize`: assumed exact ceiling of the square root for x < 2^52
#[verifier::external_body] pub fn vp_ceil_sqrt(x: usize) -> (r: usize)
    ensures x < pow2(52) ==> is_csqrt(x as int, r as int) { unimplemented!() }
/// the same in single precision: exact up to 2^24
#[verifier::external_body] pub fn vp_ceil_sqrt_single(x: usize) -> (r: usize)
    ensures x <= pow2(24) ==> is_csqrt(x as int, r as int) { unimplemented!() }
pub open spec fn is_csqrt(x: int, r: int) -> bool { r * r >= x && (r > 0 ==> (r - 1) * (r - 1) < x) && (x > 0 ==> r > 0) }
/// `f32::log2(n as f32)`: assumed exact for powers of two
#[verifier::external_body] pub fn vp_log2(n: usize) -> (r: usize) requires is_pow2(n as int) ensures pow2(r as nat) == n, r < 64, forall|p: nat| #[trigger] pow2(p) == n ==> p == r { unimplemented!() }
#[verifier::external_body] pub fn current_num_threads() -> (r: usize) ensures r >= 1 { unimplemented!() }

// ---- sums and products of iterators ---------------------------------------------------------
pub trait SumT: Sized { spec fn s_zero() -> Self; spec fn s_add(self, o: Self) -> Self; }
impl SumT for Fr { open spec fn s_zero() -> Fr { f0() } open spec fn s_add(self, o: Fr) -> Fr { self + o } }
impl SumT for G1 { open spec fn s_zero() -> G1 { of_dl_G1(f0()) } open spec fn s_add(self, o: G1) -> G1 { of_dl_G1(self.dl() + o.dl()) } }
impl SumT for G2 { open spec fn s_zero() -> G2 { of_dl_G2(f0()) } open spec fn s_add(self, o: G2) -> G2 { of_dl_G2(self.dl() + o.dl()) } }
impl SumT for GT { open spec fn s_zero() -> GT { of_dl_GT(f0()) } open spec fn s_add(self, o: GT) -> GT { of_dl_GT(self.dl() + o.dl()) } }
#[verifier::external_body] pub fn sum_zero<T: SumT>() -> (r: T) ensures r == T::s_zero() { unimplemented!() }
#[verifier::external_body] pub fn sum_step<T: SumT>(a: T, x: &T) -> (r: T) ensures r == a.s_add(*x) { unimplemented!() }
pub trait ProdT: Sized { spec fn p_one() -> Self; spec fn p_mul(self, o: Self) -> Self; }
impl ProdT for Fr { open spec fn p_one() -> Fr { f1() } open spec fn p_mul(self, o: Fr) -> Fr { self * o } }
impl ProdT for TargetField { open spec fn p_one() -> TargetField { of_tl(f0()) } open spec fn p_mul(self, o: TargetField) -> TargetField { of_tl(self.tl() + o.tl()) } }
#[verifier::external_body] pub fn prod_one<T: ProdT>() -> (r: T) ensures r == T::p_one() { unimplemented!() }
#[verifier::external_body] pub fn prod_step<T: ProdT>(a: T, x: &T) -> (r: T) ensures r == a.p_mul(*x) { unimplemented!() }

// ---- conversions ----------------------------------------------------------------------------
pub trait VpFrom<T>: Sized { spec fn from_rel(t: T, r: Self) -> bool; fn vp_from(t: T) -> (r: Self) ensures Self::from_rel(t, r); }
pub trait VpInto<U>: Sized { spec fn into_rel(self, r: U) -> bool; fn vp_into(self) -> (r: U) ensures self.into_rel(r); }
impl<T, U: VpFrom<T>> VpInto<U> for T {
    open spec fn into_rel(self, r: U) -> bool { U::from_rel(self, r) }
    fn vp_into(self) -> (r: U) { U::vp_from(self) }
}
impl VpFrom<u64> for Fr { open spec fn from_rel(t: u64, r: Fr) -> bool { r == fr_u128(t as u128) } #[verifier::external_body] fn vp_from(t: u64) -> (r: Fr) { unimplemented!() } }
impl VpFrom<u32> for Fr { open spec fn from_rel(t: u32, r: Fr) -> bool { r == fr_u128(t as u128) } #[verifier::external_body] fn vp_from(t: u32) -> (r: Fr) { unimplemented!() } }
impl VpFrom<u16> for Fr { open spec fn from_rel(t: u16, r: Fr) -> bool { r == fr_u128(t as u128) } #[verifier::external_body] fn vp_from(t: u16) -> (r: Fr) { unimplemented!() } }
impl VpFrom<u8> for Fr { open spec fn from_rel(t: u8, r: Fr) -> bool { r == fr_u128(t as u128) } #[verifier::external_body] fn vp_from(t: u8) -> (r: Fr) { unimplemented!() } }
impl VpFrom<i32> for Fr { open spec fn from_rel(t: i32, r: Fr) -> bool { t >= 0 ==> r == fr_u128(t as u128) } #[verifier::external_body] fn vp_from(t: i32) -> (r: Fr) { unimplemented!() } }
impl VpFrom<u128> for Fr { open spec fn from_rel(t: u128, r: Fr) -> bool { r == fr_u128(t) } #[verifier::external_body] fn vp_from(t: u128) -> (r: Fr) { unimplemented!() } }

// ---- the rest of the group vocabulary is generated per type (see groups() in the driver) ------
// ---- cloning tuples, component by component ---------------------------------------------------
pub fn vp_clone2<A: Clone, B: Clone>(x: &(A, B)) -> (r: (A, B)) ensures call_ensures(A::clone, (&x.0,), r.0), call_ensures(B::clone, (&x.1,), r.1) { (x.0.clone(), x.1.clone()) }
pub fn vp_clone3<A: Clone, B: Clone, C: Clone>(x: &(A, B, C)) -> (r: (A, B, C)) ensures call_ensures(A::clone, (&x.0,), r.0), call_ensures(B::clone, (&x.1,), r.1), call_ensures(C::clone, (&x.2,), r.2) { (x.0.clone(), x.1.clone(), x.2.clone()) }
// ---- copies of proofs: `clone` of the hand-written Clone instances -----------------------------
pub trait VpClone: Sized {
    /// the two values have the same content
    spec fn same(&self, o: &Self) -> bool;
    fn vp_clone(&self) -> (r: Self) ensures self.same(&r);
}
impl<T: Elem> VpClone for T {
    open spec fn same(&self, o: &T) -> bool { *self == *o }
    fn vp_clone(&self) -> (r: T) { proof { T::laws(); } self.clone() }
}
impl<A: VpClone, B: VpClone> VpClone for (A, B) {
    open spec fn same(&self, o: &(A, B)) -> bool { self.0.same(&o.0) && self.1.same(&o.1) }
    fn vp_clone(&self) -> (r: (A, B)) { (self.0.vp_clone(), self.1.vp_clone()) }
}
impl<A: VpClone, B: VpClone, C: VpClone> VpClone for (A, B, C) {
    open spec fn same(&self, o: &(A, B, C)) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) }
    fn vp_clone(&self) -> (r: (A, B, C)) { (self.0.vp_clone(), self.1.vp_clone(), self.2.vp_clone()) }
}
impl<T: VpClone> VpClone for Vec<T> {
    open spec fn same(&self, o: &Vec<T>) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).same(&o@[i]) }
    fn vp_clone(&self) -> (r: Vec<T>) {
        let mut out: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), out@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] self@[k]).same(&out@[k]),
            decreases self@.len() - i
        { out.push(self[i].vp_clone()); i = i + 1; }
        out
    }
}
#[verifier::external_body] pub fn vp_any<T>() -> T { unimplemented!() }
