@ghost ident
impl HasDl for HomomorphicPlaceholderValue { open spec fn dl(&self) -> Fr { f0() } }
impl AddSpecImpl for HomomorphicPlaceholderValue {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Self) -> bool { true }
    open spec fn add_spec(self, o: Self) -> Self { HomomorphicPlaceholderValue { } }
}
impl MulAssignSpecImpl<Fr> for HomomorphicPlaceholderValue {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: Fr) -> bool { true }
    open spec fn mul_assign_spec(&self, o: Fr) -> &Self { &HomomorphicPlaceholderValue { } }
}
impl Ser for HomomorphicPlaceholderValue {
    open spec fn sbytes(&self) -> Seq<u8> { Seq::empty() }
    open spec fn cbytes(&self) -> Seq<u8> { Seq::empty() }
    #[verifier::external_body] fn serialize_uncompressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn serialize_compressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
}
impl VDefault for HomomorphicPlaceholderValue { open spec fn vdef() -> Self { HomomorphicPlaceholderValue { } } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl Elem for HomomorphicPlaceholderValue {
    open spec fn vw(&self) -> Seq<Fr> { seq![f0()] }
    open spec fn ser_of(v: Seq<Fr>) -> Seq<u8> { Seq::empty() }
    proof fn laws() {
        mul_all_zero(); add_z(f0());
        assert(padd(seq![f0()], seq![f0()]) =~= seq![f0()]);
        assert forall|c: Fr| #[trigger] pscale(seq![f0()], c) == seq![f0()] by { assert(pscale(seq![f0()], c) =~= seq![f0()]); }
    }
}
impl Scal for HomomorphicPlaceholderValue { proof fn scal_laws() { mul_all_zero(); add_z(f0()); } }

pub uninterp spec fn ser_ident(v: Seq<Fr>) -> Seq<u8>;
pub open spec fn pad_add<T: Elem>(a: Seq<T>, b: Seq<T>) -> Seq<T> {
    Seq::new(if a.len() >= b.len() { a.len() } else { b.len() }, |i: int|
        if i < a.len() && i < b.len() { AddSpec::add_spec(a[i], b[i]) } else if i < a.len() { a[i] } else { b[i] })
}
/// a vector with given contents (contents determine a vector: ax_vec_ext)
pub uninterp spec fn vec_with<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_vec_with<T>(s: Seq<T>) ensures s.len() <= usize::MAX ==> (#[trigger] vec_with(s))@ == s;
pub axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>) requires a@ == b@ ensures a == b;
pub axiom fn ax_vec_len<T>(a: Vec<T>) ensures a@.len() <= usize::MAX;
impl<T: Scal> AddSpecImpl for IdentityOutput<T> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Self) -> bool { true }
    open spec fn add_spec(self, o: Self) -> Self { IdentityOutput(vec_with(pad_add(self.0@, o.0@))) }
}
impl<T: Scal> MulAssignSpecImpl<Fr> for IdentityOutput<T> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: Fr) -> bool { true }
    open spec fn mul_assign_spec(&self, o: Fr) -> &Self { &IdentityOutput(vec_with(Seq::new(self.0@.len(), |i: int| *<T as MulAssignSpec<Fr>>::mul_assign_spec(&self.0@[i], o)))) }
}
impl<T: Scal> Ser for IdentityOutput<T> {
    open spec fn sbytes(&self) -> Seq<u8> { ser_ident(dls(self.0@)) }
    uninterp spec fn cbytes(&self) -> Seq<u8>;
    #[verifier::external_body] fn serialize_uncompressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn serialize_compressed(&self, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
}
impl<T: Scal> VDefault for IdentityOutput<T> { open spec fn vdef() -> Self { IdentityOutput(vec_with(Seq::empty())) } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl<T: Scal> Elem for IdentityOutput<T> {
    open spec fn vw(&self) -> Seq<Fr> { dls(self.0@) }
    open spec fn ser_of(v: Seq<Fr>) -> Seq<u8> { ser_ident(v) }
    proof fn laws() {
        T::laws(); T::scal_laws(); add_zero_all();
        assert forall|a: Self, b: Self| (#[trigger] AddSpec::add_spec(a, b)).vw() == padd(a.vw(), b.vw()) by {
            ax_vec_len(a.0); ax_vec_len(b.0);
            ax_vec_with(pad_add(a.0@, b.0@));
            let r = AddSpec::add_spec(a, b);
            assert(r.vw() =~= padd(a.vw(), b.vw()));
        }
        assert forall|a: &Self, c: Fr| (#[trigger] MulAssignSpec::mul_assign_spec(a, c)).vw() == pscale(a.vw(), c) by {
            ax_vec_len(a.0);
            ax_vec_with(Seq::new(a.0@.len(), |i: int| *<T as MulAssignSpec<Fr>>::mul_assign_spec(&a.0@[i], c)));
            let r = MulAssignSpec::mul_assign_spec(a, c);
            assert(r.vw() =~= pscale(a.vw(), c));
        }
    }
}
@end
@ghost root
pub proof fn add_zero_all() ensures forall|a: Fr| #[trigger] (a + f0()) == a, forall|a: Fr| #[trigger] (f0() + a) == a {
    assert forall|a: Fr| #[trigger] (a + f0()) == a by { add_z(a); }
    assert forall|a: Fr| #[trigger] (f0() + a) == a by { add_z(a); }
}
pub proof fn mul_all_zero() ensures forall|a: Fr| #[trigger] (f0() * a) == f0() {
    assert forall|a: Fr| #[trigger] (f0() * a) == f0() by { mul_zero(a); }
}
@end
@ghost ident unless ident::HomomorphicPlaceholderValue::<Clone>
impl Clone for HomomorphicPlaceholderValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@end
@ghost ident unless ident::HomomorphicPlaceholderValue::<PartialEq>
impl PartialEq for HomomorphicPlaceholderValue { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for HomomorphicPlaceholderValue { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { true } }
@end
@ghost ident unless ident::IdentityOutput::<Clone>
impl<T: Scal> Clone for IdentityOutput<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@end
@ghost ident unless ident::IdentityOutput::<PartialEq>
impl<T: Scal> PartialEq for IdentityOutput<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: Scal> PartialEqSpecImpl for IdentityOutput<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.vw() == o.vw() } }
@end

@fn ident::HomomorphicPlaceholderValue::<Add>::add
@props C03
@end
@fn ident::HomomorphicPlaceholderValue::<MulAssign>::mul_assign
@props C03
@end
@fn ident::IdentityOutput::<Add>::add
@props C03
@at fn_start
proof { T::laws(); }
let ghost a0 = self.0@;
let ghost b0 = rhs.0@;
@type out_sum Vec<T>
@inv sum
invariant i_sum <= n_sum, n_sum == (if a0.len() <= b0.len() { a0.len() } else { b0.len() }), out_sum@.len() == i_sum,
   $S0@ == a0, $S1@ == b0, a0 == self.0@, b0 == rhs.0@,
   forall|k: int| 0 <= k < i_sum ==> #[trigger] out_sum@[k] == AddSpec::add_spec(a0[k], b0[k]),
decreases n_sum - i_sum
@at fn_end
proof {
   ax_vec_len(self.0); ax_vec_len(rhs.0);
   ax_vec_with(pad_add(a0, b0));
   assert(r__.0@ =~= pad_add(a0, b0));
   ax_vec_ext(r__.0, vec_with(pad_add(a0, b0)));
}
@end
@fn ident::IdentityOutput::<MulAssign>::mul_assign
@props C03
@at fn_start
proof { T::laws(); }
let ghost a0 = self.0@;
@inv chain
invariant i_chain <= n_chain, n_chain == a0.len(), self.0@.len() == a0.len(),
   forall|k: int| 0 <= k < i_chain ==> #[trigger] self.0@[k] == *<T as MulAssignSpec<Fr>>::mul_assign_spec(&a0[k], rhs),
   forall|k: int| i_chain <= k < a0.len() ==> #[trigger] self.0@[k] == a0[k],
decreases n_chain - i_chain
@at fn_end
proof {
   ax_vec_len(self.0);
   let s = Seq::new(a0.len(), |i: int| *<T as MulAssignSpec<Fr>>::mul_assign_spec(&a0[i], rhs));
   ax_vec_with(s);
   assert(self.0@ =~= s);
   ax_vec_ext(self.0, vec_with(s));
}
@end
@fn ipp::mul_helper
@props C03,C04,C06
@ensures C04,C06
res.vw() == pscale(t.vw(), *f)
@ensures C04,C06
res == MulAssignSpec::mul_assign_spec(t, *f)
@at fn_start
proof { T::laws(); }
@end
