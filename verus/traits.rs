pub trait InnerProduct: Sized {
    type LeftMessage: Scal;
    type RightMessage: Scal;
    type Output: Scal;
    fn inner_product(left: &[Self::LeftMessage], right: &[Self::RightMessage]) -> (res: Result<Self::Output, Error>)
        ensures
            res.is_ok() == (left@.len() == right@.len()), //#C01
            res.is_ok() ==> res->Ok_0.dl() == dot(dls(left@), dls(right@)); //#C01
}
pub trait DoublyHomomorphicCommitment: Sized {
    type Message: Scal;
    type Key: Scal;
    type Output: Elem;
    spec fn ckind() -> CKind;
    fn setup<R: Rng>(rng: &mut R, size: usize) -> (res: Result<Vec<Self::Key>, Error>)
        ensures res.is_ok() && res->Ok_0@.len() == size; //#C02
    fn commit(k: &[Self::Key], m: &[Self::Message]) -> (res: Result<Self::Output, Error>)
        ensures
            res.is_ok() == com_ok(Self::ckind(), k@.len(), m@.len()), //#C02
            res.is_ok() ==> res->Ok_0.vw() == com_of(Self::ckind(), dls(k@), dls(m@)); //#C02,C03
//@@default dh::DoublyHomomorphicCommitment::verify
}
pub trait TIPACompatibleSetup { }
