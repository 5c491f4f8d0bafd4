@fn dh::DoublyHomomorphicCommitment::verify
@props C02
@ensures C02
res.is_ok() == com_ok(Self::ckind(), k@.len(), m@.len())
@ensures C02
res.is_ok() ==> res->Ok_0 == (com_of(Self::ckind(), dls(k@), dls(m@)) == com.vw())
@at fn_start
proof { Self::Output::laws(); }
@end

@fn dh::random_generators
@props C02
@ensures C02
res@.len() == num
@ensures C02
forall|i: int| 0 <= i < num ==> (#[trigger] res@[i]).dl() == draw(advn(old(rng).state(), i as nat), 0)
@type out_ret Vec<G>
@inv ret
invariant i_ret <= n_ret, n_ret == num, out_ret@.len() == i_ret, rng.state() == advn(old(rng).state(), i_ret as nat), 
   forall|i: int| 0 <= i < i_ret ==> (#[trigger] out_ret@[i]).dl() == draw(advn(old(rng).state(), i as nat), 0),
decreases n_ret - i_ret
@end

@impl afgho::AFGHOCommitmentG1::<DoublyHomomorphicCommitment>
open spec fn ckind() -> CKind { CKind::Dot }
@end
@impl afgho::AFGHOCommitmentG2::<DoublyHomomorphicCommitment>
open spec fn ckind() -> CKind { CKind::Dot }
@end
@impl ped::PedersenCommitment::<DoublyHomomorphicCommitment>
open spec fn ckind() -> CKind { CKind::Dot }
@end
@impl ident::IdentityCommitment::<DoublyHomomorphicCommitment>
open spec fn ckind() -> CKind { CKind::Ident }
@end
@fn afgho::AFGHOCommitmentG1::<DoublyHomomorphicCommitment>::setup
@props C02
@end
@fn afgho::AFGHOCommitmentG1::<DoublyHomomorphicCommitment>::commit
@props C02,C03
@at fn_start
proof { broadcast use scal_vw; if k@.len() == m@.len() { dot_comm(dls(k@), dls(m@)); } assert(com_of(CKind::Dot, dls(k@), dls(m@)) == seq![dot(dls(k@), dls(m@))]); }
@end
@fn afgho::AFGHOCommitmentG2::<DoublyHomomorphicCommitment>::setup
@props C02
@end
@fn afgho::AFGHOCommitmentG2::<DoublyHomomorphicCommitment>::commit
@props C02,C03
@at fn_start
proof { broadcast use scal_vw; if k@.len() == m@.len() { dot_comm(dls(k@), dls(m@)); } assert(com_of(CKind::Dot, dls(k@), dls(m@)) == seq![dot(dls(k@), dls(m@))]); }
@end
@fn ped::PedersenCommitment::<DoublyHomomorphicCommitment>::setup
@props C02
@end
@fn ped::PedersenCommitment::<DoublyHomomorphicCommitment>::commit
@props C02,C03
@at fn_start
proof { if k@.len() == m@.len() { dot_comm(dls(k@), dls(m@)); } broadcast use {dls_fr, scal_vw}; assert(dls(m@) == m@); }
@end
@fn ident::IdentityCommitment::<DoublyHomomorphicCommitment>::setup
@props C02
@end
@fn ident::IdentityCommitment::<DoublyHomomorphicCommitment>::commit
@props C02,C03
@end
