@ghost rng
impl FiatShamirRng {
    /// freshly keyed with k: nothing drawn yet
    pub open spec fn keyed(&self, k: Seq<u8>) -> bool { self.seed.bytes() == k && self.r.state() == (RngState { id: k, pos: 0 }) }
}
@end
@impl rng::FiatShamirRng::<RngCore>
open spec fn state(&self) -> RngState { self.r.state() }
open spec fn frame(&self) -> Seq<u8> { self.seed.bytes() }
@end
@fn rng::FiatShamirRng::<RngCore>::next_u32
@props C22
@end
@fn rng::FiatShamirRng::<RngCore>::next_u64
@props C22
@end
@fn rng::FiatShamirRng::<RngCore>::fill_bytes
@props C22
@end
@fn rng::FiatShamirRng::<RngCore>::try_fill_bytes
@props C22
@end
@fn rng::FiatShamirRng::from_seed
@props C22
@ensures C22,C27
res.keyed(hash(seed@))
@end
@fn rng::FiatShamirRng::absorb
@props C22
@ensures C22,C27
final(self).keyed(hash(seed@ + old(self).seed.bytes()))
@end
