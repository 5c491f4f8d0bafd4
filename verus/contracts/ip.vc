@fn ip::cfg_multi_pairing
@props C01
@requires
left@.len() == right@.len()
@ensures C01
res.is_some()
@ensures C01
res->Some_0.dl() == dot(dls(left@), dls(right@))
@at fn_start
let ghost lv = dls(left@);
let ghost rv = dls(right@);
@type out_left Vec<G1Prepared>
@type out_right Vec<G2Prepared>
@type acc_ml_result TargetField
@inv left
invariant i_left <= n_left, n_left == $S0@.len(), out_left@.len() == i_left,
   forall|k: int| 0 <= k < i_left ==> (#[trigger] out_left@[k]).dl() == $S0@[k].dl(),
decreases n_left - i_left
@inv right
invariant i_right <= n_right, n_right == $S0@.len(), out_right@.len() == i_right,
   forall|k: int| 0 <= k < i_right ==> (#[trigger] out_right@[k]).dl() == $S0@[k].dl(),
decreases n_right - i_right
@at let left
proof { assert(dls(left@) =~= dls(aff_left@)); assert(dls(left@) == lv); assert(lv.len() == left@.len()); }
@at let right
proof { assert(dls(right@) =~= dls(aff_right@)); assert(dls(right@) == rv); assert(rv.len() == right@.len()); }
@at let chunk_size
proof { if num_chunks <= left.len() { assert(left.len() / num_chunks >= 1) by (nonlinear_arith) requires num_chunks <= left.len(), num_chunks >= 1; } }
@at before_loop ml_result
proof { broadcast use ax_of_tl; }
@inv ml_result
invariant i_ml_result <= n_ml_result,
   $K0 == $K1, $K0 > 0, n_ml_result == ceil_div(lv.len() as int, $K0 as int), lv.len() > 0 ==> (n_ml_result - 1) * $K0 < lv.len() <= n_ml_result * $K0, lv.len() == 0 ==> n_ml_result == 0,
   $S0@ == left@, $S1@ == right@, dls(left@) == lv, dls(right@) == rv, lv.len() == rv.len(), lv.len() == left@.len(), rv.len() == right@.len(),
   acc_ml_result.tl() == sumr(prods(lv, rv), 0, if i_ml_result * $K0 <= lv.len() { i_ml_result * $K0 } else { lv.len() as int }),
decreases n_ml_result - i_ml_result
@at bind ml_result
proof { assert(ix_ml_result * $K0 <= (n_ml_result - 1) * $K0) by (nonlinear_arith) requires ix_ml_result <= n_ml_result - 1, $K0 > 0;
   assert((ix_ml_result + 1) * $K0 == ix_ml_result * $K0 + $K0) by (nonlinear_arith); }
@at elem ml_result
proof {
   broadcast use ax_of_tl;
   let lo = ix_ml_result * $K0;
   let hi = if (ix_ml_result + 1) * $K0 <= lv.len() { (ix_ml_result + 1) * $K0 } else { lv.len() as int };
   assert(dls($S0@.subrange(lo, hi)) =~= lv.subrange(lo, hi));
   assert(dls($S1@.subrange(lo, hi)) =~= rv.subrange(lo, hi));
   dotp_sub(lv, rv, lo, hi);
   sumr_split(prods(lv, rv), 0, lo, hi);
}
@end

@fn ip::PairingInnerProduct::<InnerProduct>::inner_product
@props C01
@end

@fn ip::MultiexponentiationInnerProduct::<InnerProduct>::inner_product
@props C01
@at fn_start
proof { broadcast use dls_fr; }
@end

@fn ip::ScalarInnerProduct::<InnerProduct>::inner_product
@props C01
@at fn_start
proof { broadcast use dls_fr; }
@type acc_chain Fr
@inv chain
invariant i_chain <= n_chain, n_chain == $S0@.len(), $S0@.len() == $S1@.len(), $S0@ == left@, $S1@ == right@,
   acc_chain == sumr(prods(left@, right@), 0, i_chain as int),
decreases n_chain - i_chain
@end
