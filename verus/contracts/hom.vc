@ghost root
// ---- C03: the homomorphic laws follow from the commitment formula every `commit` is proved to compute ----
pub proof fn com_add_messages(k: CKind, key: Seq<Fr>, a: Seq<Fr>, b: Seq<Fr>)
    requires a.len() == b.len(), k is Dot ==> key.len() == a.len()
    ensures com_of(k, key, padd(a, b)) == padd(com_of(k, key, a), com_of(k, key, b))
{
    match k {
        CKind::Dot => { dot_add_r(key, a, b); assert(com_of(k, key, padd(a, b)) =~= padd(com_of(k, key, a), com_of(k, key, b))); }
        CKind::Zero => { add_z(f0()); assert(com_of(k, key, padd(a, b)) =~= padd(com_of(k, key, a), com_of(k, key, b))); }
        CKind::Ident => {}
    }
}
pub proof fn com_scale_message(k: CKind, key: Seq<Fr>, a: Seq<Fr>, c: Fr)
    requires k is Dot ==> key.len() == a.len()
    ensures com_of(k, key, pscale(a, c)) == pscale(com_of(k, key, a), c)
{
    match k {
        CKind::Dot => { dot_scale_r(key, a, c); assert(com_of(k, key, pscale(a, c)) =~= pscale(com_of(k, key, a), c)); }
        CKind::Zero => { mul_zero(c); ax_mul_comm(f0(), c); assert(com_of(k, key, pscale(a, c)) =~= pscale(com_of(k, key, a), c)); }
        CKind::Ident => {}
    }
}
pub proof fn com_add_keys(k1: Seq<Fr>, k2: Seq<Fr>, m: Seq<Fr>)
    requires k1.len() == k2.len(), k1.len() == m.len()
    ensures com_of(CKind::Dot, padd(k1, k2), m) == padd(com_of(CKind::Dot, k1, m), com_of(CKind::Dot, k2, m))
{ dot_add_l(k1, k2, m); assert(com_of(CKind::Dot, padd(k1, k2), m) =~= padd(com_of(CKind::Dot, k1, m), com_of(CKind::Dot, k2, m))); }
pub proof fn com_scale_key(k: Seq<Fr>, m: Seq<Fr>, c: Fr)
    requires k.len() == m.len()
    ensures com_of(CKind::Dot, pscale(k, c), m) == pscale(com_of(CKind::Dot, k, m), c)
{ dot_scale_l(k, m, c); assert(com_of(CKind::Dot, pscale(k, c), m) =~= pscale(com_of(CKind::Dot, k, m), c)); }
pub proof fn com_concat(k1: Seq<Fr>, k2: Seq<Fr>, m1: Seq<Fr>, m2: Seq<Fr>)
    requires k1.len() == m1.len(), k2.len() == m2.len()
    ensures com_of(CKind::Dot, k1 + k2, m1 + m2) == padd(com_of(CKind::Dot, k1, m1), com_of(CKind::Dot, k2, m2))
{ dot_concat(k1, k2, m1, m2); assert(com_of(CKind::Dot, k1 + k2, m1 + m2) =~= padd(com_of(CKind::Dot, k1, m1), com_of(CKind::Dot, k2, m2))); }
/// the default output of the identity scheme (no entries) is neutral on both sides, whatever the lengths
pub proof fn ident_default_neutral(m: Seq<Fr>)
    ensures padd(m, Seq::empty()) == m, padd(Seq::empty(), m) == m
{
    assert forall|i: int| 0 <= i < m.len() implies get(m, i) + get(Seq::<Fr>::empty(), i) == m[i] && get(Seq::<Fr>::empty(), i) + get(m, i) == m[i] by { add_z(m[i]); ax_add_comm(f0(), m[i]); }
    assert(padd(m, Seq::empty()) =~= m);
    assert(padd(Seq::empty(), m) =~= m);
}
@end
