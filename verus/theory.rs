// ---- lemmas over field sums -----------------------------------------------------------------
pub proof fn add_z(a: Fr) ensures a + f0() == a, f0() + a == a { ax_add_zero(a); ax_add_comm(f0(), a); }
pub proof fn mul_o(a: Fr) ensures a * f1() == a, f1() * a == a { ax_mul_one(a); ax_mul_comm(f1(), a); }
pub proof fn neg_z(a: Fr) ensures a + (-a) == f0(), (-a) + a == f0() { ax_neg(a); ax_add_comm(-a, a); }
pub proof fn dist_r(a: Fr, b: Fr, c: Fr) ensures (a + b) * c == a * c + b * c { ax_mul_comm(a + b, c); ax_dist(c, a, b); ax_mul_comm(c, a); ax_mul_comm(c, b); }
pub proof fn mul_zero(a: Fr) ensures a * f0() == f0(), f0() * a == f0() {
    let z = a * f0();
    ax_dist(a, f0(), f0()); ax_add_zero(f0());
    assert(z + z == z);
    ax_add_assoc(z, z, -z); ax_neg(z); ax_add_zero(z);
    ax_mul_comm(a, f0());
}
pub proof fn neg_unique(a: Fr, b: Fr) requires a + b == f0() ensures b == -a {
    ax_add_assoc(b, a, -a); ax_neg(a); ax_add_zero(b); ax_add_comm(b, a); add_z(-a);
}
pub proof fn neg_mul(a: Fr, b: Fr) ensures (-a) * b == -(a * b), a * (-b) == -(a * b) {
    mul_zero(a); mul_zero(b); neg_z(a); neg_z(b);
    dist_r(a, -a, b);
    neg_unique(a * b, (-a) * b);
    ax_dist(a, b, -b);
    neg_unique(a * b, a * (-b));
}
pub proof fn neg_neg(a: Fr) ensures -(-a) == a { neg_z(a); neg_unique(-a, a); }
pub proof fn neg_add(a: Fr, b: Fr) ensures -(a + b) == (-a) + (-b) {
    let (c, d) = (-a, -b);
    assert((a + b) + (c + d) == (a + c) + (b + d)) by { broadcast use addac; }
    neg_z(a); neg_z(b); add_z(f0());
    neg_unique(a + b, c + d);
}
pub proof fn mul_cancel(a: Fr, b: Fr, c: Fr) requires a * c == b * c, c != f0() ensures a == b {
    ax_inv(c);
    ax_mul_assoc(a, c, finv(c)); ax_mul_assoc(b, c, finv(c)); ax_mul_one(a); ax_mul_one(b);
}
pub proof fn add_cancel(a: Fr, b: Fr, c: Fr) requires a + c == b + c ensures a == b {
    ax_add_assoc(a, c, -c); ax_add_assoc(b, c, -c); ax_neg(c); ax_add_zero(a); ax_add_zero(b);
}
pub proof fn sub_zero(a: Fr, b: Fr) ensures (a - b == f0()) == (a == b) {
    if a - b == f0() { assert(a + (-b) == f0()); ax_add_comm(-b, a); neg_unique(-b, a); neg_neg(b); }
    else if a == b { ax_neg(a); assert(a + (-b) == a - b); }
}
pub proof fn inv_nz(a: Fr) requires a != f0() ensures finv(a) != f0(), finv(finv(a)) == a, a * finv(a) == f1(), finv(a) * a == f1() {
    ax_inv(a); ax_one_ne_zero(); ax_mul_comm(a, finv(a));
    if finv(a) == f0() { mul_zero(a); }
    ax_inv(finv(a)); ax_mul_comm(finv(a), finv(finv(a)));
    mul_cancel(finv(finv(a)), a, finv(a));
}
pub proof fn mul_nz(a: Fr, b: Fr) requires a != f0(), b != f0() ensures a * b != f0() {
    if a * b == f0() { mul_zero(b); mul_cancel(a, f0(), b); }
}
pub proof fn sumr_cong(f: spec_fn(int) -> Fr, g: spec_fn(int) -> Fr, lo: int, hi: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] f(i) == g(i)
    ensures sumr(f, lo, hi) == sumr(g, lo, hi)
    decreases hi - lo
{ if lo < hi { sumr_cong(f, g, lo, hi - 1); assert(f(hi - 1) == g(hi - 1)); } }
pub proof fn sumr_add(f: spec_fn(int) -> Fr, g: spec_fn(int) -> Fr, lo: int, hi: int)
    ensures sumr(|i: int| f(i) + g(i), lo, hi) == sumr(f, lo, hi) + sumr(g, lo, hi)
    decreases hi - lo
{
    if lo < hi {
        sumr_add(f, g, lo, hi - 1);
        let (a, b, c, d) = (sumr(f, lo, hi - 1), sumr(g, lo, hi - 1), f(hi - 1), g(hi - 1));
        assert((a + b) + (c + d) == (a + c) + (b + d)) by { broadcast use addac; }
    } else { add_z(f0()); }
}
pub proof fn sumr_scale(f: spec_fn(int) -> Fr, c: Fr, lo: int, hi: int)
    ensures sumr(|i: int| f(i) * c, lo, hi) == sumr(f, lo, hi) * c
    decreases hi - lo
{ mul_zero(c); if lo < hi { sumr_scale(f, c, lo, hi - 1); dist_r(sumr(f, lo, hi - 1), f(hi - 1), c); } }
pub proof fn sumr_zero(f: spec_fn(int) -> Fr, lo: int, hi: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] f(i) == f0()
    ensures sumr(f, lo, hi) == f0()
    decreases hi - lo
{ add_z(f0()); if lo < hi { sumr_zero(f, lo, hi - 1); assert(f(hi - 1) == f0()); } }
pub proof fn sumr_split(f: spec_fn(int) -> Fr, lo: int, mid: int, hi: int)
    requires lo <= mid <= hi
    ensures sumr(f, lo, hi) == sumr(f, lo, mid) + sumr(f, mid, hi)
    decreases hi - mid
{ if mid < hi { sumr_split(f, lo, mid, hi - 1); ax_add_assoc(sumr(f, lo, mid), sumr(f, mid, hi - 1), f(hi - 1)); } else { add_z(sumr(f, lo, mid)); } }
pub proof fn sumr_shift(f: spec_fn(int) -> Fr, d: int, lo: int, hi: int)
    ensures sumr(|i: int| f(i + d), lo, hi) == sumr(f, lo + d, hi + d)
    decreases hi - lo
{ if lo < hi { sumr_shift(f, d, lo, hi - 1); } }

pub proof fn dot_comm(a: Seq<Fr>, b: Seq<Fr>) requires a.len() == b.len() ensures dot(a, b) == dot(b, a) {
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] prods(a, b)(i) == prods(b, a)(i) by { ax_mul_comm(get(a, i), get(b, i)); }
    sumr_cong(prods(a, b), prods(b, a), 0, a.len() as int);
}
/// inner product of a prefix of two vectors
pub open spec fn dotp(a: Seq<Fr>, b: Seq<Fr>, n: int) -> Fr { sumr(prods(a, b), 0, n) }
pub proof fn dotp_sub(a: Seq<Fr>, b: Seq<Fr>, lo: int, hi: int)
    requires 0 <= lo <= hi <= a.len(), hi <= b.len()
    ensures dot(a.subrange(lo, hi), b.subrange(lo, hi)) == sumr(prods(a, b), lo, hi)
{
    let f = prods(a, b);
    let g = prods(a.subrange(lo, hi), b.subrange(lo, hi));
    sumr_shift(f, lo, 0, hi - lo);
    sumr_cong(g, |i: int| f(i + lo), 0, hi - lo);
}
pub proof fn dot_concat(a1: Seq<Fr>, a2: Seq<Fr>, b1: Seq<Fr>, b2: Seq<Fr>)
    requires a1.len() == b1.len(), a2.len() == b2.len()
    ensures dot(a1 + a2, b1 + b2) == dot(a1, b1) + dot(a2, b2)
{
    let a = a1 + a2; let b = b1 + b2; let n = a1.len() as int; let m = a.len() as int;
    sumr_split(prods(a, b), 0, n, m);
    dotp_sub(a, b, 0, n); dotp_sub(a, b, n, m);
    assert(a.subrange(0, n) =~= a1); assert(b.subrange(0, n) =~= b1);
    assert(a.subrange(n, m) =~= a2); assert(b.subrange(n, m) =~= b2);
}
pub proof fn dot_add_l(a: Seq<Fr>, b: Seq<Fr>, x: Seq<Fr>)
    requires a.len() == b.len()
    ensures dot(padd(a, b), x) == dot(a, x) + dot(b, x)
{
    let f = prods(a, x); let g = prods(b, x);
    sumr_add(f, g, 0, a.len() as int);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] prods(padd(a, b), x)(i) == f(i) + g(i) by { dist_r(a[i], b[i], get(x, i)); }
    sumr_cong(prods(padd(a, b), x), |i: int| f(i) + g(i), 0, a.len() as int);
}
pub proof fn dot_scale_l(a: Seq<Fr>, x: Seq<Fr>, c: Fr)
    ensures dot(pscale(a, c), x) == dot(a, x) * c
{
    let f = prods(a, x);
    sumr_scale(f, c, 0, a.len() as int);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] prods(pscale(a, c), x)(i) == f(i) * c by {
        let (p, q) = (a[i], get(x, i));
        assert((p * c) * q == (p * q) * c) by { broadcast use mulac; }
    }
    sumr_cong(prods(pscale(a, c), x), |i: int| f(i) * c, 0, a.len() as int);
}
pub proof fn dot_add_r(x: Seq<Fr>, a: Seq<Fr>, b: Seq<Fr>)
    requires a.len() == b.len(), x.len() == a.len()
    ensures dot(x, padd(a, b)) == dot(x, a) + dot(x, b)
{ dot_comm(x, padd(a, b)); dot_comm(x, a); dot_comm(x, b); dot_add_l(a, b, x); }
pub proof fn dot_scale_r(x: Seq<Fr>, a: Seq<Fr>, c: Fr)
    requires a.len() == x.len()
    ensures dot(x, pscale(a, c)) == dot(x, a) * c
{ dot_comm(x, pscale(a, c)); dot_comm(x, a); dot_scale_l(a, x, c); }
pub proof fn dot1(a: Fr, b: Fr) ensures dot(seq![a], seq![b]) == a * b {
    reveal_with_fuel(sumr, 3);
    add_z(a * b);
}
/// the recursive step of the generalized inner product
pub proof fn dot_fold(a1: Seq<Fr>, a2: Seq<Fr>, b1: Seq<Fr>, b2: Seq<Fr>, u: Fr, w: Fr)
    requires a1.len() == a2.len(), b1.len() == b2.len(), a1.len() == b1.len(), u * w == f1()
    ensures dot(padd(pscale(a2, u), a1), padd(pscale(b2, w), b1)) == (dot(a1, b2) * w + dot(a1 + a2, b1 + b2)) + dot(a2, b1) * u
{
    let b = padd(pscale(b2, w), b1);
    dot_add_l(pscale(a2, u), a1, b);
    dot_scale_l(a2, b, u);
    dot_add_r(a2, pscale(b2, w), b1);
    dot_add_r(a1, pscale(b2, w), b1);
    dot_scale_r(a2, b2, w);
    dot_scale_r(a1, b2, w);
    dot_concat(a1, a2, b1, b2);
    let (p, q, r, s) = (dot(a1, b1), dot(a1, b2), dot(a2, b1), dot(a2, b2));
    dist_r(s * w, r, u);
    ax_mul_assoc(s, w, u); ax_mul_comm(w, u); ax_mul_one(s);
    let (e, f) = (q * w, r * u);
    assert((s + f) + (e + p) == (e + (p + s)) + f) by { broadcast use addac; }
}

pub broadcast proof fn dls1<T: HasDl>(s: Seq<T>) ensures s.len() == 1 ==> #[trigger] dls(s) == seq![s[0].dl()] {
    if s.len() == 1 { assert(dls(s) =~= seq![s[0].dl()]); }
}

pub proof fn scal_eq<T: Scal>() ensures forall|a: T, b: T| #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a.dl() == b.dl()) {
    T::laws(); T::scal_laws();
    assert forall|a: T, b: T| #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a.dl() == b.dl()) by {
        assert(a.vw() =~= seq![a.dl()]); assert(b.vw() =~= seq![b.dl()]);
        if a.vw() == b.vw() { assert(a.vw()[0] == b.vw()[0]); }
    }
}

/// the sum of three terms, in any order and grouping
pub proof fn sum3(a: Fr, b: Fr, c: Fr)
    ensures (a + b) + c == a + (b + c), (a + c) + b == (a + b) + c, (b + a) + c == (a + b) + c, (b + c) + a == (a + b) + c, (c + a) + b == (a + b) + c, (c + b) + a == (a + b) + c,
       b + (a + c) == (a + b) + c, b + (c + a) == (a + b) + c, a + (c + b) == (a + b) + c, c + (a + b) == (a + b) + c, c + (b + a) == (a + b) + c
{ broadcast use addac; }
pub proof fn padd_comm(a: Seq<Fr>, b: Seq<Fr>) ensures padd(a, b) == padd(b, a)
{
    assert forall|i: int| 0 <= i < padd(a, b).len() implies padd(a, b)[i] == padd(b, a)[i] by { ax_add_comm(get(a, i), get(b, i)); }
    assert(padd(a, b) =~= padd(b, a));
}
pub proof fn padd_assoc(a: Seq<Fr>, b: Seq<Fr>, c: Seq<Fr>) ensures padd(padd(a, b), c) == padd(a, padd(b, c))
{
    let (l, r) = (padd(padd(a, b), c), padd(a, padd(b, c)));
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        ax_add_assoc(get(a, i), get(b, i), get(c, i));
        add_z(get(a, i)); add_z(get(b, i)); add_z(get(c, i)); add_z(f0());
        ax_add_comm(get(a, i), f0()); ax_add_comm(get(c, i), f0());
        assert(get(padd(a, b), i) == get(a, i) + get(b, i)); assert(get(padd(b, c), i) == get(b, i) + get(c, i));
    }
    assert(l =~= r);
}
pub proof fn padd3(a: Seq<Fr>, b: Seq<Fr>, c: Seq<Fr>)
    ensures padd(padd(a, b), c) == padd(a, padd(b, c)), padd(padd(a, c), b) == padd(padd(a, b), c), padd(padd(b, a), c) == padd(padd(a, b), c), padd(padd(b, c), a) == padd(padd(a, b), c),
       padd(padd(c, a), b) == padd(padd(a, b), c), padd(padd(c, b), a) == padd(padd(a, b), c),
       padd(b, padd(a, c)) == padd(padd(a, b), c), padd(b, padd(c, a)) == padd(padd(a, b), c), padd(a, padd(c, b)) == padd(padd(a, b), c), padd(c, padd(a, b)) == padd(padd(a, b), c), padd(c, padd(b, a)) == padd(padd(a, b), c)
{
    padd_comm(a, b); padd_comm(a, c); padd_comm(b, c);
    padd_assoc(a, b, c); padd_assoc(a, c, b); padd_assoc(b, a, c); padd_assoc(b, c, a); padd_assoc(c, a, b); padd_assoc(c, b, a);
    padd_comm(padd(a, b), c); padd_comm(padd(a, c), b); padd_comm(padd(b, c), a);
}
