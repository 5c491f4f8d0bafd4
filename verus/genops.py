"""Operator contracts (ark-ff / ark-ec operators) generated mechanically."""
BIN = [  # left, right, op trait, method, spec expr over (l, r) values, output
]
def fr(l, r, tr, m, e, out='Fr'):
    BIN.append((l, r, tr, m, e, out))
out = []
def binop(L, R, tr, m, O, spec, pure=True):
    """spec: functional result (pure) as expression in l, r."""
    lt = L[0] == '&' or R[0] == '&'
    lts = []
    def ty(t, n):
        if t[0] == '&':
            lts.append("'" + n)
            return "&'" + n + ' ' + t[1:]
        return t
    l = ty(L, 'a'); r = ty(R, 'b')
    g = '<' + ', '.join(lts) + '>' if lts else ''
    le = '*self' if L[0] == '&' else 'self'
    re_ = '*o' if R[0] == '&' else 'o'
    s = spec.replace('$l', '(' + le + ')').replace('$r', '(' + re_ + ')')
    low = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div'}[tr]
    req = 'true'
    if tr == 'Div':
        req = '(%s) != f0()' % re_ if R.strip('&') == 'Fr' else 'poly_div_ok(%s)' % re_
    out.append(f"impl{g} {tr}<{r}> for {l} {{ type Output = {O}; #[verifier::external_body] fn {low}(self, o: {r}) -> {O} {{ unimplemented!() }} }}")
    out.append(f"impl{g} {tr}SpecImpl<{r}> for {l} {{ open spec fn obeys_{low}_spec() -> bool {{ true }} open spec fn {low}_req(self, o: {r}) -> bool {{ {req} }} open spec fn {low}_spec(self, o: {r}) -> {O} {{ {s} }} }}")
def asgop(L, R, tr, spec):
    lts = ''
    r = R
    if R[0] == '&':
        lts = "<'b>"; r = "&'b " + R[1:]
    low = {'AddAssign': 'add_assign', 'SubAssign': 'sub_assign', 'MulAssign': 'mul_assign', 'DivAssign': 'div_assign'}[tr]
    re_ = '*o' if R[0] == '&' else 'o'
    s = spec.replace('$l', '(*self)').replace('$r', '(' + re_ + ')')
    req = '(%s) != f0()' % re_ if tr == 'DivAssign' else 'true'
    out.append(f"impl{lts} {tr}<{r}> for {L} {{ #[verifier::external_body] fn {low}(&mut self, o: {r}) {{ unimplemented!() }} }}")
    out.append(f"impl{lts} {tr}SpecImpl<{r}> for {L} {{ open spec fn obeys_{low}_spec() -> bool {{ true }} open spec fn {low}_req(&self, o: {r}) -> bool {{ {req} }} open spec fn {low}_spec(&self, o: {r}) -> &{L} {{ &({s}) }} }}")
def neg(L, spec):
    out.append(f"impl Neg for {L} {{ type Output = {L}; #[verifier::external_body] fn neg(self) -> {L} {{ unimplemented!() }} }}")
    out.append(f"impl NegSpecImpl for {L} {{ open spec fn obeys_neg_spec() -> bool {{ true }} open spec fn neg_req(self) -> bool {{ true }} open spec fn neg_spec(self) -> {L} {{ {spec} }} }}")

refs = lambda a, b: [(a, b), (a, '&' + b), ('&' + a, b), ('&' + a, '&' + b)]
for (l, r) in refs('Fr', 'Fr'):
    binop(l, r, 'Add', 'add', 'Fr', '$l + $r')
    binop(l, r, 'Sub', 'sub', 'Fr', '$l - $r')
    binop(l, r, 'Mul', 'mul', 'Fr', '$l * $r')
    binop(l, r, 'Div', 'div', 'Fr', '$l * finv($r)')
for r in ('Fr', '&Fr'):
    asgop('Fr', r, 'AddAssign', '$l + $r')
    asgop('Fr', r, 'SubAssign', '$l - $r')
    asgop('Fr', r, 'MulAssign', '$l * $r')
    asgop('Fr', r, 'DivAssign', '$l * finv($r)')
neg('Fr', '-self')
for G in ('G1', 'G2', 'GT'):
    k = 'of_dl_' + G
    for (l, r) in refs(G, G):
        binop(l, r, 'Add', 'add', G, k + '($l.dl() + $r.dl())')
        binop(l, r, 'Sub', 'sub', G, k + '($l.dl() - $r.dl())')
    for (l, r) in refs(G, 'Fr'):
        binop(l, r, 'Mul', 'mul', G, k + '($l.dl() * $r)')
    for r in (G, '&' + G):
        asgop(G, r, 'AddAssign', k + '($l.dl() + $r.dl())')
        asgop(G, r, 'SubAssign', k + '($l.dl() - $r.dl())')
    for r in ('Fr', '&Fr'):
        asgop(G, r, 'MulAssign', k + '($l.dl() * $r)')
    neg(G, k + '(-self.dl())')
for G in ('G1', 'G2'):
    A = G + 'Affine'
    k = 'of_dl_' + G
    for (l, r) in refs(A, 'Fr'):
        binop(l, r, 'Mul', 'mul', G, k + '($l.dl() * $r)')
    for (l, r) in refs(A, A):
        binop(l, r, 'Add', 'add', G, k + '($l.dl() + $r.dl())')
        binop(l, r, 'Sub', 'sub', G, k + '($l.dl() - $r.dl())')
    for (l, r) in refs(G, A):
        binop(l, r, 'Add', 'add', G, k + '($l.dl() + $r.dl())')
        binop(l, r, 'Sub', 'sub', G, k + '($l.dl() - $r.dl())')
    for r in (A, '&' + A):
        asgop(G, r, 'AddAssign', k + '($l.dl() + $r.dl())')
        asgop(G, r, 'SubAssign', k + '($l.dl() - $r.dl())')
    neg(A, k + 'a(-self.dl())')
# polynomials
# (only &Poly op &Poly exists in ark-poly; Verus cannot resolve an operator with a single candidate impl)
for (l, r) in refs('Poly', 'Poly'):
    binop(l, r, 'Add', 'add', 'Poly', 'poly_add($l, $r)')
    binop(l, r, 'Sub', 'sub', 'Poly', 'poly_sub($l, $r)')
    binop(l, r, 'Div', 'div', 'Poly', 'poly_div($l, $r)')
# target field
for (l, r) in refs('TargetField', 'TargetField'):
    binop(l, r, 'Mul', 'mul', 'TargetField', 'of_tl($l.tl() + $r.tl())')
for r in ('TargetField', '&TargetField'):
    asgop('TargetField', r, 'MulAssign', 'of_tl($l.tl() + $r.tl())')

def text():
    return '\n'.join(out) + '\n'
if __name__ == '__main__':
    print(text())
