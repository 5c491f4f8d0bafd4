//! Types, paths and generics.
use std::collections::BTreeMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Pairing,
    Digest,
    Field,
    Curve,
    Dhc,
    Ip,
    Rng,
    Elem,
    Other,
}

#[derive(Clone)]
pub struct TyCtx {
    pub module: String,
    pub self_name: String,
    pub kinds: BTreeMap<String, Kind>,
    /// own generics in order, with printed bounds
    pub own: Vec<(String, Kind, String)>,
}

type R<T> = std::result::Result<T, String>;

pub fn fr_drop(outer: &str, idx: usize) -> bool {
    matches!(outer, "SSMPlaceholderCommitment" | "ScalarInnerProduct" | "Poly" | "BivariatePolynomial")
        || (outer == "IdentityCommitment" && idx == 1)
}

impl TyCtx {
    pub fn new(m: &str) -> Self {
        TyCtx { module: m.into(), self_name: String::new(), kinds: BTreeMap::new(), own: vec![] }
    }
    pub fn fresh_own(&mut self) {
        self.own.clear();
    }

    pub fn rename(&self, id: &str) -> String {
        match id {
            "PairingOutput" => "GT".into(),
            "DensePolynomial" | "UnivariatePolynomial" => "Poly".into(),
            "CurveGroup" | "Group" => "CurveGroup".into(),
            "Proof" if self.module == "groth" => "GProof".into(),
            "ChaChaRng" => "ChaChaRng".into(),
            x => x.into(),
        }
    }

    fn bound_kind(&self, b: &TypeParamBound) -> Option<(Kind, String)> {
        if let TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last()?;
            let n = s.ident.to_string();
            match n.as_str() {
                "Pairing" => Some((Kind::Pairing, String::new())),
                "Digest" => Some((Kind::Digest, String::new())),
                "Field" | "PrimeField" => Some((Kind::Field, String::new())),
                "CurveGroup" | "Group" => Some((Kind::Curve, "CurveGroup".into())),
                "Rng" | "RngCore" => Some((Kind::Rng, "Rng".into())),
                "TIPACompatibleSetup" => Some((Kind::Other, "TIPACompatibleSetup".into())),
                "DoublyHomomorphicCommitment" => Some((Kind::Dhc, self.assoc_bound("DoublyHomomorphicCommitment", s))),
                "InnerProduct" => Some((Kind::Ip, self.assoc_bound("InnerProduct", s))),
                "Add" | "MulAssign" => Some((Kind::Elem, "Elem".into())),
                "CanonicalSerialize" | "CanonicalDeserialize" | "Clone" | "Default" | "Eq" | "Send" | "Sync" | "Copy" => None,
                _ => Some((Kind::Other, n)),
            }
        } else {
            None
        }
    }

    fn assoc_bound(&self, name: &str, s: &PathSegment) -> String {
        let mut parts = vec![];
        if let PathArguments::AngleBracketed(a) = &s.arguments {
            for g in &a.args {
                if let GenericArgument::AssocType(at) = g {
                    if at.ident == "Scalar" {
                        continue;
                    }
                    if let Ok(t) = self.ty(&at.ty) {
                        parts.push(format!("{} = {}", at.ident, t));
                    }
                }
            }
        }
        if parts.is_empty() { name.into() } else { format!("{}<{}>", name, parts.join(", ")) }
    }

    pub fn add_generics(&mut self, g: &Generics) {
        // first pass: kinds
        let mut order = vec![];
        let mut all: BTreeMap<String, Vec<TypeParamBound>> = BTreeMap::new();
        for p in &g.params {
            if let GenericParam::Type(t) = p {
                order.push(t.ident.to_string());
                all.entry(t.ident.to_string()).or_default().extend(t.bounds.iter().cloned());
            }
        }
        if let Some(w) = &g.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(pt) = p {
                    if let Type::Path(tp) = &pt.bounded_ty {
                        if tp.qself.is_none() {
                            if let Some(id) = tp.path.get_ident() {
                                all.entry(id.to_string()).or_default().extend(pt.bounds.iter().cloned());
                            }
                        }
                    }
                }
            }
        }
        let fields = mulassign_args(&all);
        for n in &order {
            let mut k = if fields.contains(n) { Kind::Field } else { Kind::Other };
            for b in all.get(n).cloned().unwrap_or_default() {
                if let Some((kk, _)) = self.bound_kind(&b) {
                    if kk != Kind::Other {
                        // MulAssign/Add on something already classified does not reclassify it
                        if k == Kind::Other || kk != Kind::Elem {
                            k = kk;
                        }
                    }
                }
            }
            self.kinds.insert(n.clone(), k);
        }
        for n in &order {
            let mut bs: Vec<String> = vec![];
            for b in all.get(n).cloned().unwrap_or_default() {
                if let Some((_, s)) = self.bound_kind(&b) {
                    if !s.is_empty() && !bs.contains(&s) {
                        bs.push(s);
                    }
                }
            }
            let k = self.kinds[n].clone();
            self.own.push((n.clone(), k, bs.join(" + ")));
        }
    }

    /// `impl<F> MulAssign<F> for ..`: F is the scalar field
    pub fn note_impl(&mut self, i: &ItemImpl) {
        if let Some((_, p, _)) = &i.trait_ {
            if let Some(n) = mulassign_arg(p) {
                if self.kinds.contains_key(&n) {
                    self.kinds.insert(n.clone(), Kind::Field);
                    for o in self.own.iter_mut() {
                        if o.0 == n {
                            o.1 = Kind::Field;
                        }
                    }
                }
            }
        }
    }

    /// marker structs whose parameters carry no bounds: classify by position
    pub fn struct_params(&mut self, _name: &str, g: &Generics) {
        for p in &g.params {
            if let GenericParam::Type(t) = p {
                let n = t.ident.to_string();
                let k = match n.as_str() {
                    "P" | "E" => Kind::Pairing,
                    "D" => Kind::Digest,
                    "F" => Kind::Field,
                    _ => continue,
                };
                self.kinds.insert(n.clone(), k.clone());
                for o in self.own.iter_mut() {
                    if o.0 == n {
                        o.1 = k.clone();
                    }
                }
            }
        }
    }

    pub fn dropped(&self, n: &str) -> bool {
        matches!(self.kinds.get(n), Some(Kind::Pairing) | Some(Kind::Digest) | Some(Kind::Field))
    }

    pub fn print_generics(&self, bounds: bool) -> String {
        let v: Vec<String> = self
            .own
            .iter()
            .filter(|(n, _, _)| !self.dropped(n))
            .map(|(n, k, b)| {
                let b = if b.is_empty() && *k == Kind::Elem { "Elem" } else { b };
                let b = if b == "Elem" && self.module == "ident" { "Scal" } else { b };
                if bounds && !b.is_empty() { format!("{}: {}", n, b) } else { n.clone() }
            })
            .collect();
        if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) }
    }

    pub fn impl_header(&self, i: &ItemImpl) -> R<String> {
        let mut tc = self.clone();
        tc.own.clear();
        let mut t2 = TyCtx::new(&self.module);
        t2.add_generics(&i.generics);
        t2.note_impl(i);
        tc.own = t2.own;
        tc.kinds = t2.kinds;
        let g = tc.print_generics(true);
        let st = tc.ty(&i.self_ty)?;
        Ok(match &i.trait_ {
            Some((_, p, _)) => {
                let trn = tc.path(&None, p, false)?;
                format!("impl{} {} for {}", g, trn, st)
            }
            None => format!("impl{} {}", g, st),
        })
    }

    pub fn struct_item(&self, s: &ItemStruct) -> R<String> {
        let g = self.print_generics(true);
        let body = match &s.fields {
            Fields::Named(f) => {
                let mut v = vec![];
                for x in &f.named {
                    v.push(format!("pub {}: {}", x.ident.as_ref().unwrap(), self.ty(&x.ty)?));
                }
                format!(" {{ {} }}", v.join(", "))
            }
            Fields::Unnamed(f) => {
                let mut v = vec![];
                for x in &f.unnamed {
                    v.push(format!("pub {}", self.ty(&x.ty)?));
                }
                format!("({});", v.join(", "))
            }
            Fields::Unit => ";".into(),
        };
        Ok(format!("pub struct {}{}{}", s.ident, g, body))
    }

    fn map_assoc(&self, base: &str, name: &str) -> Option<String> {
        match self.kinds.get(base)? {
            Kind::Pairing => match name {
                "G1" | "G2" | "G1Affine" | "G2Affine" | "G1Prepared" | "G2Prepared" | "TargetField" => Some(name.into()),
                "ScalarField" => Some("Fr".into()),
                _ => None,
            },
            Kind::Curve => match name {
                "ScalarField" => Some("Fr".into()),
                "Affine" => Some(format!("<{} as CurveGroup>::Affine", base)),
                _ => None,
            },
            Kind::Dhc => match name {
                "Scalar" => Some("Fr".into()),
                "Message" | "Key" | "Output" => Some(format!("{}::{}", base, name)),
                _ => None,
            },
            Kind::Ip => match name {
                "LeftMessage" | "RightMessage" | "Output" => Some(format!("{}::{}", base, name)),
                _ => None,
            },
            _ => None,
        }
    }

    pub fn args(&self, outer: &str, a: &PathArguments) -> R<String> {
        if let PathArguments::AngleBracketed(ab) = a {
            let mut v = vec![];
            for (k, g) in ab.args.iter().enumerate() {
                match g {
                    GenericArgument::Type(t) => {
                        if let Type::Path(tp) = t {
                            if tp.qself.is_none() {
                                if let Some(id) = tp.path.get_ident() {
                                    if self.dropped(&id.to_string()) && outer != "PhantomData" && !matches!(self.kinds.get(&id.to_string()), Some(Kind::Field)) {
                                        continue;
                                    }
                                    if self.dropped(&id.to_string()) && outer == "PhantomData" {
                                        v.push("()".to_string());
                                        continue;
                                    }
                                }
                            }
                        }
                        let s = self.ty(t)?;
                        if s == "Fr" && (fr_drop(outer, k) || (outer != "Vec" && outer != "Option" && outer != "Result" && outer != "MulAssign" && outer != "Add" && outer != "collect" && self.fn_field_generic(outer))) {
                            continue;
                        }
                        v.push(s);
                    }
                    GenericArgument::Lifetime(_) => {}
                    _ => return Err("generic argument".into()),
                }
            }
            if v.is_empty() { Ok(String::new()) } else { Ok(format!("<{}>", v.join(", "))) }
        } else {
            Ok(String::new())
        }
    }

    /// functions generic over a field only (their field argument is dropped with the generic)
    fn fn_field_generic(&self, outer: &str) -> bool {
        matches!(
            outer,
            "structured_scalar_power" | "polynomial_evaluation_product_form_from_transcript" | "polynomial_coefficients_from_transcript"
        )
    }

    /// Path to text; `expr` adds turbofish separators.
    pub fn path(&self, qself: &Option<QSelf>, p: &Path, expr: bool) -> R<String> {
        let segs: Vec<&PathSegment> = p.segments.iter().collect();
        let mut out: Vec<String> = vec![];
        let mut k = 0;
        if let Some(q) = qself {
            k = q.position;
            let base_id = if let Type::Path(tp) = &*q.ty { tp.path.get_ident().map(|i| i.to_string()) } else { None };
            let mut done = false;
            let base = match (&base_id, segs.get(k)) {
                (Some(b), Some(s)) if self.map_assoc(b, &s.ident.to_string()).is_some() => String::new(),
                (Some(b), _) if self.kinds.get(b) == Some(&Kind::Pairing) => "Pair".to_string(),
                (Some(b), _) if self.kinds.get(b) == Some(&Kind::Digest) => "Dig".to_string(),
                _ => self.ty(&q.ty)?,
            };
            if let (Some(b), Some(s)) = (base_id, segs.get(k)) {
                if let Some(m) = self.map_assoc(&b, &s.ident.to_string()) {
                    out.push(m);
                    k += 1;
                    done = true;
                }
            }
            if !done {
                if q.position > 0 && !["G1", "G2", "Fr", "GT"].contains(&base.as_str()) {
                    // <T as Trait>::x
                    let tr: Vec<String> = segs[..q.position].iter().map(|s| self.rename(&s.ident.to_string())).collect();
                    out.push(format!("<{} as {}>", base, tr.join("::")));
                } else if base.contains('<') {
                    out.push(format!("<{}>", base));
                } else {
                    out.push(base);
                }
            }
        } else {
            let first = segs[0].ident.to_string();
            if self.kinds.contains_key(&first) {
                if segs.len() > 1 {
                    if let Some(m) = self.map_assoc(&first, &segs[1].ident.to_string()) {
                        out.push(m);
                        k = 2;
                    } else {
                        match self.kinds[&first] {
                            Kind::Pairing => out.push("Pair".into()),
                            Kind::Digest => out.push("Dig".into()),
                            Kind::Field => out.push("Fr".into()),
                            _ => out.push(first.clone()),
                        }
                        k = 1;
                    }
                } else {
                    match self.kinds[&first] {
                        Kind::Field => out.push("Fr".into()),
                        Kind::Pairing | Kind::Digest => return Err(format!("bare generic {}", first)),
                        _ => out.push(first.clone()),
                    }
                    k = 1;
                }
            } else if segs.len() > 1 && ["std", "ark_std", "ark_ff", "ark_ec", "ark_poly", "rayon", "crate", "super", "self", "core"].contains(&first.as_str()) {
                // keep the last two segments if the one before last is a type
                k = segs.len() - 1;
                if segs.len() > 1 {
                    let pv = segs[segs.len() - 2].ident.to_string();
                    if pv.chars().next().unwrap().is_uppercase() {
                        k = segs.len() - 2;
                    }
                }
            }
        }
        while k < segs.len() {
            let s = segs[k];
            let n = self.rename(&s.ident.to_string());
            let a = self.args(&n, &s.arguments)?;
            if a.is_empty() {
                out.push(n);
            } else if expr {
                out.push(format!("{}::{}", n, a));
            } else {
                out.push(format!("{}{}", n, a));
            }
            k += 1;
        }
        // <Fr>::MODULUS_BIT_SIZE and similar associated constants become functions
        Ok(out.join("::"))
    }

    pub fn ty(&self, t: &Type) -> R<String> {
        match t {
            Type::Path(p) => {
                let last = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if last == "PhantomData" {
                    if let PathArguments::AngleBracketed(ab) = &p.path.segments.last().unwrap().arguments {
                        if let Some(GenericArgument::Type(Type::BareFn(f))) = ab.args.first() {
                            if let ReturnType::Type(_, t) = &f.output {
                                return Ok(format!("PhantomData<{}>", self.ty(t)?));
                            }
                        }
                    }
                }
                if last == "GenericArray" {
                    return Ok("DigestOut".into());
                }
                self.path(&p.qself, &p.path, false)
            }
            Type::Reference(r) => Ok(format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, self.ty(&r.elem)?)),
            Type::Slice(s) => Ok(format!("[{}]", self.ty(&s.elem)?)),
            Type::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.ty(x)).collect();
                let v = v?;
                Ok(if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) })
            }
            Type::Infer(_) => Ok("_".into()),
            Type::Paren(p) => self.ty(&p.elem),
            Type::Group(p) => self.ty(&p.elem),
            Type::Never(_) => Ok("!".into()),
            _ => Err("unsupported type".to_string()),
        }
    }
}

/// type parameters used as the right operand of a `MulAssign` bound stand for the scalar field
fn mulassign_args(all: &BTreeMap<String, Vec<TypeParamBound>>) -> Vec<String> {
    let mut v = vec![];
    for bs in all.values() {
        for b in bs {
            if let TypeParamBound::Trait(t) = b {
                v.extend(mulassign_arg(&t.path));
            }
        }
    }
    v
}

pub fn mulassign_arg(p: &Path) -> Option<String> {
    let s = p.segments.last()?;
    if s.ident != "MulAssign" {
        return None;
    }
    if let PathArguments::AngleBracketed(a) = &s.arguments {
        if let Some(GenericArgument::Type(Type::Path(tp))) = a.args.first() {
            return tp.path.get_ident().map(|i| i.to_string());
        }
    }
    None
}
