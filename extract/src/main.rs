//! Mechanical extraction of the functions of /repo into the dialect accepted by Verus.
//! See DESIGN.md ("Extraction rules") for the complete list of what is rewritten and dropped.
mod lower;
mod types;

use std::collections::{BTreeMap, HashSet};
use std::fs;
use syn::*;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = quote::quote!(#a).to_string();
            t.contains("test") || t.contains("not (feature = \"parallel\")") || t.contains("not(feature")
        }
    })
}

fn main() {
    // usage: vp-extract <contracted-ids-file> <mod>=<file> ...
    let args: Vec<String> = std::env::args().collect();
    let contracted: HashSet<String> = fs::read_to_string(&args[1])
        .unwrap_or_default()
        .lines()
        .map(|s| s.trim().to_string())
        .filter(|s| !s.is_empty())
        .collect();
    let mut out = vec![];
    for spec in &args[2..] {
        let (m, f) = spec.split_once('=').unwrap();
        let src = match fs::read_to_string(f) {
            Ok(s) => s,
            Err(e) => {
                out.push(format!("{{\"mod\":{},\"kind\":\"file\",\"id\":{},\"error\":{}}}", js(m), js(m), js(&e.to_string())));
                continue;
            }
        };
        let file = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                out.push(format!("{{\"mod\":{},\"kind\":\"file\",\"id\":{},\"error\":{}}}", js(m), js(m), js(&e.to_string())));
                continue;
            }
        };
        let mut fx = FileCtx { module: m.to_string(), contracted: &contracted, local: BTreeMap::new() };
        fx.collect(&file);
        for it in &file.items {
            fx.item(it, &mut out);
        }
    }
    println!("[{}]", out.join(",\n"));
}

/// A function defined in the file that is not under contract: candidate for inlining.
#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
    pub generics: Vec<Generics>,
}

pub struct FileCtx<'a> {
    pub module: String,
    pub contracted: &'a HashSet<String>,
    pub local: BTreeMap<String, Helper>,
}

pub fn ty_last_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_last_ident(&r.elem),
        _ => "?".into(),
    }
}

impl<'a> FileCtx<'a> {
    fn collect(&mut self, f: &File) {
        for it in &f.items {
            match it {
                Item::Fn(x) if !is_test(&x.attrs) => {
                    let id = format!("{}::{}", self.module, x.sig.ident);
                    if !self.contracted.contains(&id) {
                        self.local.insert(
                            x.sig.ident.to_string(),
                            Helper { sig: x.sig.clone(), block: (*x.block).clone(), generics: vec![x.sig.generics.clone()] },
                        );
                    }
                }
                Item::Impl(i) if !is_test(&i.attrs) && i.trait_.is_none() => {
                    let t = ty_last_ident(&i.self_ty);
                    for ii in &i.items {
                        if let ImplItem::Fn(x) = ii {
                            let id = format!("{}::{}::{}", self.module, t, x.sig.ident);
                            if !self.contracted.contains(&id) {
                                self.local.insert(
                                    format!("{}::{}", t, x.sig.ident),
                                    Helper {
                                        sig: x.sig.clone(),
                                        block: x.block.clone(),
                                        generics: vec![i.generics.clone(), x.sig.generics.clone()],
                                    },
                                );
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn item(&self, it: &Item, out: &mut Vec<String>) {
        let m = &self.module;
        match it {
            Item::Fn(x) if !is_test(&x.attrs) => {
                let id = format!("{}::{}", m, x.sig.ident);
                out.push(self.func(&id, None, &[], &x.sig, &x.block, &x.vis));
            }
            Item::Struct(s) if !is_test(&s.attrs) => {
                let mut tc = types::TyCtx::new(m);
                tc.add_generics(&s.generics);
                tc.struct_params(&s.ident.to_string(), &s.generics);
                let r = tc.struct_item(s);
                let (text, err) = match r {
                    Ok(t) => (js(&t), "null".to_string()),
                    Err(e) => ("null".into(), js(&e)),
                };
                out.push(format!(
                    "{{\"mod\":{},\"kind\":\"struct\",\"id\":{},\"text\":{},\"error\":{}}}",
                    js(m), js(&format!("{}::{}", m, s.ident)), text, err
                ));
            }
            Item::Type(t) if !is_test(&t.attrs) => {
                let mut tc = types::TyCtx::new(m);
                tc.add_generics(&t.generics);
                tc.struct_params(&t.ident.to_string(), &t.generics);
                let r = tc.ty(&t.ty);
                let g = tc.print_generics(false);
                let (text, err) = match r {
                    Ok(x) => (js(&format!("pub type {}{} = {};", t.ident, g, x)), "null".to_string()),
                    Err(e) => ("null".into(), js(&e)),
                };
                out.push(format!(
                    "{{\"mod\":{},\"kind\":\"type\",\"id\":{},\"text\":{},\"error\":{}}}",
                    js(m), js(&format!("{}::{}", m, t.ident)), text, err
                ));
            }
            Item::Impl(i) if !is_test(&i.attrs) => {
                let t = ty_last_ident(&i.self_ty);
                match &i.trait_ {
                    None => {
                        for ii in &i.items {
                            if let ImplItem::Fn(x) = ii {
                                let id = format!("{}::{}::{}", m, t, x.sig.ident);
                                out.push(self.func(&id, Some(i), &[], &x.sig, &x.block, &x.vis));
                            }
                        }
                    }
                    Some((_, tp, _)) => {
                        let trn = tp.segments.last().unwrap().ident.to_string();
                        if trn == "Display" || trn == "ErrorTrait" || trn == "Error" {
                            return;
                        }
                        let mut assoc = vec![];
                        let mut tc = types::TyCtx::new(m);
                        tc.add_generics(&i.generics);
                        tc.note_impl(i);
                        let mut err: Option<String> = None;
                        for ii in &i.items {
                            if let ImplItem::Type(at) = ii {
                                match tc.ty(&at.ty) {
                                    Ok(s) => assoc.push((at.ident.to_string(), s)),
                                    Err(e) => err = Some(e),
                                }
                            }
                        }
                        let assoc_s: Vec<String> = assoc.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect();
                        let hdr = tc.impl_header(i);
                        let (h, e2) = match hdr {
                            Ok(h) => (js(&h), None),
                            Err(e) => ("null".to_string(), Some(e)),
                        };
                        let e = err.or(e2).map(|s| js(&s)).unwrap_or("null".into());
                        out.push(format!(
                            "{{\"mod\":{},\"kind\":\"trait_impl\",\"id\":{},\"trait\":{},\"self\":{},\"header\":{},\"assoc\":[{}],\"error\":{}}}",
                            js(m), js(&format!("{}::{}::<{}>", m, t, trn)), js(&trn), js(&t), h, assoc_s.join(","), e
                        ));
                        for ii in &i.items {
                            if let ImplItem::Fn(x) = ii {
                                let id = format!("{}::{}::<{}>::{}", m, t, trn, x.sig.ident);
                                out.push(self.func(&id, Some(i), &[], &x.sig, &x.block, &Visibility::Inherited));
                            }
                        }
                    }
                }
            }
            Item::Trait(t) => {
                for ii in &t.items {
                    if let TraitItem::Fn(x) = ii {
                        if let Some(b) = &x.default {
                            let id = format!("{}::{}::{}", m, t.ident, x.sig.ident);
                            out.push(self.func(&id, None, &[], &x.sig, b, &Visibility::Inherited));
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn func(&self, id: &str, imp: Option<&ItemImpl>, _x: &[String], sig: &Signature, block: &Block, _vis: &Visibility) -> String {
        let mut tc = types::TyCtx::new(&self.module);
        if let Some(i) = imp {
            tc.add_generics(&i.generics);
            tc.note_impl(i);
            tc.self_name = ty_last_ident(&i.self_ty);
        }
        let impl_hdr = match imp {
            Some(i) => match tc.impl_header(i) {
                Ok(h) => js(&h),
                Err(e) => format!("null,\"header_error\":{}", js(&e)),
            },
            None => "null".into(),
        };
        let mut ftc = tc.clone();
        ftc.fresh_own();
        ftc.add_generics(&sig.generics);
        let fg = ftc.print_generics(true);
        let mut params = vec![];
        let mut err: Option<String> = None;
        let mut lw = lower::Lower::new(self, ftc.clone());
        let mut prologue = vec![];
        for (k, a) in sig.inputs.iter().enumerate() {
            match a {
                FnArg::Receiver(r) => {
                    params.push(if r.reference.is_some() {
                        if r.mutability.is_some() { "&mut self".into() } else { "&self".to_string() }
                    } else {
                        "self".to_string()
                    });
                }
                FnArg::Typed(pt) => {
                    let t = match ftc.ty(&pt.ty) {
                        Ok(t) => t,
                        Err(e) => {
                            err = Some(e);
                            "()".into()
                        }
                    };
                    match &*pt.pat {
                        Pat::Ident(pi) => {
                            lw.note_param(&pi.ident.to_string(), &pt.ty);
                            params.push(format!("{}{}: {}", if pi.mutability.is_some() { "mut " } else { "" }, pi.ident, t));
                        }
                        p => {
                            let nm = format!("arg{}", k);
                            match lw.pat(p) {
                                Ok(ps) => prologue.push(format!("let {} = {};", ps, nm)),
                                Err(e) => err = Some(e),
                            }
                            params.push(format!("{}: {}", nm, t));
                        }
                    }
                }
            }
        }
        let ret = match &sig.output {
            ReturnType::Default => "()".to_string(),
            ReturnType::Type(_, t) => match ftc.ty(t) {
                Ok(t) => t,
                Err(e) => {
                    err = Some(e);
                    "()".into()
                }
            },
        };
        let body = lw.fn_body(block, &ret, &prologue);
        let (b, e) = match body {
            Ok(b) => (js(&b), err),
            Err(e) => ("null".into(), Some(e)),
        };
        let pj: Vec<String> = params.iter().map(|p| js(p)).collect();
        let lj: Vec<String> = lw.loops.iter().map(|p| js(p)).collect();
        let ij: Vec<String> = lw.inlined.iter().map(|p| js(p)).collect();
        format!(
            "{{\"mod\":{},\"kind\":\"fn\",\"id\":{},\"header\":{},\"name\":{},\"generics\":{},\"params\":[{}],\"ret\":{},\"body\":{},\"loops\":[{}],\"inlined\":[{}],\"error\":{}}}",
            js(&self.module), js(id), impl_hdr, js(&sig.ident.to_string()), js(&fg), pj.join(","), js(&ret), b, lj.join(","), ij.join(","),
            e.map(|s| js(&s)).unwrap_or("null".into())
        )
    }
}
