//! Statements and expressions.
use crate::types::*;
use crate::{FileCtx, Helper};
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::punctuated::Punctuated;
use syn::*;

type R<T> = std::result::Result<T, String>;

#[derive(Clone)]
enum MapF {
    Closure(ExprClosure),
    Path(String),
}

#[derive(Clone)]
enum Ch {
    Src { var: String, byval: bool },
    Mut { place: String },
    Range { lo: String, hi: String },
    Chunks { var: String, size: String, n: String },
    Zip(Box<Ch>, Box<Ch>),
    Map(Box<Ch>, MapF),
    Enumerate(Box<Ch>),
    Rev(Box<Ch>, String),
    Skip(Box<Ch>, String),
    Take(Box<Ch>, String),
    StepBy(Box<Ch>, String),
    Then(Box<Ch>, String, Box<Ch>),
    Cycle(Box<Ch>, String),
    Interleave(Box<Ch>, String, Box<Ch>, String),
    Cloned(Box<Ch>),
}

#[derive(Clone)]
enum Elem {
    Tuple(Vec<Elem>),
    Ref(String),
    Val(String),
}

struct Brk {
    label: Option<String>,
    var: Option<String>,
    out: String,
}

pub struct Lower<'a> {
    fx: &'a FileCtx<'a>,
    tc: TyCtx,
    pub loops: Vec<String>,
    pub inlined: Vec<String>,
    names: HashMap<String, usize>,
    owned: HashSet<String>,
    chains: HashMap<String, (Ch, Option<String>)>,
    cursors: HashMap<String, (Ch, Option<String>)>,
    closures: HashMap<String, ExprClosure>,
    derefs: HashSet<String>,
    pre: Vec<Vec<String>>,
    breaks: Vec<Brk>,
    dest: Option<String>,
    tmp: usize,
    depth: usize,
    try_ctx: bool,
}

fn is_timer(m: &Macro) -> bool {
    let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    matches!(n.as_str(), "start_timer" | "end_timer" | "add_to_trace" | "println" | "eprintln" | "dbg")
}

fn mname(m: &Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}

fn path_ident(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

/// a place expression (borrowing it does not create a temporary)
fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Index(i) => is_place(&i.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Reference(r) => is_place(&r.expr),
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "as_slice" | "as_ref") && is_place(&m.receiver),
        _ => false,
    }
}

fn has_break_value(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_expr_break(&mut self, i: &'ast ExprBreak) {
            if i.expr.is_some() {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

fn has_return(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

fn has_try(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

impl<'a> Lower<'a> {
    pub fn new(fx: &'a FileCtx<'a>, tc: TyCtx) -> Self {
        Lower {
            fx,
            tc,
            loops: vec![],
            inlined: vec![],
            names: HashMap::new(),
            owned: HashSet::new(),
            chains: HashMap::new(),
            cursors: HashMap::new(),
            closures: HashMap::new(),
            derefs: HashSet::new(),
            pre: vec![],
            breaks: vec![],
            dest: None,
            tmp: 0,
            depth: 0,
            try_ctx: false,
        }
    }

    pub fn note_param(&mut self, n: &str, t: &Type) {
        if let Type::Path(p) = t {
            if p.path.segments.last().map(|s| s.ident == "Vec").unwrap_or(false) {
                self.owned.insert(n.into());
            }
        }
    }

    fn fresh(&mut self, p: &str) -> String {
        self.tmp += 1;
        format!("{}_{}", p, self.tmp)
    }

    fn loop_name(&mut self, kind: &str) -> String {
        let base = self.dest.take().unwrap_or(kind.to_string());
        let c = self.names.entry(base.clone()).or_insert(0);
        *c += 1;
        let n = if *c == 1 { base } else { format!("{}_{}", base, c) };
        self.loops.push(n.clone());
        n
    }

    // ---------------------------------------------------------------- patterns
    pub fn pat(&mut self, p: &Pat) -> R<String> {
        Ok(match p {
            Pat::Ident(i) => {
                if i.subpat.is_some() {
                    return Err("@ pattern".into());
                }
                let n = i.ident.to_string();
                if n == "None" {
                    return Ok(n);
                }
                format!("{}{}{}", if i.by_ref.is_some() { "ref " } else { "" }, if i.mutability.is_some() { "mut " } else { "" }, n)
            }
            Pat::Wild(_) => "_".into(),
            Pat::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.pat(x)).collect();
                format!("({})", v?.join(", "))
            }
            Pat::TupleStruct(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.pat(x)).collect();
                format!("{}({})", self.tc.path(&None, &t.path, true)?, v?.join(", "))
            }
            Pat::Reference(r) => format!("&{}", self.pat(&r.pat)?),
            Pat::Paren(p) => self.pat(&p.pat)?,
            Pat::Type(t) => self.pat(&t.pat)?,
            Pat::Lit(l) => l.to_token_stream().to_string(),
            Pat::Path(p) => self.tc.path(&None, &p.path, true)?,
            _ => return Err("unsupported pattern".into()),
        })
    }

    fn bind(&mut self, p: &Pat, e: Elem, out: &mut Vec<String>) -> R<()> {
        match (p, e) {
            (Pat::Paren(p), e) => self.bind(&p.pat, e, out),
            (Pat::Type(p), e) => self.bind(&p.pat, e, out),
            (Pat::Wild(_), Elem::Val(v)) => {
                // evaluate for its panics/obligations only when it is not a plain place
                if v.contains('(') || v.contains('[') {
                    out.push(format!("let _ = {};", v));
                }
                Ok(())
            }
            (Pat::Wild(_), _) => Ok(()),
            (Pat::Tuple(t), Elem::Tuple(es)) => {
                if t.elems.len() != es.len() {
                    return Err("tuple arity".into());
                }
                for (p, e) in t.elems.iter().zip(es) {
                    self.bind(p, e, out)?;
                }
                Ok(())
            }
            (Pat::Tuple(t), Elem::Ref(place)) => {
                for (k, p) in t.elems.iter().enumerate() {
                    self.bind(p, Elem::Ref(format!("{}.{}", place, k)), out)?;
                }
                Ok(())
            }
            (Pat::Reference(r), Elem::Ref(place)) => self.bind(&r.pat, Elem::Val(place), out),
            (Pat::Reference(r), Elem::Tuple(es)) => self.bind(&r.pat, Elem::Tuple(es), out),
            (p, e) => {
                let ps = self.pat(p)?;
                let es = Self::elem_expr(&e);
                out.push(format!("let {} = {};", ps, es));
                Ok(())
            }
        }
    }

    fn elem_expr(e: &Elem) -> String {
        match e {
            Elem::Ref(p) => format!("&{}", p),
            Elem::Val(v) => v.clone(),
            Elem::Tuple(v) => format!("({})", v.iter().map(Self::elem_expr).collect::<Vec<_>>().join(", ")),
        }
    }

    // ---------------------------------------------------------------- functions and blocks
    pub fn fn_body(&mut self, b: &Block, ret: &str, prologue: &[String]) -> R<String> {
        let mut o = String::from("{\n");
        for p in prologue {
            o.push_str(p);
            o.push('\n');
        }
        o.push_str("//@fn_start\n");
        self.stmts(b, &mut o, Some(ret))?;
        o.push_str("}\n");
        Ok(o)
    }

    fn block(&mut self, b: &Block) -> R<String> {
        let mut o = String::from("{\n");
        self.stmts(b, &mut o, None)?;
        o.push('}');
        Ok(o)
    }

    fn stmts(&mut self, b: &Block, o: &mut String, fn_ret: Option<&str>) -> R<()> {
        let n = b.stmts.len();
        let mut had_tail = false;
        for (k, s) in b.stmts.iter().enumerate() {
            let last = k + 1 == n;
            match s {
                Stmt::Local(l) => self.local(l, o)?,
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(Item::Const(c)) => {
                    let ty = self.tc.ty(&c.ty)?;
                    let v = self.value(&c.expr)?;
                    o.push_str(&format!("let {}: {} = {};\n", c.ident, ty, v));
                }
                Stmt::Item(_) => return Err("nested item".into()),
                Stmt::Macro(m) => {
                    if is_timer(&m.mac) {
                        continue;
                    }
                    let e = self.mac(&m.mac)?;
                    o.push_str(&format!("{};\n", e));
                }
                Stmt::Expr(e, semi) => {
                    if crate_cfg_off(e) {
                        continue;
                    }
                    if let Expr::Macro(m) = e {
                        if is_timer(&m.mac) {
                            continue;
                        }
                    }
                    let value = last && semi.is_none();
                    if value {
                        if let Some(ret) = fn_ret {
                            had_tail = true;
                            if matches!(e, Expr::Return(_)) || ret == "()" {
                                let s = self.stmt_expr(e)?;
                                o.push_str(&s);
                                o.push_str("\n");
                                if ret == "()" {
                                    o.push_str(";\n//@fn_end\n");
                                }
                            } else {
                                self.dest = Some("ret".into());
                                let s = self.ex(e)?;
                                self.dest = None;
                                o.push_str(&format!("let r__: {} = {};\n//@fn_end\nr__\n", ret, s));
                            }
                        } else {
                            let s = self.ex(e)?;
                            o.push_str(&s);
                            o.push('\n');
                        }
                    } else {
                        let s = self.stmt_expr(e)?;
                        o.push_str(&s);
                        o.push('\n');
                    }
                }
            }
        }
        if fn_ret.is_some() && !had_tail {
            o.push_str("//@fn_end\n");
        }
        Ok(())
    }

    fn stmt_expr(&mut self, e: &Expr) -> R<String> {
        match e {
            Expr::Assign(a) => {
                let r = strip(&a.right);
                match strip(&a.left) {
                    Expr::Tuple(t) => {
                        let tmp = self.fresh("vp_t");
                        let v = self.ex(r)?;
                        let mut s = format!("let {} = {};\n", tmp, v);
                        for (k, x) in t.elems.iter().enumerate() {
                            if matches!(x, Expr::Infer(_)) {
                                continue;
                            }
                            let l = self.ex(x)?;
                            s.push_str(&format!("{} = {}.{};\n", l, tmp, k));
                        }
                        Ok(s)
                    }
                    Expr::Index(i) => {
                        let v = self.ex(r)?;
                        let b = self.atom(&i.expr)?;
                        let ix = self.ex(&i.index)?;
                        Ok(format!("{}.set({}, {});", b, ix, v))
                    }
                    l => {
                        let name = path_ident(l);
                        if let Expr::Loop(lp) = r {
                            if has_break_value(&lp.body) {
                                self.dest = name.clone();
                                let (s, v) = self.loop_value(lp)?;
                                let l = self.ex(l)?;
                                return Ok(format!("{}{} = {};", s, l, v));
                            }
                        }
                        self.dest = name.clone();
                        let v = self.ex(r)?;
                        self.dest = None;
                        let l = self.ex(l)?;
                        let mk = name.map(|n| format!("\n//@assign {}", n)).unwrap_or_default();
                        Ok(format!("{} = {};{}", l, v, mk))
                    }
                }
            }
            Expr::Binary(b) if is_assign_op(&b.op) => {
                let r = self.ex(&b.right)?;
                if matches!(b.op, BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_)) && !is_bits(&b.right) {
                    let f = if matches!(b.op, BinOp::BitAndAssign(_)) { "vp_band" } else { "vp_bor" };
                    let l = self.ex(&b.left)?;
                    return Ok(format!("{} = {}({}, {});", l, f, l, r));
                }
                let op = b.op.to_token_stream().to_string();
                if let Expr::Index(i) = strip(&b.left) {
                    let base = self.atom(&i.expr)?;
                    let ix = self.ex(&i.index)?;
                    let t = self.fresh("vp_t");
                    return Ok(format!("let mut {t} = {base}[{ix}];\n{t} {op} {r};\n{base}.set({ix}, {t});"));
                }
                let l = self.ex(&b.left)?;
                let mk = path_ident(&b.left).map(|n| format!("\n//@assign {}", n)).unwrap_or_default();
                Ok(format!("{} {} {};{}", l, op, r, mk))
            }
            Expr::If(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Block(_) | Expr::Match(_) => {
                let s = self.ex(e)?;
                Ok(s)
            }
            Expr::Loop(l) => {
                if has_break_value(&l.body) {
                    let (s, _) = self.loop_value(l)?;
                    Ok(s)
                } else {
                    self.ex(e)
                }
            }
            _ => {
                let s = self.ex(e)?;
                Ok(format!("{};", s))
            }
        }
    }

    fn looks_like_chain(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                matches!(n.as_str(), "iter" | "par_iter" | "into_iter" | "into_par_iter" | "chunks" | "par_chunks" | "iter_mut" | "par_iter_mut" | "chunks_exact")
                    && !(m.args.is_empty() && n.contains("chunks"))
                    || matches!(n.as_str(), "zip" | "map" | "enumerate" | "rev" | "skip" | "take" | "step_by" | "chain" | "cycle" | "interleave" | "cloned" | "copied")
                        && (self.looks_like_chain(&m.receiver) || matches!(strip(&m.receiver), Expr::Range(_)))
            }
            Expr::Macro(m) => matches!(mname(&m.mac).as_str(), "cfg_iter" | "cfg_into_iter" | "cfg_chunks" | "cfg_iter_mut"),
            Expr::Path(_) => path_ident(e).map(|n| self.chains.contains_key(&n)).unwrap_or(false),
            _ => false,
        }
    }

    fn local(&mut self, l: &Local, o: &mut String) -> R<()> {
        if l.attrs.iter().any(|a| cfg_off(a)) {
            return Ok(());
        }
        let init = match &l.init {
            None => {
                let p = self.pat(&l.pat)?;
                let t = self.pat_ty(&l.pat)?;
                o.push_str(&format!("let {}{};\n", p, t));
                return Ok(());
            }
            Some(i) => {
                if i.diverge.is_some() {
                    return Err("let-else".into());
                }
                strip(&i.expr)
            }
        };
        if let Expr::Macro(m) = init {
            if is_timer(&m.mac) {
                return Ok(());
            }
        }
        let inner = match &l.pat {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        let name = if let Pat::Ident(i) = inner { Some(i.ident.to_string()) } else { None };
        if let Expr::Closure(c) = init {
            if let Some(n) = &name {
                self.closures.insert(n.clone(), c.clone());
                return Ok(());
            }
        }
        // tuples of iterators are split
        if let (Pat::Tuple(pt), Expr::Tuple(et)) = (inner, init) {
            if et.elems.iter().any(|e| self.looks_like_chain(e)) && pt.elems.len() == et.elems.len() {
                for (p, e) in pt.elems.iter().zip(et.elems.iter()) {
                    self.local_one(p, e, "", o)?;
                }
                return Ok(());
            }
        }
        if let Expr::Loop(lp) = init {
            if has_break_value(&lp.body) {
                self.dest = name.clone();
                let (s, v) = self.loop_value(lp)?;
                o.push_str(&s);
                let p = self.pat(inner)?;
                let t = self.pat_ty(&l.pat)?;
                o.push_str(&format!("let {}{} = {};\n", p, t, v));
                self.mark_let(inner, o);
                return Ok(());
            }
        }
        let t = self.pat_ty(&l.pat)?;
        self.local_one(inner, init, &t, o)
    }

    fn local_one(&mut self, p: &Pat, e: &Expr, t: &str, o: &mut String) -> R<()> {
        let name = if let Pat::Ident(i) = p { Some(i.ident.to_string()) } else { None };
        let mut now_owned = false;
        if let Some(n) = &name {
            self.chains.remove(n);
            self.cursors.remove(n);
            self.closures.remove(n);
            if self.looks_like_chain(e) {
                self.pre.push(vec![]);
                let c = self.chain(e)?;
                let len = self.len(&c)?;
                let pre = self.pre.pop().unwrap();
                for s in pre {
                    o.push_str(&s);
                    o.push('\n');
                }
                self.owned.remove(n);
                if let Pat::Ident(i) = p {
                    if i.mutability.is_some() {
                        let ln = len.clone().ok_or("infinite cursor")?;
                        o.push_str(&format!("let n_{n}: usize = {ln};\nlet mut pos_{n}: usize = 0;\n//@let {n}\n"));
                        self.cursors.insert(n.clone(), (c, len));
                        return Ok(());
                    }
                }
                self.chains.insert(n.clone(), (c, len));
                return Ok(());
            }
            // the initializer is lowered before the new binding shadows an older one
            now_owned = self.makes_vec(e) || t.starts_with(": Vec");
        }
        self.dest = name.clone();
        let s = self.ex(e)?;
        self.dest = None;
        if let Some(n) = &name {
            self.owned.remove(n);
            if now_owned {
                self.owned.insert(n.clone());
            }
        }
        let ps = self.pat(p)?;
        o.push_str(&format!("let {}{} = {};\n", ps, t, s));
        self.mark_let(p, o);
        Ok(())
    }

    fn mark_let(&self, p: &Pat, o: &mut String) {
        let mut v = vec![];
        fn ids(p: &Pat, v: &mut Vec<String>) {
            match p {
                Pat::Ident(i) => v.push(i.ident.to_string()),
                Pat::Tuple(t) => t.elems.iter().for_each(|x| ids(x, v)),
                Pat::Type(t) => ids(&t.pat, v),
                _ => {}
            }
        }
        ids(p, &mut v);
        if !v.is_empty() {
            o.push_str(&format!("//@let {}\n", v.join(",")));
        }
    }

    fn makes_vec(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Macro(m) => mname(&m.mac) == "vec",
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "collect" | "to_vec" => true,
                "clone" => path_ident(&m.receiver).map(|n| self.owned.contains(&n)).unwrap_or(false),
                _ => false,
            },
            Expr::Try(t) => self.makes_vec(&t.expr),
            Expr::Call(c) => {
                let s = c.func.to_token_stream().to_string().replace(' ', "");
                s.starts_with("Vec::") || s.ends_with("normalize_batch") || s.ends_with("structured_scalar_power") || s.ends_with("structured_generators_scalar_power")
            }
            Expr::Path(_) => path_ident(e).map(|n| self.owned.contains(&n)).unwrap_or(false),
            _ => false,
        }
    }

    fn pat_ty(&mut self, p: &Pat) -> R<String> {
        if let Pat::Type(t) = p {
            let s = self.tc.ty(&t.ty)?;
            Ok(format!(": {}", s))
        } else {
            Ok(String::new())
        }
    }

    // ---------------------------------------------------------------- loops
    fn loop_value(&mut self, l: &ExprLoop) -> R<(String, String)> {
        let name = self.loop_name("loop");
        let var = format!("brk_{}", name);
        self.breaks.push(Brk { label: l.label.as_ref().map(|l| l.name.ident.to_string()), var: Some(var.clone()), out: format!("'l_{}", name) });
        let b = self.block(&l.body)?;
        self.breaks.pop();
        let body = self.mark_body(&name, b);
        Ok((
            format!("let {var};\n//@before_loop {name}\n'l_{name}: loop\n//@inv {name}\n{body}\n//@after_loop {name}\n"),
            var,
        ))
    }

    fn mark_body(&self, name: &str, b: String) -> String {
        // b starts with "{\n"
        let inner = &b[1..b.len() - 1];
        format!("{{\n//@body_start {name}\n{inner}\n//@body_end {name}\n}}")
    }

    fn plain_loop(&mut self, label: Option<String>, body: &Block, head: &str, name: String) -> R<String> {
        self.breaks.push(Brk { label, var: None, out: format!("'l_{}", name) });
        let b = self.block(body)?;
        self.breaks.pop();
        let b = self.mark_body(&name, b);
        Ok(format!("//@before_loop {name}\n'l_{name}: {head}\n//@inv {name}\n{b}\n//@after_loop {name}\n"))
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> R<String> {
        let saved = self.dest.take();
        self.pre.push(vec![]);
        let c = self.iterable(&f.expr)?;
        let n = self.len(&c)?.ok_or("infinite for loop")?;
        let pre = self.pre.pop().unwrap();
        self.dest = Some("for".into());
        let name = self.loop_name("for");
        let ix = format!("ix_{}", name);
        let mut binds = vec![];
        let mutp = self.bind_elem(&c, &ix, &f.pat, &mut binds)?;
        self.breaks.push(Brk { label: f.label.as_ref().map(|l| l.name.ident.to_string()), var: None, out: format!("'l_{}", name) });
        let b = self.block(&f.body)?;
        self.breaks.pop();
        self.dest = saved;
        let inner = &b[1..b.len() - 1];
        Ok(self.emit_loop(&name, &pre, &n, &binds, inner, "", "", &mutp))
    }

    fn emit_loop(&self, name: &str, pre: &[String], n: &str, binds: &[String], body: &str, init: &str, result: &str, post: &str) -> String {
        let pre = pre.join("\n");
        let binds = binds.join("\n");
        format!(
            "{{\n{pre}\nlet n_{name}: usize = {n};\n{init}\nlet mut i_{name}: usize = 0;\n//@before_loop {name}\n'l_{name}: while i_{name} < n_{name}\n//@inv {name}\n{{\nlet ix_{name}: usize = i_{name};\ni_{name} = i_{name} + 1;\n//@bind {name}\n{binds}\n//@body_start {name}\n{body}\n{post}\n//@body_end {name}\n}}\n//@after_loop {name}\n{result}}}"
        )
    }

    /// Binds the loop element; returns the write-back text for iter_mut sources.
    fn bind_elem(&mut self, c: &Ch, ix: &str, p: &Pat, binds: &mut Vec<String>) -> R<String> {
        if let Ch::Mut { place } = c {
            let n = match p {
                Pat::Ident(i) => i.ident.to_string(),
                _ => return Err("iter_mut pattern".into()),
            };
            self.derefs.insert(n.clone());
            binds.push(format!("let mut {n} = {place}[{ix}].clone();"));
            return Ok(format!("{place}.set({ix}, {n});"));
        }
        let e = self.elem(c, ix)?;
        self.bind(p, e, binds)?;
        Ok(String::new())
    }

    // ---------------------------------------------------------------- iterator chains
    fn push_pre(&mut self, s: String) -> R<()> {
        self.pre.last_mut().ok_or("no pre context")?.push(s);
        Ok(())
    }

    fn source(&mut self, e: &Expr, byval: bool) -> R<Ch> {
        let v = self.fresh("s");
        let d = self.dest.take();
        let x = self.atom(e)?;
        self.dest = d;
        if byval {
            self.push_pre(format!("let {} = {};", v, x))?;
        } else {
            if is_place(e) {
                self.push_pre(format!("let {} = {}.as_sl();", v, x))?;
            } else {
                let t = self.fresh("t");
                self.push_pre(format!("let {} = {};\nlet {} = {}.as_sl();", t, x, v, t))?;
            }
        }
        Ok(Ch::Src { var: v, byval })
    }

    fn num(&mut self, e: &Expr) -> R<String> {
        let v = self.fresh("k");
        let d = self.dest.take();
        let x = self.ex(e)?;
        self.dest = d;
        self.push_pre(format!("let {}: usize = {};", v, x))?;
        Ok(v)
    }

    fn is_owned(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Path(_) => path_ident(e).map(|n| self.owned.contains(&n)).unwrap_or(false),
            e => self.makes_vec(e),
        }
    }

    /// an expression used where IntoIterator is expected
    fn iterable(&mut self, e: &Expr) -> R<Ch> {
        let e = strip(e);
        if self.looks_like_chain(e) {
            return self.chain(e);
        }
        match e {
            Expr::Range(_) => self.chain(e),
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    let p = self.atom(&r.expr)?;
                    return Ok(Ch::Mut { place: p });
                }
                self.source(&r.expr, false)
            }
            e => {
                let o = self.is_owned(e);
                self.source(e, o)
            }
        }
    }

    fn chain(&mut self, e: &Expr) -> R<Ch> {
        match strip(e) {
            Expr::Range(r) => {
                let lo = match &r.start {
                    Some(x) => self.ex(x)?,
                    None => return Err("open range".into()),
                };
                let hi = match &r.end {
                    Some(x) => self.ex(x)?,
                    None => return Err("open range".into()),
                };
                let hi = if matches!(r.limits, RangeLimits::Closed(_)) { format!("({}) + 1", hi) } else { hi };
                let a = self.fresh("lo");
                let b = self.fresh("hi");
                self.push_pre(format!("let {}: usize = {};\nlet {}: usize = {};", a, lo, b, hi))?;
                Ok(Ch::Range { lo: a, hi: b })
            }
            Expr::Path(_) => {
                let n = path_ident(e).ok_or("chain path")?;
                self.chains.get(&n).map(|x| x.0.clone()).ok_or(format!("not a chain: {}", n))
            }
            Expr::Macro(m) => {
                let n = mname(&m.mac);
                let args = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
                match n.as_str() {
                    "cfg_iter" => self.source(&args[0], false),
                    "cfg_into_iter" => {
                        let o = self.is_owned(&args[0]);
                        self.source(&args[0], o)
                    }
                    _ => Err(format!("macro source {}", n)),
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "par_iter" => self.source(&m.receiver, false),
                    "iter_mut" | "par_iter_mut" => {
                        let p = self.atom(&m.receiver)?;
                        Ok(Ch::Mut { place: p })
                    }
                    "into_iter" | "into_par_iter" => {
                        if matches!(strip(&m.receiver), Expr::Range(_)) || self.looks_like_chain(&m.receiver) {
                            return self.chain(&m.receiver);
                        }
                        let o = self.is_owned(&m.receiver);
                        self.source(&m.receiver, o)
                    }
                    "chunks" | "par_chunks" => {
                        let s = self.source(&m.receiver, false)?;
                        let var = if let Ch::Src { var, .. } = s { var } else { unreachable!() };
                        let size = self.num(&m.args[0])?;
                        let n = self.fresh("nc");
                        self.push_pre(format!("let {}: usize = chunk_count({}.len(), {});", n, var, size))?;
                        Ok(Ch::Chunks { var, size, n })
                    }
                    "zip" => {
                        let a = self.chain(&m.receiver)?;
                        let b = self.iterable(&m.args[0])?;
                        Ok(Ch::Zip(Box::new(a), Box::new(b)))
                    }
                    "map" => {
                        let a = self.chain(&m.receiver)?;
                        let f = match strip(&m.args[0]) {
                            Expr::Closure(c) => MapF::Closure(c.clone()),
                            Expr::Path(p) => {
                                if let Some(c) = path_ident(&m.args[0]).and_then(|n| self.closures.get(&n).cloned()) {
                                    MapF::Closure(c)
                                } else {
                                    let s = self.tc.path(&p.qself, &p.path, true)?;
                                    MapF::Path(fix_path(&s))
                                }
                            }
                            _ => return Err("map argument".into()),
                        };
                        Ok(Ch::Map(Box::new(a), f))
                    }
                    "enumerate" => Ok(Ch::Enumerate(Box::new(self.chain(&m.receiver)?))),
                    "cloned" | "copied" => Ok(Ch::Cloned(Box::new(self.chain(&m.receiver)?))),
                    "rev" => {
                        let a = self.chain(&m.receiver)?;
                        let n = self.len_var(&a)?.ok_or("rev of infinite")?;
                        Ok(Ch::Rev(Box::new(a), n))
                    }
                    "skip" => {
                        let a = self.chain(&m.receiver)?;
                        let k = self.num(&m.args[0])?;
                        Ok(Ch::Skip(Box::new(a), k))
                    }
                    "take" => {
                        let a = self.chain(&m.receiver)?;
                        let k = self.num(&m.args[0])?;
                        Ok(Ch::Take(Box::new(a), k))
                    }
                    "step_by" => {
                        let a = self.chain(&m.receiver)?;
                        let k = self.num(&m.args[0])?;
                        Ok(Ch::StepBy(Box::new(a), k))
                    }
                    "chain" => {
                        let a = self.chain(&m.receiver)?;
                        let n = self.len_var(&a)?.ok_or("chain after infinite")?;
                        let b = self.iterable(&m.args[0])?;
                        Ok(Ch::Then(Box::new(a), n, Box::new(b)))
                    }
                    "cycle" => {
                        let a = self.chain(&m.receiver)?;
                        let n = self.len_var(&a)?.ok_or("cycle of infinite")?;
                        Ok(Ch::Cycle(Box::new(a), n))
                    }
                    "interleave" => {
                        let a = self.chain(&m.receiver)?;
                        let na = self.len_var(&a)?.ok_or("interleave infinite")?;
                        let b = self.iterable(&m.args[0])?;
                        let nb = self.len_var(&b)?.ok_or("interleave infinite")?;
                        Ok(Ch::Interleave(Box::new(a), na, Box::new(b), nb))
                    }
                    _ => Err(format!("iterator method {}", n)),
                }
            }
            _ => Err("iterator source".into()),
        }
    }

    fn len_var(&mut self, c: &Ch) -> R<Option<String>> {
        match self.len(c)? {
            None => Ok(None),
            Some(s) => {
                let v = self.fresh("n");
                self.push_pre(format!("let {}: usize = {};", v, s))?;
                Ok(Some(v))
            }
        }
    }

    fn len(&mut self, c: &Ch) -> R<Option<String>> {
        Ok(match c {
            Ch::Src { var, .. } => Some(format!("{}.len()", var)),
            Ch::Mut { place } => Some(format!("{}.len()", place)),
            Ch::Range { lo, hi } => Some(format!("range_len({}, {})", lo, hi)),
            Ch::Chunks { n, .. } => Some(n.clone()),
            Ch::Zip(a, b) => match (self.len(a)?, self.len(b)?) {
                (Some(x), Some(y)) => Some(format!("min({}, {})", x, y)),
                (Some(x), None) | (None, Some(x)) => Some(x),
                _ => None,
            },
            Ch::Map(a, _) | Ch::Enumerate(a) | Ch::Cloned(a) => self.len(a)?,
            Ch::Rev(_, n) => Some(n.clone()),
            Ch::Skip(a, k) => self.len(a)?.map(|n| format!("sat_sub({}, {})", n, k)),
            Ch::Take(a, k) => match self.len(a)? {
                Some(n) => Some(format!("min({}, {})", n, k)),
                None => Some(k.clone()),
            },
            Ch::StepBy(a, k) => self.len(a)?.map(|n| format!("step_count({}, {})", n, k)),
            Ch::Then(_, n, b) => self.len(b)?.map(|m| format!("({} + {})", n, m)),
            Ch::Cycle(..) => None,
            Ch::Interleave(_, a, _, b) => Some(format!("({} + {})", a, b)),
        })
    }

    fn elem(&mut self, c: &Ch, ix: &str) -> R<Elem> {
        Ok(match c {
            Ch::Src { var, byval } => {
                if *byval {
                    Elem::Val(format!("{}[{}]", var, ix))
                } else {
                    Elem::Ref(format!("{}[{}]", var, ix))
                }
            }
            Ch::Mut { .. } => return Err("iter_mut in a chain".into()),
            Ch::Range { lo, .. } => Elem::Val(format!("({} + {})", lo, ix)),
            Ch::Chunks { var, size, .. } => Elem::Val(format!("chunk_at({}, {}, {})", var, size, ix)),
            Ch::Zip(a, b) => {
                let x = self.elem(a, ix)?;
                let y = self.elem(b, ix)?;
                Elem::Tuple(vec![x, y])
            }
            Ch::Map(a, f) => {
                let x = self.elem(a, ix)?;
                match f {
                    MapF::Path(p) => Elem::Val(format!("{}({})", p, Self::elem_expr(&x))),
                    MapF::Closure(c) => Elem::Val(self.inline_closure(&c.clone(), vec![x])?),
                }
            }
            Ch::Enumerate(a) => {
                let x = self.elem(a, ix)?;
                Elem::Tuple(vec![Elem::Val(ix.to_string()), x])
            }
            Ch::Cloned(a) => match self.elem(a, ix)? {
                Elem::Ref(p) => Elem::Val(format!("{}.clone()", p)),
                Elem::Val(v) => Elem::Val(format!("({}).clone()", v)),
                _ => return Err("cloned tuple".into()),
            },
            Ch::Rev(a, n) => self.elem(a, &format!("({} - 1 - {})", n, ix))?,
            Ch::Skip(a, k) => self.elem(a, &format!("({} + {})", ix, k))?,
            Ch::Take(a, _) => self.elem(a, ix)?,
            Ch::StepBy(a, k) => self.elem(a, &format!("({} * {})", ix, k))?,
            Ch::Then(a, n, b) => {
                let x = self.elem(a, ix)?;
                let y = self.elem(b, &format!("({} - {})", ix, n))?;
                Elem::Val(format!("(if {} < {} {{ {} }} else {{ {} }})", ix, n, Self::elem_expr(&x), Self::elem_expr(&y)))
            }
            Ch::Cycle(a, n) => self.elem(a, &format!("({} % {})", ix, n))?,
            Ch::Interleave(a, na, b, nb) => {
                let x = self.elem(a, &format!("interleave_pos({}, {}, {})", na, nb, ix))?;
                let y = self.elem(b, &format!("interleave_pos({}, {}, {})", na, nb, ix))?;
                Elem::Val(format!("(if interleave_first({}, {}, {}) {{ {} }} else {{ {} }})", na, nb, ix, Self::elem_expr(&x), Self::elem_expr(&y)))
            }
        })
    }

    fn inline_closure(&mut self, c: &ExprClosure, args: Vec<Elem>) -> R<String> {
        if c.inputs.len() != args.len() {
            return Err("closure arity".into());
        }
        let saved = self.dest.take();
        let mut b = vec![];
        for (p, a) in c.inputs.iter().zip(args) {
            self.bind(p, a, &mut b)?;
        }
        let body = match strip(&c.body) {
            Expr::Block(x) => {
                if has_return(&x.block) {
                    return Err("return in closure".into());
                }
                let s = self.block(&x.block)?;
                s[1..s.len() - 1].to_string()
            }
            e => self.ex(e)?,
        };
        self.dest = saved;
        Ok(format!("{{ {} {} }}", b.join(" "), body))
    }

    /// terminal operation on an iterator chain; `tried` is true when followed by `?`
    fn terminal(&mut self, m: &ExprMethodCall, tried: bool) -> R<Option<String>> {
        let n = m.method.to_string();
        if !matches!(n.as_str(), "collect" | "sum" | "product" | "fold" | "reduce" | "for_each" | "all" | "any") {
            return Ok(None);
        }
        let rcv = strip(&m.receiver);
        if !(self.looks_like_chain(rcv) || matches!(rcv, Expr::Range(_))) {
            return Ok(None);
        }
        let dest = self.dest.take();
        self.pre.push(vec![]);
        let c = self.chain(rcv)?;
        let len = self.len(&c)?.ok_or("infinite iterator consumed")?;
        let pre = self.pre.pop().unwrap();
        self.dest = dest;
        let name = self.loop_name("chain");
        let ix = format!("ix_{}", name);
        let turbofish = match &m.turbofish {
            Some(t) => match t.args.first() {
                Some(GenericArgument::Type(t)) => Some(self.tc.ty(t)?),
                _ => None,
            },
            None => None,
        };
        if n == "for_each" {
            let cl = match strip(&m.args[0]) {
                Expr::Closure(c) => c.clone(),
                _ => return Err("for_each argument".into()),
            };
            let mut binds = vec![];
            let post = self.bind_elem(&c, &ix, &cl.inputs[0], &mut binds)?;
            let body = self.stmt_expr(strip(&cl.body))?;
            return Ok(Some(self.emit_loop(&name, &pre, &len, &binds, &body, "", "", &post)));
        }
        let e = self.elem(&c, &ix)?;
        let ee = Self::elem_expr(&e);
        let r = match n.as_str() {
            "collect" => {
                let is_res = turbofish.as_deref().map(|t| t.starts_with("Result<")).unwrap_or(false);
                if is_res != tried && is_res {
                    return Err("collect into Result without ?".into());
                }
                let body = if is_res { format!("let x_{name} = {ee}?;\n//@elem {name}\nout_{name}.push(x_{name});") } else { format!("let x_{name} = {ee};\n//@elem {name}\nout_{name}.push(x_{name});") };
                let t = match turbofish.as_deref() {
                    Some(t) if t.starts_with("Vec<") => format!(": {}", t),
                    Some(t) if is_res && t.starts_with("Result<Vec<") => {
                        let inner = &t["Result<".len()..];
                        let end = inner.rfind(',').unwrap();
                        format!(": {}", &inner[..end])
                    }
                    _ => String::new(),
                };
                let s = self.emit_loop(&name, &pre, &len, &[], &body, &format!("let mut out_{name}{t} = Vec::new();"), &format!("out_{name}\n"), "");
                if tried && !is_res {
                    return Err("? after collect".into());
                }
                s
            }
            "sum" | "product" => {
                let (zero, step) = if n == "sum" { ("sum_zero", "sum_step") } else { ("prod_one", "prod_step") };
                let arg = match &e {
                    Elem::Ref(_) => ee.clone(),
                    _ => format!("&x_{}", name),
                };
                let bind = match &e {
                    Elem::Ref(_) => String::new(),
                    _ => format!("let x_{name} = {ee};\n"),
                };
                let t = turbofish.map(|t| format!(": {}", t)).unwrap_or_default();
                let body = format!("{bind}//@elem {name}\nacc_{name} = {step}(acc_{name}, {arg});");
                self.emit_loop(&name, &pre, &len, &[], &body, &format!("let mut acc_{name}{t} = {zero}();"), &format!("acc_{name}\n"), "")
            }
            "fold" | "reduce" => {
                let init = if n == "reduce" {
                    match strip(&m.args[0]) {
                        Expr::Closure(c) => self.ex(&c.body)?,
                        _ => return Err("reduce identity".into()),
                    }
                } else {
                    self.ex(&m.args[0])?
                };
                let cl = match strip(&m.args[1]) {
                    Expr::Closure(c) => c.clone(),
                    _ => return Err("fold argument".into()),
                };
                let bind = format!("let x_{name} = {ee};\n//@elem {name}\n");
                let b = self.inline_closure(&cl, vec![Elem::Val(format!("acc_{}", name)), Elem::Val(format!("x_{}", name))])?;
                let body = format!("{bind}acc_{name} = {b};");
                self.emit_loop(&name, &pre, &len, &[], &body, &format!("let mut acc_{name} = {init};"), &format!("acc_{name}\n"), "")
            }
            "all" | "any" => {
                let cl = match strip(&m.args[0]) {
                    Expr::Closure(c) => c.clone(),
                    _ => return Err("all/any argument".into()),
                };
                let b = self.inline_closure(&cl, vec![e])?;
                let (init, op) = if n == "all" { ("true", "&&") } else { ("false", "||") };
                let body = format!("let x_{name}: bool = {b};\n//@elem {name}\nacc_{name} = acc_{name} {op} x_{name};");
                self.emit_loop(&name, &pre, &len, &[], &body, &format!("let mut acc_{name}: bool = {init};"), &format!("acc_{name}\n"), "")
            }
            _ => unreachable!(),
        };
        Ok(Some(r))
    }

    // ---------------------------------------------------------------- expressions
    fn atom(&mut self, e: &Expr) -> R<String> {
        let s = self.ex(e)?;
        Ok(match strip(e) {
            Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Index(_) | Expr::Tuple(_) | Expr::Lit(_) | Expr::Try(_) => {
                if s.starts_with('{') { format!("({})", s) } else { s }
            }
            _ => format!("({})", s),
        })
    }

    fn ex(&mut self, e: &Expr) -> R<String> {
        Ok(match e {
            Expr::Paren(p) => self.ex(&p.expr)?,
            Expr::Group(p) => self.ex(&p.expr)?,
            Expr::Lit(l) => l.to_token_stream().to_string(),
            Expr::Path(p) => {
                let s = self.tc.path(&p.qself, &p.path, true)?;
                if s.ends_with("::MODULUS_BIT_SIZE") {
                    return Ok("Fr::modulus_bit_size()".into());
                }
                fix_path(&s)
            }
            Expr::Reference(r) => {
                let mu = if r.mutability.is_some() { "mut " } else { "" };
                if let Expr::Index(i) = strip(&r.expr) {
                    if let Expr::Range(rg) = strip(&i.index) {
                        if rg.start.is_none() && rg.end.is_none() {
                            let b = self.atom(&i.expr)?;
                            return Ok(format!("{}.as_sl()", b));
                        }
                    }
                }
                let s = self.atom(&r.expr)?;
                format!("&{}{}", mu, s)
            }
            Expr::Unary(u) => {
                if matches!(u.op, UnOp::Deref(_)) {
                    if let Some(n) = path_ident(&u.expr) {
                        if self.derefs.contains(&n) {
                            return Ok(n);
                        }
                    }
                }
                let op = match u.op {
                    UnOp::Deref(_) => "*",
                    UnOp::Not(_) => "!",
                    UnOp::Neg(_) => "-",
                    _ => return Err("unary".into()),
                };
                format!("{}{}", op, self.atom(&u.expr)?)
            }
            Expr::Binary(b) => {
                if is_assign_op(&b.op) {
                    return Ok(format!("{{ {} }}", self.stmt_expr(e)?));
                }
                let d = self.dest.take();
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) {
                    if let (Some(l), Some(r)) = (self.whole_float(&b.left)?, self.whole_float(&b.right)?) {
                        self.dest = d;
                        return Ok(format!("({} {} {})", l, b.op.to_token_stream(), r));
                    }
                }
                if let (BinOp::Shl(_), Expr::Lit(x), Expr::Lit(y)) = (&b.op, strip(&b.left), strip(&b.right)) {
                    if let (Lit::Int(x), Lit::Int(y)) = (&x.lit, &y.lit) {
                        if let (Ok(v), Ok(k)) = (x.base10_parse::<u128>(), y.base10_parse::<u32>()) {
                            // a constant: 1 << 20
                            if k < 64 && v < 1 << 63 && v << k < 1 << 63 {
                                self.dest = d;
                                return Ok(format!("{}{}", v << k, x.suffix()));
                            }
                        }
                    }
                }
                let l = self.atom(&b.left)?;
                let r = self.atom(&b.right)?;
                self.dest = d;
                if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_)) && !(is_bits(&b.left) || is_bits(&b.right)) {
                    // no short circuit: both operands are evaluated
                    let f = if matches!(b.op, BinOp::BitAnd(_)) { "vp_band" } else { "vp_bor" };
                    return Ok(format!("{}({}, {})", f, l, r));
                }
                format!("{} {} {}", l, b.op.to_token_stream(), r)
            }
            Expr::Cast(c) => {
                if let Some(s) = self.float_pattern(e)? {
                    return Ok(s);
                }
                let t = self.tc.ty(&c.ty)?;
                if t == "f64" || t == "f32" {
                    return Err("floating point".into());
                }
                format!("{} as {}", self.atom(&c.expr)?, t)
            }
            Expr::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.value(x)).collect();
                let v = v?;
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            Expr::Field(f) => {
                let b = self.atom(&f.base)?;
                format!("{}.{}", b, f.member.to_token_stream())
            }
            Expr::Index(i) => {
                let d = self.dest.take();
                let b = self.atom(&i.expr)?;
                let ix = self.ex(&i.index)?;
                self.dest = d;
                format!("{}[{}]", b, ix)
            }
            Expr::Range(r) => {
                let a = match &r.start {
                    Some(x) => self.atom(x)?,
                    None => String::new(),
                };
                let b = match &r.end {
                    Some(x) => self.atom(x)?,
                    None => String::new(),
                };
                format!("{}{}{}", a, r.limits.to_token_stream(), b)
            }
            Expr::Struct(s) => {
                if s.rest.is_some() {
                    return Err("struct update".into());
                }
                let p = self.tc.path(&s.qself, &s.path, true)?;
                let mut v = vec![];
                for f in &s.fields {
                    let x = self.value(&f.expr)?;
                    v.push(format!("{}: {}", f.member.to_token_stream(), x));
                }
                format!("{} {{ {} }}", p, v.join(", "))
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                self.block(&b.block)?
            }
            Expr::Unsafe(_) => return Err("unsafe".into()),
            Expr::If(i) => {
                let c = self.cond(&i.cond)?;
                let t = self.block(&i.then_branch)?;
                match &i.else_branch {
                    Some((_, el)) => {
                        let s = self.ex(el)?;
                        format!("if {} {} else {}", c, t, s)
                    }
                    None => format!("if {} {}", c, t),
                }
            }
            Expr::Match(m) => {
                let s = self.ex(&m.expr)?;
                let mut v = vec![];
                for a in &m.arms {
                    let p = self.pat(&a.pat)?;
                    let g = match &a.guard {
                        Some((_, g)) => format!(" if {}", self.ex(g)?),
                        None => String::new(),
                    };
                    let b = self.ex(&a.body)?;
                    v.push(format!("{}{} => {},", p, g, b));
                }
                format!("match {} {{ {} }}", s, v.join("\n"))
            }
            Expr::Loop(l) => {
                if has_break_value(&l.body) {
                    let (s, v) = self.loop_value(l)?;
                    format!("{{\n{}{} }}", s, v)
                } else {
                    let name = self.loop_name("loop");
                    self.plain_loop(l.label.as_ref().map(|l| l.name.ident.to_string()), &l.body, "loop", name)?
                }
            }
            Expr::While(w) => {
                self.dest = Some("while".into());
                let name = self.loop_name("while");
                let c = self.cond(&w.cond)?;
                self.plain_loop(w.label.as_ref().map(|l| l.name.ident.to_string()), &w.body, &format!("while {}", c), name)?
            }
            Expr::ForLoop(f) => self.for_loop(f)?,
            Expr::Break(b) => {
                let lab = b.label.as_ref().map(|l| l.ident.to_string());
                let mut target = None;
                for x in self.breaks.iter().rev() {
                    if lab.is_none() || x.label == lab {
                        target = Some((x.var.clone(), x.out.clone()));
                        break;
                    }
                }
                let (var, out) = target.ok_or("break outside loop")?;
                match (&b.expr, var) {
                    (Some(v), Some(var)) => {
                        let s = self.ex(v)?;
                        format!("{{ {} = {};\n//@break\nbreak {}; }}", var, s, out)
                    }
                    (None, _) => format!("break {}", out),
                    _ => return Err("break value".into()),
                }
            }
            Expr::Continue(c) => {
                let lab = c.label.as_ref().map(|l| l.ident.to_string());
                let mut out = None;
                for x in self.breaks.iter().rev() {
                    if lab.is_none() || x.label == lab {
                        out = Some(x.out.clone());
                        break;
                    }
                }
                format!("continue {}", out.ok_or("continue")?)
            }
            Expr::Return(r) => match &r.expr {
                Some(x) => {
                    let s = self.ex(x)?;
                    format!("return {}", s)
                }
                None => "return".into(),
            },
            Expr::Try(t) => {
                if let Expr::MethodCall(m) = strip(&t.expr) {
                    if let Some(s) = self.terminal(m, true)? {
                        return Ok(s);
                    }
                }
                if let Expr::Call(c) = strip(&t.expr) {
                    if let Some(s) = self.try_inline(c, true)? {
                        return Ok(s);
                    }
                }
                let s = self.atom(&t.expr)?;
                format!("{}?", s)
            }
            Expr::Macro(m) => self.mac(&m.mac)?,
            Expr::Call(c) => self.call(c)?,
            Expr::MethodCall(m) => self.method(m)?,
            Expr::Assign(_) => format!("{{ {} }}", self.stmt_expr(e)?),
            Expr::Let(l) => {
                let p = self.pat(&l.pat)?;
                let s = self.ex(&l.expr)?;
                format!("let {} = {}", p, s)
            }
            Expr::Infer(_) => "_".into(),
            Expr::Repeat(_) => return Err("array repeat".into()),
            Expr::Array(a) => {
                let v: R<Vec<String>> = a.elems.iter().map(|x| self.ex(x)).collect();
                format!("[{}]", v?.join(", "))
            }
            Expr::Closure(_) => return Err("closure value".into()),
            _ => return Err(format!("unsupported expression {}", e.to_token_stream())),
        })
    }

    /// expression in a value position: iterators are materialised
    fn value(&mut self, e: &Expr) -> R<String> {
        if self.looks_like_chain(e) {
            self.pre.push(vec![]);
            let d = self.dest.take();
            let c = self.chain(strip(e))?;
            // plain `x.iter().cloned()` is the vector itself
            if let Ch::Cloned(b) = &c {
                if let Ch::Src { var, .. } = &**b {
                    let pre = self.pre.pop().unwrap();
                    self.dest = d;
                    return Ok(format!("{{ {} {}.vp_to_vec() }}", pre.join(" "), var));
                }
            }
            let len = self.len(&c)?.ok_or("infinite iterator")?;
            let pre = self.pre.pop().unwrap();
            self.dest = d;
            let name = self.loop_name("chain");
            let ix = format!("ix_{}", name);
            let el = self.elem(&c, &ix)?;
            let ee = Self::elem_expr(&el);
            let body = format!("let x_{name} = {ee};\n//@elem {name}\nout_{name}.push(x_{name});");
            return Ok(self.emit_loop(&name, &pre, &len, &[], &body, &format!("let mut out_{name} = Vec::new();"), &format!("out_{name}\n"), ""));
        }
        self.ex(e)
    }

    fn cond(&mut self, e: &Expr) -> R<String> {
        self.ex(e)
    }

    fn float_pattern(&mut self, e: &Expr) -> R<Option<String>> {
        // (((X) as f64).sqrt().ceil() as usize)
        if let Expr::Cast(c) = strip(e) {
            if c.ty.to_token_stream().to_string() == "usize" {
                if let Expr::MethodCall(m) = strip(&c.expr) {
                    if m.method == "ceil" {
                        if let Expr::MethodCall(m2) = strip(&m.receiver) {
                            if m2.method == "sqrt" {
                                if let Expr::Cast(c2) = strip(&m2.receiver) {
                                    let t = c2.ty.to_token_stream().to_string();
                                    if t == "f64" || t == "f32" {
                                        let x = self.ex(&c2.expr)?;
                                        let f = if t == "f64" { "vp_ceil_sqrt" } else { "vp_ceil_sqrt_single" };
                                        return Ok(Some(format!("{}({})", f, x)));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(None)
    }

    fn args(&mut self, a: &Punctuated<Expr, Token![,]>) -> R<String> {
        let d = self.dest.take();
        let v: R<Vec<String>> = a.iter().map(|x| self.value(x)).collect();
        self.dest = d;
        Ok(v?.join(", "))
    }

    fn call(&mut self, c: &ExprCall) -> R<String> {
        if let Some(n) = path_ident(&c.func) {
            if let Some(cl) = self.closures.get(&n).cloned() {
                let mut v = vec![];
                for a in &c.args {
                    v.push(Elem::Val(self.value(a)?));
                }
                return self.inline_closure(&cl, v);
            }
        }
        if let Some(s) = self.try_inline(c, false)? {
            return Ok(s);
        }
        let f = match strip(&c.func) {
            Expr::Path(p) => fix_path(&self.tc.path(&p.qself, &p.path, true)?),
            _ => return Err("call of a non-path".into()),
        };
        match f.as_str() {
            "Default::default" => return Ok("VDefault::vdefault()".into()),
            d if d.ends_with("::default") && c.args.is_empty() => {
                let t = &d[..d.len() - 9];
                let t = t.strip_suffix(" as Default>").map(|x| x.trim_start_matches('<')).unwrap_or(t);
                let t = if t.starts_with('<') && t.ends_with('>') && !t.contains(" as ") { &t[1..t.len() - 1] } else { t };
                return Ok(format!("<{} as VDefault>::vdefault()", t));
            }
            "Clone::clone" => {
                let x = self.atom(&c.args[0])?;
                return Ok(format!("{}.clone()", x));
            }
            "Err" => {
                let a = strip(&c.args[0]);
                if let Expr::Call(c2) = a {
                    if c2.func.to_token_stream().to_string().replace(' ', "") == "Box::new" {
                        return Ok("Err(mk_err())".into());
                    }
                }
                if let Expr::MethodCall(m) = a {
                    if m.method == "into" {
                        return Ok("Err(mk_err())".into());
                    }
                }
            }
            "u128::from_be_bytes" => {
                // u128::from_be_bytes(X.try_into().unwrap())
                if let Expr::MethodCall(m) = strip(&c.args[0]) {
                    if m.method == "unwrap" || m.method == "expect" {
                        if let Expr::MethodCall(m2) = strip(&m.receiver) {
                            if m2.method == "try_into" {
                                let x = self.atom(&m2.receiver)?;
                                let x = if x.starts_with('&') || x.starts_with("(&") { x } else { format!("&{}", x) };
                                return Ok(format!("u128_from_be({})", x));
                            }
                        }
                    }
                }
                return Err("u128::from_be_bytes".into());
            }
            "Box::new" => return Ok("mk_err()".into()),
            "swap" | "mem::swap" | "std::mem::swap" => {
                let a = self.args(&c.args)?;
                return Ok(format!("core::mem::swap({})", a));
            }
            _ => {}
        }
        let a = self.args(&c.args)?;
        Ok(format!("{}({})", f, a))
    }

    fn method(&mut self, m: &ExprMethodCall) -> R<String> {
        if let Some(s) = self.terminal(m, false)? {
            return Ok(s);
        }
        let n = m.method.to_string();
        if n == "next" {
            if let Some(v) = path_ident(&m.receiver) {
                if let Some((c, _)) = self.cursors.get(&v).cloned() {
                    let e = self.elem(&c, &format!("cur_{}", v))?;
                    let ee = Self::elem_expr(&e);
                    return Ok(format!("(if pos_{v} < n_{v} {{ let cur_{v} = pos_{v}; pos_{v} = pos_{v} + 1; Some({ee}) }} else {{ None }})"));
                }
            }
        }
        if self.looks_like_chain(&m.receiver) {
            return Err(format!("iterator method {}", n));
        }
        if let Some(s) = self.option_closure(m)? {
            return Ok(s);
        }
        if matches!(n.as_str(), "iter" | "map" | "map_err" | "and_then" | "windows" | "for_each") {
            return Err(format!("method {}", n));
        }
        let d = self.dest.take();
        let r = self.atom(&m.receiver)?;
        self.dest = d;
        let a = self.args(&m.args)?;
        let nn = match n.as_str() {
            "unwrap" => return Ok(format!("{}.vp_unwrap(Ghost(__VALID__))", r)),
            "expect" => return Ok(format!("{}.vp_unwrap(Ghost(__VALID__))", r)),
            "last" | "first" | "reverse" | "resize" | "to_vec" | "count_ones" | "is_power_of_two" | "next_power_of_two" | "trailing_zeros" | "leading_zeros" | "pow"
            | "to_be_bytes" | "to_le_bytes" | "abs_diff" | "into" | "extend_from_slice" | "min" | "max" | "truncate" | "is_empty" | "swap" | "extend" | "unwrap_or" | "unwrap_or_default" | "double" | "ilog2" => {
                format!("vp_{}", n)
            }
            x => x.to_string(),
        };
        Ok(format!("{}.{}({})", r, nn, a))
    }

    /// `o.map(|x| ..)` and its relatives on an `Option`, as a `match`
    fn option_closure(&mut self, m: &ExprMethodCall) -> R<Option<String>> {
        let n = m.method.to_string();
        let is_opt = match strip(&m.receiver) {
            Expr::MethodCall(r) => matches!(
                r.method.to_string().as_str(),
                "first" | "last" | "get" | "checked_sub" | "checked_add" | "checked_mul" | "checked_div" | "inverse" | "pop"
            ),
            Expr::Call(c) => c.func.to_token_stream().to_string() == "Some",
            _ => false,
        };
        if !is_opt {
            return Ok(None);
        }
        let (k, cl) = match (n.as_str(), m.args.len()) {
            ("map" | "and_then" | "filter" | "is_some_and" | "is_none_or" | "unwrap_or_else", 1) => (0, &m.args[0]),
            ("map_or", 2) => (1, &m.args[1]),
            _ => return Ok(None),
        };
        let cl = match strip(cl) {
            Expr::Closure(c) => c.clone(),
            _ => return Ok(None),
        };
        let d = self.dest.take();
        let r = self.atom(&m.receiver)?;
        let x = self.fresh("opt");
        let s = match n.as_str() {
            "map" => {
                let b = self.inline_closure(&cl, vec![Elem::Val(x.clone())])?;
                format!("(match {r} {{ Some({x}) => Some({b}), None => None }})")
            }
            "and_then" => {
                let b = self.inline_closure(&cl, vec![Elem::Val(x.clone())])?;
                format!("(match {r} {{ Some({x}) => {b}, None => None }})")
            }
            "is_some_and" => {
                let b = self.inline_closure(&cl, vec![Elem::Val(x.clone())])?;
                format!("(match {r} {{ Some({x}) => {b}, None => false }})")
            }
            "is_none_or" => {
                let b = self.inline_closure(&cl, vec![Elem::Val(x.clone())])?;
                format!("(match {r} {{ Some({x}) => {b}, None => true }})")
            }
            "filter" => {
                let b = self.inline_closure(&cl, vec![Elem::Ref(x.clone())])?;
                format!("(match {r} {{ Some({x}) => if {b} {{ Some({x}) }} else {{ None }}, None => None }})")
            }
            "unwrap_or_else" => {
                let b = self.inline_closure(&cl, vec![])?;
                format!("(match {r} {{ Some({x}) => {x}, None => {b} }})")
            }
            _ => {
                let z = self.atom(&m.args[0])?;
                let b = self.inline_closure(&cl, vec![Elem::Val(x.clone())])?;
                format!("(match {r} {{ Some({x}) => {b}, None => {z} }})")
            }
        };
        let _ = k;
        self.dest = d;
        Ok(Some(s))
    }

    /// floating point expressions whose value is a whole number: `n as f32`, `f32::log2(n as f32)`, `(n as f32).log2()`
    fn whole_float(&mut self, e: &Expr) -> R<Option<String>> {
        let is_f = |t: &Type| matches!(t.to_token_stream().to_string().as_str(), "f32" | "f64");
        let log = |e: &Expr| -> Option<Expr> {
            let arg = match strip(e) {
                Expr::Call(f) if matches!(f.func.to_token_stream().to_string().replace(' ', "").as_str(), "f32::log2" | "f64::log2") => f.args.first()?.clone(),
                Expr::MethodCall(m) if m.method == "log2" => (*m.receiver).clone(),
                _ => return None,
            };
            match strip(&arg) {
                Expr::Cast(c) if is_f(&c.ty) => Some((*c.expr).clone()),
                _ => None,
            }
        };
        if let Some(n) = log(e) {
            let n = self.ex(&n)?;
            return Ok(Some(format!("vp_log2({})", n)));
        }
        match strip(e) {
            Expr::Cast(c) if is_f(&c.ty) => Ok(Some(self.atom(&c.expr)?)),
            _ => Ok(None),
        }
    }

    fn mac(&mut self, m: &Macro) -> R<String> {
        let n = mname(m);
        match n.as_str() {
            "vec" => {
                let toks = m.tokens.to_string();
                if toks.trim().is_empty() {
                    return Ok("Vec::new()".into());
                }
                if let Ok(args) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let a = self.args(&args)?;
                    return Ok(format!("vec![{}]", a));
                }
                let rep: ExprRepeat = syn::parse_str(&format!("[{}]", toks)).map_err(|e| e.to_string())?;
                let x = self.ex(&rep.expr)?;
                let k = self.ex(&rep.len)?;
                Ok(format!("vec_of({}, {})", x, k))
            }
            "assert" | "debug_assert" => {
                let args = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
                let c = self.ex(&args[0])?;
                Ok(format!("rt_assert({}, Ghost(__VALID__))", c))
            }
            "assert_eq" | "assert_ne" | "debug_assert_eq" => {
                let args = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
                if let (Some(a), Some(b)) = (self.whole_float(&args[0])?, self.whole_float(&args[1])?) {
                    let op = if n == "assert_ne" { "!=" } else { "==" };
                    return Ok(format!("rt_assert({} {} {}, Ghost(__VALID__))", a, op, b));
                }
                let a = self.atom(&args[0])?;
                let b = self.atom(&args[1])?;
                let op = if n == "assert_ne" { "!=" } else { "==" };
                Ok(format!("rt_assert({} {} {}, Ghost(__VALID__))", a, op, b))
            }
            "matches" => {
                let toks: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
                let cut = toks.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')).ok_or("matches!")?;
                let s: proc_macro2::TokenStream = toks[..cut].iter().cloned().collect();
                let mut rest: Vec<_> = toks[cut + 1..].to_vec();
                if matches!(rest.last(), Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == ',') {
                    rest.pop();
                }
                let pt: proc_macro2::TokenStream = rest.into_iter().collect();
                let e: Expr = syn::parse_str(&format!("match ({}) {{ {} => true, _ => false }}", s, pt)).map_err(|e| e.to_string())?;
                self.ex(&e)
            }
            "format" => Ok("mk_string()".into()),
            "unreachable" | "panic" | "unimplemented" | "todo" => Ok("{ rt_assert(false, Ghost(__VALID__)); vp_diverge() }".into()),
            "cfg_iter" | "cfg_into_iter" => Err("iterator macro without consumer".into()),
            _ => Err(format!("macro {}!", n)),
        }
    }

    // ---------------------------------------------------------------- inlining of helpers that carry no contract
    fn helper_of(&self, c: &ExprCall) -> Option<(String, Helper)> {
        if let Expr::Path(p) = strip(&c.func) {
            if p.qself.is_some() {
                return None;
            }
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let last = segs.last()?.clone();
            let key = if segs.len() == 1 {
                last
            } else {
                let pre = segs[segs.len() - 2].clone();
                if pre == "Self" {
                    format!("{}::{}", self.tc.self_name, last)
                } else if pre == "super" || pre == "crate" || pre == "self" {
                    last
                } else {
                    format!("{}::{}", pre, last)
                }
            };
            return self.fx.local.get(&key).map(|h| (key, h.clone()));
        }
        None
    }

    fn try_inline(&mut self, c: &ExprCall, tried: bool) -> R<Option<String>> {
        let (key, h) = match self.helper_of(c) {
            Some(x) => x,
            None => return Ok(None),
        };
        if self.depth > 4 {
            return Err(format!("recursive helper {}", key));
        }
        if has_return(&h.block) && !tried {
            return Err(format!("helper {} with return", key));
        }
        if has_try(&h.block) && !tried {
            return Err(format!("helper {} with ?", key));
        }
        if h.sig.inputs.len() != c.args.len() {
            return Err(format!("helper {} arity", key));
        }
        let mut pats = vec![];
        let mut vals = vec![];
        for (i, a) in h.sig.inputs.iter().zip(c.args.iter()) {
            match i {
                FnArg::Typed(t) => {
                    pats.push(self.pat(&t.pat)?);
                    vals.push(self.value(a)?);
                }
                _ => return Err("helper method".into()),
            }
        }
        let saved_tc = self.tc.clone();
        let saved_owned = self.owned.clone();
        for g in &h.generics {
            let mut t = TyCtx::new(&self.tc.module);
            t.add_generics(g);
            for (k, v) in t.kinds {
                self.tc.kinds.insert(k, v);
            }
        }
        for i in h.sig.inputs.iter() {
            if let FnArg::Typed(t) = i {
                if let Pat::Ident(pi) = &*t.pat {
                    self.owned.remove(&pi.ident.to_string());
                    self.note_param(&pi.ident.to_string(), &t.ty);
                }
            }
        }
        self.depth += 1;
        self.inlined.push(key.clone());
        let mut blk = h.block.clone();
        if tried {
            // the tail must be Ok(e)
            match blk.stmts.last_mut() {
                Some(Stmt::Expr(e, None)) => {
                    let inner = match strip(e) {
                        Expr::Call(k) if k.func.to_token_stream().to_string() == "Ok" => k.args[0].clone(),
                        other => Expr::Try(ExprTry { attrs: vec![], expr: Box::new(other.clone()), question_token: Default::default() }),
                    };
                    *e = inner;
                }
                _ => return Err(format!("helper {} tail", key)),
            }
        }
        let d = self.dest.take();
        let saved_breaks = std::mem::take(&mut self.breaks);
        let b = self.block(&blk)?;
        self.breaks = saved_breaks;
        self.dest = d;
        self.depth -= 1;
        self.tc = saved_tc;
        self.owned = saved_owned;
        let inner = &b[1..b.len() - 1];
        let lets = if pats.len() == 1 {
            format!("let {} = {};", pats[0], vals[0])
        } else if pats.is_empty() {
            String::new()
        } else {
            format!("let ({}) = ({});", pats.join(", "), vals.join(", "))
        };
        Ok(Some(format!("{{\n{}\n{}}}", lets, inner)))
    }
}

/// an operand of `&` or `|` that shows it works on integers; every other `&`, `|` is taken as the one on `bool`
/// (if it is not, the extracted text does not type-check and the function counts as outside the verifier's reach)
fn is_bits(e: &Expr) -> bool {
    match strip(e) {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_)),
        Expr::Cast(_) => true,
        Expr::Binary(b) => match b.op {
            BinOp::Shl(_) | BinOp::Shr(_) | BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Rem(_) | BinOp::Div(_) => true,
            BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) => is_bits(&b.left) || is_bits(&b.right),
            _ => false,
        },
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && is_bits(&u.expr),
        _ => false,
    }
}

fn is_assign_op(op: &BinOp) -> bool {
    matches!(
        op,
        BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_)
            | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
    )
}

fn cfg_off(a: &Attribute) -> bool {
    if !a.path().is_ident("cfg") {
        return false;
    }
    let t = a.to_token_stream().to_string().replace(' ', "");
    t.contains("not(feature=\"parallel\")") || t.contains("test")
}

fn crate_cfg_off(e: &Expr) -> bool {
    let attrs: &[Attribute] = match e {
        Expr::Block(b) => &b.attrs,
        Expr::Call(b) => &b.attrs,
        Expr::MethodCall(b) => &b.attrs,
        Expr::If(b) => &b.attrs,
        _ => return false,
    };
    attrs.iter().any(cfg_off)
}

pub fn fix_path(s: &str) -> String {
    match s {
        "u128::rand" => return "vp_u128_rand".into(),
        "Box::new" => return "Box::new".into(),
        _ => {}
    }
    for t in ["G1", "G2", "G1Affine", "G2Affine", "G1Prepared", "G2Prepared", "Fr", "GT"] {
        if s == format!("{}::from", t) {
            return format!("{}::vp_from", t);
        }
    }
    s.to_string()
}
